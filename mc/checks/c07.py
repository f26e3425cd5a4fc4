"""C07: the real modem fed with ideal and own-modulator signals: every (half) sample timing offset x tone plan x format x oversampling."""
from vlib import *
from checks.dspcommon import *
LEVEL = "exploration"
ASSUMPTIONS = ["Signals are quantised to 16 bit; supported settings are taken as tone spacing of at least the symbol rate (1.5 times for the rate grid), tones at least 1.5 symbol rates inside the band, clock offsets up to 1000 ppm; acquisition may take 3 blocks (150 symbols).",
               "Bit patterns are fixed pseudo-random sequences: what is enumerated is timing, tone plan, format and configuration."]
def run(chk):
    chk.cov["rule"] = "one case = one modulated signal demodulated from its first sample; oracle = transmitted bits (all bits after 3 blocks) or transmitted packets (all of them, once, in order)"
    jobs(chk, plain(), ["bits", "limits", "default", "grid", "packets"])

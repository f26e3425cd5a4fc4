"""C03: the real receiver (fsk_demod_core replaced by a chosen bit source) on every stream of a bounded family."""
from vlib import *
from checks.rxcommon import *
LEVEL = "exploration"
ASSUMPTIONS = ["The demodulator hands the receiver one block of bits per call (100 for binary); C07 covers the demodulator itself.",
               "Streams whose bits contain a further packet by a 16-bit checksum coincidence are recognised by the reference receiver and only checked for 'delivered => contained in the bits'."]
def run(chk):
    chk.cov["rule"] = ("one case = one complete bit stream through horus_rx until every unique word left the window; each stream carries at least one packet. "
                       "Oracle: the list of packets put into the stream, cross-checked against an independent reference receiver (mc/c/ref.h, rx.c)")
    jobs(chk, plain(), ["single", "pair", "triple", "fec", "trunc"])

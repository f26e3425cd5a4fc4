"""C05: RTTY sentences through the real receiver, every alignment / '$' count / length / ending of a bounded family, and every single-character corruption."""
from vlib import *
from checks.rxcommon import *
LEVEL = "exploration"
ASSUMPTIONS = ["Idle line is mark (1) or a non-'$' pattern; sentences are at least 12 characters long and '*' is at most character 114 (advertised output size 120)."]
def run(chk):
    chk.cov["rule"] = "one case = one bit stream through horus_rx; oracle = transmitted sentences, and for corrupted streams the reference RTTY parser in rx.c"
    jobs(chk, plain(), ["rsingle", "rpair", "rcorrupt"])

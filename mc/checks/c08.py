"""C08: all interleavings of the call sequences of two receivers (open, 4 x receive, close each), every open/use/close history to a depth,
with allocated memory and stack filled differently each time; oracle = the same receiver run alone, and zero live allocations at the end."""
from vlib import *
from checks.dspcommon import *
LEVEL = "exploration"
ASSUMPTIONS = ["Calls are atomic (the library documents no concurrent use of one instance); receive steps group a quarter of the recording's blocks."]
def run(chk):
    chk.cov["rule"] = "one case = one complete interleaving or history executed on the real library; oracle = per-step digest of outputs, flags and statistics of the solo run; all allocations released"
    jobs(chk, plain(), ["inter"])
    jobs(chk, plain(["-DRUN_TIME_TABLES"]), ["history"], "rt-")
    jobs(chk, msan(), ["history"], "msan-", thorough=0)
    jobs(chk, asan(), ["history"], "asan-", thorough=0)
    chk.cov["interleavings"] = chk.cov.pop("cases_inter", 0)

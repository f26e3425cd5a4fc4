"""C09: requested sample counts over all block sequences from an adversarial alphabet and a configuration grid; exact-size buffers under ASan;
each requested sample is shown to influence an output; unsupported combinations must be refused."""
from vlib import *
from checks.dspcommon import *
LEVEL = "exploration"
ASSUMPTIONS = ["A refusal may be NULL, an assertion, abort or exit; symbols of up to 7680 samples (larger ones need more stack than usual, documented in fsk.c)."]
def run(chk):
    chk.cov["rule"] = "one case = one block sequence, one configuration or one changed sample; oracle = contract on the request, sanitizers on exact-size buffers, a later output differs for every changed sample"
    env = {"ASAN_OPTIONS": ASAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")}
    jobs(chk, asan(), ["nin", "combos", "consume"], "asan-", env=env)

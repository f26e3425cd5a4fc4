"""C06: memory safety, definedness and termination of the receiver over enumerated bit streams, under ASan+UBSan and MSan with exact-size buffers."""
from vlib import *
from checks.rxcommon import *
LEVEL = "exploration"
ASSUMPTIONS = ["Memory errors are those AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer detect on the executed streams."]
def run(chk):
    chk.cov["rule"] = "one case = one bit stream through the real receiver; output buffer is an exact-size heap block; oracle = sanitizers, termination, and 'delivered => contained in the bits'"
    jobs(chk, asan(), ["mem"], "asan-")
    jobs(chk, msan(), ["mem"], "msan-")
    jobs(chk, asan(), ["rcorrupt", "trunc"], "asan-")

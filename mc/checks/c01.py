"""C01: all 2^23 words in every coder variant; all <=3-bit patterns per codeword position of every packet size."""
from vlib import *
LEVEL = "exploration"
ASSUMPTIONS = ["The packet decoder treats codewords independently of payload content beyond the payload kinds enumerated (zero, ones, mixed).",
               "Sizes outside the operational set {16,22,32,48,64,96,128} use the first and last two codewords at the quick tier, all at thorough."]
SRC = ["src/horus_l2.c", "src/golay23.c", "src/phi0.c", "src/mpdecode_core.c"]
VARIANTS = {"runtime-tables": DEFS, "no-tables": ["-DHORUS_L2_RX", "-DINTERLEAVER", "-DSCRAMBLER", "-DNO_TABLES"],
            "static-tables": ["-DHORUS_L2_RX", "-DINTERLEAVER", "-DSCRAMBLER"]}

def run(chk):
    chk.cov["rule"] = ("each received word / each (packet size, payload, error pattern) is one case; non-trivial = at least one bit in error. "
                       "Oracle: nearest codeword by construction of the perfect code; packet reference encoder in mc/c/ref.h")
    for v, d in VARIANTS.items():
        exe = cbuild("fec-" + v, ["fec.c"], SRC, defs=d)
        run_shards(chk, exe, ["--job", "word"], label="word-" + v)
    exe = cbuild("fec-runtime-tables", ["fec.c"], SRC, defs=DEFS)
    run_shards(chk, exe, ["--job", "packet", "--thorough", int(not chk.quick)], label="packet")

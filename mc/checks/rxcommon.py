from vlib import *
RXDEFS = ["-DHORUS_L2_RX", "-DINTERLEAVER", "-DSCRAMBLER"]
WRAP = ["-Wl,--wrap=fsk_demod_core"]
def plain():
    return cbuild("rx", ["rx.c"], hsrcs(), defs=RXDEFS, ldflags=WRAP)
def asan():
    return cbuild("rx-asan", ["rx.c"], hsrcs(), defs=RXDEFS, cflags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=shift", "-fno-omit-frame-pointer"],
                  ldflags=WRAP + ["-fsanitize=address,undefined"], opt="-O1")
def msan():
    return cbuild("rx-msan", ["rx.c"], hsrcs(), defs=RXDEFS + ["-DMC_SAN"], cc="clang", cflags=["-fsanitize=memory", "-fsanitize-memory-track-origins=1", "-fno-omit-frame-pointer"],
                  ldflags=WRAP + ["-fsanitize=memory"], opt="-O1")
def jobs(chk, exe, names, label=""):
    for j in names:
        r = run_shards(chk, exe, ["--job", j, "--thorough", int(not chk.quick)], label=label + j, timeout=3 * 3600 if not chk.quick else 700)
        chk.cov["streams_" + label + j] = r.get("evaluations", 0)

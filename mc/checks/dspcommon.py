from vlib import *
SIG = ["-DHORUS_L2_RX", "-DINTERLEAVER", "-DSCRAMBLER"]
LD = ["-Wl,--defsym=__real_fsk_demod_core=0", "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=__assert_fail,--wrap=abort,--wrap=exit"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=shift", "-fno-omit-frame-pointer"]
def plain(extra=()):
    return cbuild("dsp", ["dsp.c"], hsrcs(), defs=SIG + list(extra), ldflags=LD)
def asan(extra=()):
    return cbuild("dsp-asan", ["dsp.c"], hsrcs(), defs=SIG + list(extra), cflags=ASAN, ldflags=LD + ["-fsanitize=address,undefined"], opt="-O1")
def msan():
    return cbuild("dsp-msan", ["dsp.c"], hsrcs(), defs=SIG + ["-DMC_SAN"], cc="clang", cflags=["-fsanitize=memory", "-fsanitize-memory-track-origins=1", "-fno-omit-frame-pointer"],
                  ldflags=LD + ["-fsanitize=memory"], opt="-O1")
def jobs(chk, exe, names, label="", thorough=None, env=None):
    for j in names:
        r = run_shards(chk, exe, ["--job", j, "--thorough", int(not chk.quick) if thorough is None else thorough], label=label + j,
                       timeout=3 * 3600 if not chk.quick else 700, env=env)
        chk.cov["cases_" + label + j] = r.get("evaluations", 0)
    for k in [k for k, v in chk.cov.items() if v == 0 and not isinstance(v, bool) and k != "evaluations"]:
        del chk.cov[k]

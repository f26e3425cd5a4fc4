"""C32: the shipped receive scripts, really run, with every external program replaced by a recorder: the complete product of configuration values, missing programs, a local venv; then real demodulators
behind the scripts, fed with one signal per configured frequency. The judgement is on what the programs were told and what bytes they were given, never on the scripts' text."""
import getopt, glob, itertools, json, math, os, pwd, random, re, shutil, signal, stat, struct, subprocess, tempfile, time
from vlib import *
from pymc import *
import modulate
from pyref import ref_encode, crc16
LEVEL = "exploration"
ASSUMPTIONS = ["Radio programs, netcat and ka9q-radio's tune/pcmrecord are recorders that follow the documented option syntax; the shell, tee, bc and the kernel pipes are the installed ones.",
               "Configuration is edited the way the scripts' comments say: NAME=value lines of the start_ scripts, environment variables for the docker_ ones.",
               "A chain that is not told its target frequency is allowed (two scripts leave the second one out); one told a wrong frequency is not."]

STUB = r'''#!/bin/bash
# records how it was called; then plays its part in the pipeline
n=${0##*/}; out=$REC/$n.$$
printf '%s\0' "$@" > "$out.argv"
fin() { : > "$out.done"; }
trap fin EXIT
case "$n" in
  rtl_fm|rx_fm|nc|pcmrecord) cat "$REC/stream" 2>/dev/null;  [ "$n" = "$FAILING" ] && { fin; exit 3; } ;;
  horus_demod)
     if [ -n "$REALDEMOD" ]; then "$REALDEMOD" "$@" 2>"$out.err"
     else cksum > "$out.in"; echo "FROM $out"; fi ;;
  horus_uploader) cat > "$out.in" ;;
  python|python3) cat > "$out.in" ;;
esac
exit 0
'''
REALD = '''#!/bin/bash
export PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1
exec %s -W ignore -m horusdemodlib.demod "$@"
'''
NAMES = ["rtl_fm", "rx_fm", "nc", "pcmrecord", "tune", "pkill", "horus_demod", "horus_uploader", "python", "python3", "killall", "reboot", "shutdown", "sudo"]

def prepare(d):
    """system programs without the ones we stand in for; the stand-ins"""
    for sub in ("sys", "bin", "bc"): os.makedirs(f"{d}/{sub}")
    for p in ("/bin", "/usr/bin"):
        for f in os.listdir(p):
            if f in NAMES or f == "bc" or re.match(r"python|nc\.|netcat|ncat|rtl_|kill$|halt$|poweroff$|init$|systemctl$", f): continue
            try: os.symlink(f"{p}/{f}", f"{d}/sys/{f}")
            except FileExistsError: pass
    if os.path.exists("/usr/bin/bc"): os.symlink("/usr/bin/bc", f"{d}/bc/bc")
    else:
        open(f"{d}/bc/bc", "w").write('#!/bin/bash\nwhile read -r l; do echo $((l)); done\n'); os.chmod(f"{d}/bc/bc", 0o755)
    for n in NAMES:
        open(f"{d}/bin/{n}", "w").write(STUB); os.chmod(f"{d}/bin/{n}", 0o755)
    open(f"{d}/reald", "w").write(REALD % (REPO + ":" + ext_build(), PY)); os.chmod(f"{d}/reald", 0o755)
    os.chmod(d, 0o755)

class Rec:
    pass

def run_script(base, script, env, edits, args=(), missing=(), stream=b"", failing="", real=False, venv=False, limit=60):
    """run one copy of a script to the end of everything it started -> Rec"""
    d = tempfile.mkdtemp(dir=base + "/runs")
    try:
        os.makedirs(d + "/rec")
        src = open(f"{REPO}/{script}").read()
        notfound = []
        for k, v in edits.items():
            src, n = re.subn(rf"(?m)^{k}=.*$", lambda m: f"{k}={v}", src, count=1)
            if not n: notfound.append(k)
        src = re.sub(r"(?m)^cd /home/pi.*$", f"cd {d}", src)
        open(d + "/s.sh", "w").write(src)
        open(d + "/rec/stream", "wb").write(stream)
        path = [base + "/sys"]
        if "bc" not in missing: path.insert(0, base + "/bc")
        os.makedirs(d + "/bin")
        for n in NAMES:
            if n in missing: continue
            if venv and n in ("horus_demod", "horus_uploader"): continue
            shutil.copy(f"{base}/bin/{n}", f"{d}/bin/{n}")
        path.insert(0, d + "/bin")
        if venv:
            os.makedirs(d + "/venv/bin")
            for n in ("horus_demod", "horus_uploader"): shutil.copy(f"{base}/bin/{n}", f"{d}/venv/bin/{n}")
            open(d + "/venv/bin/activate", "w").write(f'export PATH="{d}/venv/bin:$PATH"\n')
        for r, ds, fs in os.walk(d):
            os.chown(r, UID, UID)
            for f in fs: os.chown(os.path.join(r, f), UID, UID)
        e = dict(PATH=":".join(path), REC=d + "/rec", HOME=d, OSTYPE="linux-gnu", FAILING=failing, LC_ALL="C", **{k: str(v) for k, v in env.items()})
        if real: e["REALDEMOD"] = base + "/reald"
        rfd, wfd = os.pipe()
        p = subprocess.Popen(["/bin/bash", d + "/s.sh"] + list(args), cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=open(d + "/out", "wb"), stderr=subprocess.STDOUT,
                             pass_fds=(wfd,), start_new_session=True, user=UID if os.getuid() == 0 else None, group=UID if os.getuid() == 0 else None, extra_groups=[] if os.getuid() == 0 else None)
        os.close(wfd)
        r = Rec(); r.hung = False
        import select
        if select.select([rfd], [], [], limit)[0]: r.rc = p.wait(limit)        # end of file: every process of the script has gone
        else:
            r.hung = True
            os.killpg(p.pid, signal.SIGKILL); r.rc = p.wait()
        os.close(rfd)
        r.calls = {}
        for f in sorted(glob.glob(d + "/rec/*.argv"), key=os.path.getmtime):
            n = os.path.basename(f)[:-5]
            a = open(f, "rb").read().decode("utf8", "replace").split("\0")[:-1]
            inp = open(f[:-5] + ".in", "rb").read() if os.path.exists(f[:-5] + ".in") else b""
            r.calls.setdefault(n.rsplit(".", 1)[0], []).append((n, a, inp))
        r.out = open(d + "/out", "rb").read()[-800:]
        r.notfound = notfound
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

# ---------------------------------------------------------------- reading recorded calls
def rtlfm(a):
    o, rest = getopt.gnu_getopt(a, "d:f:g:s:b:l:o:t:r:p:E:F:A:M:w:W:c:v:hTD:")
    return {k: v for k, v in o}, rest

def longs(a, flags=()):
    """demodulator / uploader style: -x, -xVALUE, --name[=value] -> dict, positionals. Options taking a value are those not in flags."""
    o, pos, i = {}, [], 0
    while i < len(a):
        t = a[i]
        if t == "-" or not t.startswith("-"): pos.append(t); i += 1; continue
        if t.startswith("--"):
            k, eq, v = t[2:].partition("=")
            if not eq and k not in flags and i + 1 < len(a): i += 1; v = a[i]
        else:
            k, v = t[1], t[2:]
            if not v and k not in flags and i + 1 < len(a): i += 1; v = a[i]
        o[k] = v; i += 1
    return o, pos

DFLAGS = ("q", "g", "v", "c", "stats", "t")
UFLAGS = ("rtty", "noupload", "v", "verbose")

def uploaders(r):
    out = [(n, a, i) for n, a, i in r.calls.get("horus_uploader", [])]
    for prog in ("python", "python3"):
        for n, a, i in r.calls.get(prog, []):
            if a[:2] == ["-m", "horusdemodlib.uploader"]: out.append((n, a[2:], i))
    return out

def accepted(mod, argv):
    """does the project's own command line parser take this?"""
    import argparse, contextlib, importlib, io, sys
    class Got(BaseException): pass
    real = argparse.ArgumentParser.parse_args
    def pa(self, *x, **k): real(self, *x, **k); raise Got
    old = sys.argv
    try:
        argparse.ArgumentParser.parse_args = pa; sys.argv = ["x"] + argv
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            importlib.import_module("horusdemodlib." + mod).main()
    except Got: return True
    except SystemExit: return False
    finally: argparse.ArgumentParser.parse_args = real; sys.argv = old
    return True

# ---------------------------------------------------------------- the scripts and what their settings mean
def single(cfg): return [("binary", cfg["RXFREQ"])]
def multi(n): return lambda cfg: [("binary", cfg["RXFREQ"] + cfg[f"MFSK{i}_SIGNAL"]) for i in range(1, n + 1)]
def rttymix(cfg): return [("rtty", cfg["RXFREQ"] + cfg["RTTY_SIGNAL"]), ("binary", cfg["RXFREQ"] + cfg["MFSK_SIGNAL"])]
SIG2 = [(5000, 15000), (-12000, 7000), (15000, 5000)]
SIG3 = [(-5000, 5000, 15000), (10000, -10000, 0)]
SIG8 = [(-17500, -12500, -7500, -2500, 2500, 7500, 12500, 17500), (17500, 12500, 7500, 2500, -2500, -7500, -12500, -17500)]          # windows of the real-demodulator runs must not overlap
SCRIPTS = {
    "start_rtlsdr.sh": dict(radio="rtl_fm", sig=single, bw=[10000, 5000, 2001, 20000], sets=[{}], args=True, tools=True, device=True),
    "scripts/docker_single.sh": dict(radio="rtl_fm", sig=single, bw=[10000, 5000, 2001, 20000], sets=[{}], args=True, docker=True, device=True),
    "scripts/docker_soapy_single.sh": dict(radio="rx_fm", sig=single, bw=[10000, 5000, 20000], sets=[{}], args=True, docker=True, extra=True),
    "scripts/docker_ka9q_single.sh": dict(radio="pcmrecord", sig=single, bw=[10000, 5000, 2001, 20000], sets=[{}], args=True, docker=True, ka9q=True),
    "start_dual_4fsk.sh": dict(radio="rtl_fm", sig=multi(2), bw=[5000, 8000, 2001], sets=[{f"MFSK{i+1}_SIGNAL": s[i] for i in range(2)} for s in SIG2], tools=True, device=True),
    "scripts/docker_dual_4fsk.sh": dict(radio="rtl_fm", sig=multi(2), bw=[5000, 8000], sets=[{f"MFSK{i+1}_SIGNAL": s[i] for i in range(2)} for s in SIG2], docker=True, device=True),
    "start_dual_rtty_4fsk.sh": dict(radio="rtl_fm", sig=rttymix, bw=[5000, 8000, 2001], sets=[dict(RTTY_SIGNAL=s[0], MFSK_SIGNAL=s[1]) for s in SIG2], tools=True, device=True),
    "scripts/docker_dual_rtty_4fsk.sh": dict(radio="rtl_fm", sig=rttymix, bw=[5000, 8000], sets=[dict(RTTY_SIGNAL=s[0], MFSK_SIGNAL=s[1]) for s in SIG2], docker=True, device=True),
    "start_triple_4fsk.sh": dict(radio="rtl_fm", sig=multi(3), bw=[8000, 5001], sets=[{f"MFSK{i+1}_SIGNAL": s[i] for i in range(3)} for s in SIG3], tools=True, device=True),
    "start_eight_4fsk.sh": dict(radio="rtl_fm", sig=multi(8), bw=[5000, 2001], sets=[{f"MFSK{i+1}_SIGNAL": s[i] for i in range(8)} for s in SIG8], tools=True, device=True),
    "start_gqrx.sh": dict(radio="nc", sig=None, bw=[None], sets=[dict(MODE='"binary"'), dict(MODE='"rtty"')], args=True, tools=True, gqrx=True),
}
FREQS = [434200000, 144390001, 28999999]
GAINS = ["0", "12", "49.6"]; PPMS = [0, -3, 57]; DEVS = ["0", "1", "00000101"]
ARGS = [(), ("--noupload", "-v"), ("--config", "my.cfg", "--baud_rate", "100")]

def configs(name, s, quick):
    if s.get("gqrx"):
        for st, args in itertools.product(s["sets"], ARGS): yield dict(st), args
        return
    single_ = s["sig"] is single
    for f, bw, st, g, b, p, dv in itertools.product(FREQS if single_ or not quick else FREQS[:2], s["bw"], s["sets"], GAINS, (0, 1), PPMS if single_ or not quick else PPMS[:2], DEVS if s.get("device") and (single_ or not quick) else DEVS[:1]):
        if quick and single_ and ((GAINS.index(g) + PPMS.index(p) + DEVS.index(dv)) % 3 == 2 or s.get("ka9q") and (g, b, p) != ("0", 0, 0)): continue
        if s.get("ka9q") and (g, b, p) != ("0", 0, 0): continue
        cfg = dict(st, RXFREQ=f, RXBANDWIDTH=bw)
        if s.get("ka9q"): cfg["SDR_DEVICE"] = "hf.local-pcm"
        else:
            cfg.update(GAIN=g, BIAS=b, PPM=p)
            if s.get("device"): cfg["SDR_DEVICE"] = dv
            if s.get("extra"): cfg["SDR_EXTRA"] = "-d driver=rtlsdr"
        for args in (ARGS if s.get("args") else [()]): yield cfg, args
    yield from sweeps(s, quick)

# one setting at a time over its whole useful range, the others as in base_cfg
R820T = ["0.9", "1.4", "2.7", "3.7", "7.7", "8.7", "12.5", "14.4", "15.7", "16.6", "19.7", "20.7", "22.9", "25.4", "28.0", "29.7", "32.8", "33.8", "36.4", "37.2", "38.6", "40.2", "42.1", "43.4", "43.9", "44.5", "48.0", "49.6"]
def sweeps(s, quick):
    base = base_cfg(s); step = 3 if quick else 1
    if not s.get("ka9q"):
        for g in [str(x) for x in range(1, 51)][::2 if quick else 1] + R820T[::2 if quick else 1]: yield dict(base, GAIN=g), ()
        for p in range(-120, 121, 8 if quick else 1): yield dict(base, PPM=p), ()
        if s.get("device"):
            for d in ["2", "7", "10", "00000001", "00000010", "10000000", "00000005", "NESDR01"]: yield dict(base, SDR_DEVICE=d), ()
    for f in [24000001, 50123456, 99999999, 100000000, 100000001, 144390000, 401500000, 432500000, 434199999, 437600500, 440000000, 868123456, 999999999, 1000000000, 1296100000, 1700000000][::1]: yield dict(base, RXFREQ=f), ()
    bwmax = max(s["bw"])
    for w in range(2000, bwmax + 1, 1000 if quick else 100): yield dict(base, RXBANDWIDTH=w), ()
    sk = [k for k in s["sets"][0]]
    for k in sk:                                        # one signal moved, the rest where they are
        for v in range(-18000, 18001, 4500 if quick else 500):
            if all(v != base[q] for q in sk): yield dict(base, **{k: v}), ()

def radio_settings(a, name, s, cfg, r, bad):
    """the one radio: what it was told -> tuned frequency or None"""
    rad = r.calls.get(s["radio"], [])
    if len(rad) != 1: bad("radio-count", f"the radio program was started {len(rad)} times: {r.out[-300:]!r}"); return None
    av = rad[0][1]
    if s.get("gqrx"):
        if "7355" not in av or not any(x.startswith("-") and "u" in x for x in av) or not any(x.startswith("-") and "l" in x for x in av): bad("gqrx-listen", f"nc {av}")
        return 0
    if s.get("ka9q"):
        tu = [longs(x[1])[0] for x in r.calls.get("tune", [])]
        if not tu: bad("ka9q-tune", "channel never configured"); return None
        t = tu[0]; o, pos = longs(av, ("catmode", "raw"))
        lo, hi = -(cfg["RXBANDWIDTH"] // 2), cfg["RXBANDWIDTH"] // 2
        for k, w in (("samprate", "48000"), ("mode", "iq"), ("radio", "hf.local"), ("frequency", str(cfg["RXFREQ"]))):
            if t.get(k) != w: bad(f"ka9q-tune-{k}", f"tune --{k} {t.get(k)}, configured {w}")
        if abs(float(t.get("low", "nan")) - lo) > 1 or abs(float(t.get("high", "nan")) - hi) > 1: bad("ka9q-filter", f"filter {t.get('low')}..{t.get('high')}, configured +-{hi}")
        if o.get("ssrc") != t.get("ssrc") or not o.get("ssrc"): bad("ka9q-ssrc", f"configured channel {t.get('ssrc')}, recorded {o.get('ssrc')}")
        if "hf.local-pcm" not in av: bad("ka9q-stream", f"pcmrecord {av}")
        last = tu[-1]
        if len(tu) < 2 or last.get("frequency") != "0" or last.get("ssrc") != t.get("ssrc") or last.get("radio") != t.get("radio"):
            bad("ka9q-release", f"the channel was not closed at the end: tune calls {[x[1] for x in r.calls.get('tune', [])]}")
        return cfg["RXFREQ"]
    try: o, rest = rtlfm(av)
    except getopt.GetoptError as e: bad("radio-options", f"{av}: {e}"); return None
    g = o.get("-g")
    if (cfg["GAIN"] == "0") != (g is None) or g is not None and float(g) != float(cfg["GAIN"]): bad("gain", f"GAIN={cfg['GAIN']} gave -g {g}")
    if ("-T" in o) != (cfg["BIAS"] == 1): bad("bias", f"BIAS={cfg['BIAS']} gave {'-T' in o}")
    if int(o.get("-p", "0")) != cfg["PPM"]: bad("ppm", f"PPM={cfg['PPM']} gave -p {o.get('-p')}")
    if s.get("device") and o.get("-d", "0") != cfg["SDR_DEVICE"]: bad("device", f"SDR_DEVICE={cfg['SDR_DEVICE']} gave -d {o.get('-d')}")
    if s.get("extra") and "driver=rtlsdr" not in av: bad("soapy-extra", f"{av}")
    if o.get("-M") != "raw" or o.get("-s") not in ("48000", "48k"): bad("radio-format", f"{av}")
    if rest not in ([], ["-"]): bad("radio-output", f"{av}")
    try: return int(o["-f"])
    except (KeyError, ValueError): bad("radio-frequency", f"{av}"); return None

STREAM = bytes(random.Random(3).randrange(256) for _ in range(30000))
SUM = None
def cksum(b):
    return subprocess.run(["cksum"], input=b, capture_output=True).stdout

def chains(r, bad, real=False):
    """pair each uploader with the demodulator whose output it was given"""
    dem = {n: (a, i) for n, a, i in r.calls.get("horus_demod", [])}
    out = []
    for n, a, i in uploaders(r):
        src = re.findall(rb"FROM \S*/(horus_demod\.\d+)", i)
        if len(src) != 1 or src[0].decode() not in dem: bad("wiring", f"an uploader was given {i[:200]!r}"); continue
        out.append((dem[src[0].decode()][0], a, dem[src[0].decode()][1]))
    if len(out) != len(dem): bad("wiring-count", f"{len(dem)} demodulators, {len(out)} of them feed an uploader")
    return out

def judge(a, name, s, cfg, args, r, tag=""):
    def bad(k, w): a.bad(f"{name}:{k}{tag}", f"{w} [{name} {cfg} {' '.join(args)}]")
    if r.hung: bad("hang", "the script or something it started never ended"); return
    if r.notfound: bad("setting-missing", f"no setting {r.notfound} in the script"); return
    f = radio_settings(a, name, s, cfg, r, bad)
    if f is None: return
    ch = chains(r, bad)
    for d, u, i in ch:
        if i != SUM: bad("stream", f"a demodulator was given {i[:60]!r}, the radio sent {SUM!r}")
        for m, v in (("demod", d), ("uploader", u)):
            key = (m, tuple(v))
            if key not in ACC: ACC[key] = accepted(m, list(v))
            if not ACC[key]: bad(f"{m}-options", f"the {m} command line parser refuses {v}")
    want = s["sig"](cfg) if s["sig"] else [(cfg["MODE"].strip('"'), None)]
    if len(ch) != len(want): bad("chains", f"{len(ch)} chains for {len(want)} signals"); return
    left = list(want)
    for d, u, i in ch:
        do, dp = longs(d, DFLAGS); uo, up = longs(u, UFLAGS)
        mode = do.get("m", do.get("mode", "binary")).lower()
        if mode.startswith("rtty"): mode = "rtty"
        if dp != ["-", "-"] and dp != []: bad("demod-files", f"{d}")
        if (not s.get("gqrx")) != ("q" in do): bad("demod-iq", f"{d}: I/Q flag")
        if "g" not in do or not ("stats" in do or "t" in do): bad("demod-stats", f"{d}: the uploader gets no statistics")
        if any(k in do for k in ("rate", "r", "tonespacing", "v", "c", "sample_rate")): bad("demod-extra", f"{d}")
        lo, hi = [float(do.get(k1, do.get(k2, "nan"))) for k1, k2 in (("fsk_lower", "b"), ("fsk_upper", "u"))]
        if s.get("gqrx"):
            if mode != cfg["MODE"].strip('"'): bad("gqrx-mode", f"MODE={cfg['MODE']}, demodulator {mode}")
            if not (lo <= 300 and 3000 <= hi <= 24000): bad("gqrx-limits", f"{lo}..{hi}")
            if any(k.startswith("freq") for k in uo) and "--freq_hz" not in args: bad("gqrx-freq", f"{u}")
        else:
            hit = [w for w in left if w[0] == mode and abs(f + lo - (w[1] - cfg["RXBANDWIDTH"] / 2)) <= 1 and abs(f + hi - (w[1] + cfg["RXBANDWIDTH"] / 2)) <= 1]
            if not hit: bad("window", f"radio at {f}, {mode} demodulator looking at {lo}..{hi}: none of the configured signals {left}"); continue
            left.remove(hit[0])
            if float(uo.get("freq_hz", "nan")) != f: bad("freq_hz", f"radio tuned to {f}, uploader told {uo.get('freq_hz')}")
            if "freq_target_hz" in uo and float(uo["freq_target_hz"]) != hit[0][1]: bad("freq_target_hz", f"signal at {hit[0][1]}, uploader told {uo['freq_target_hz']}")
            if ("rtty" in uo) != (mode == "rtty"): bad("uploader-mode", f"{mode} demodulator, uploader {u}")
            if s["sig"] is single and "freq_target_hz" not in uo: bad("no-target", f"{u}")
            if not -24000 <= lo < hi <= 24000: a.add("outside_passband")
        base = [x for x in u if x]
        if args and " ".join(args) not in " ".join(base): bad("user-args", f"{args} not passed on: {u}")
        if not args and any(k not in ("freq_hz", "freq_target_hz", "rtty") for k in uo): bad("uploader-extra", f"{u}")

ACC = {}
def start(base, name, s, cfg, args=(), **k):
    dock = s.get("docker")
    env = dict(cfg, DECODER="horus_demod", STATS_OUTPUT=0) if dock else {}
    return run_script(base, name, env, {} if dock else cfg, args, **k)

def w_configs(a, item):
    name, lst = item
    s = SCRIPTS[name]
    for cfg, args in lst:
        r = start(BASE, name, s, cfg, args, stream=STREAM)
        a.add("evaluations"); a.add("distinct_nontrivial"); a.add("processes", sum(len(x) for x in r.calls.values()))
        judge(a, name, s, cfg, args, r)
    a.sample((name, cfg, args))

def base_cfg(s):
    cfg = dict(s["sets"][0])
    if not s.get("gqrx"): cfg.update(RXFREQ=434200000, RXBANDWIDTH=s["bw"][0])
    if s.get("ka9q"): cfg["SDR_DEVICE"] = "hf.local-pcm"
    elif not s.get("gqrx"):
        cfg.update(GAIN="0", BIAS=0, PPM=0)
        if s.get("device"): cfg["SDR_DEVICE"] = "0"
        if s.get("extra"): cfg["SDR_EXTRA"] = "-d driver=rtlsdr"
    return cfg

def w_env(a, item):
    """defaults as shipped; programs missing; a local venv; failing radio"""
    name, what = item
    s = SCRIPTS[name]; cfg = base_cfg(s)
    a.add("evaluations")
    if what == "venv":
        r = start(BASE, name, s, cfg, stream=STREAM, venv=True); a.add("distinct_nontrivial")
        judge(a, name, s, cfg, (), r, ":venv"); return
    if what == "fail":
        r = start(BASE, name, s, cfg, stream=STREAM, failing=s["radio"]); a.add("distinct_nontrivial")
        judge(a, name, s, cfg, (), r, ":radio-failure"); return
    if what == "defaults":
        if s.get("docker"): return
        txt = open(f"{REPO}/{name}").read()
        dflt = {}
        for k in cfg:
            m = re.search(rf"(?m)^{k}=(.*?)\s*$", txt)
            if m: dflt[k] = m.group(1)
        try: dflt = {k: (v if k in ("GAIN", "SDR_DEVICE", "MODE") else int(v)) for k, v in dflt.items()}
        except ValueError: return
        if set(dflt) != set(cfg): return
        r = run_script(BASE, name, {}, {}, (), stream=STREAM); a.add("distinct_nontrivial")
        judge(a, name, s, dflt, (), r, ":defaults")
        if s["sig"]:
            w = s["sig"](dflt)
            for m, f in w:
                if abs(f - dflt["RXFREQ"]) + dflt["RXBANDWIDTH"] / 2 > 24000 or len(set(w)) != len(w): a.bad(f"{name}:defaults-passband", f"{dflt}")
        return
    r = start(BASE, name, s, cfg, stream=STREAM, missing=what)
    a.add("distinct_nontrivial")
    if r.hung: a.bad(f"{name}:hang:missing", f"{what}"); return
    if r.rc == 0 or r.calls.get(s["radio"]):
        if set(what) & {"horus_demod", "horus_uploader"}:
            a.bad(f"{name}:missing:{'+'.join(what)}", f"without {what} the script ended with {r.rc}, radio calls {r.calls.get(s['radio'])}")
        else: judge(a, name, s, cfg, (), r, ":without-bc")         # fine if it can do without

# ---------------------------------------------------------------- real demodulators behind the scripts
def packet(k):
    b = bytes([k + 1] + [0x5a ^ (k * 7 + i) & 255 for i in range(19)])
    return b + struct.pack("<H", crc16(b))
def fcrc4(t): return "%04X" % crc16(t.encode())

def w_real(a, item):
    name, cfg, offs = item
    s = SCRIPTS[name]
    a.add("evaluations"); a.add("distinct_nontrivial")
    def bad(k, w): a.bad(f"{name}:real:{k}", f"{w} [{cfg} offset {offs}]")
    r = start(BASE, name, s, cfg, stream=STREAM)
    if s.get("ka9q"): f = cfg["RXFREQ"]
    else:
        try: f = int(rtlfm(r.calls[s["radio"]][0][1])[0]["-f"])
        except Exception: bad("radio-frequency", r.calls.get(s["radio"])); return
    sig = s["sig"](cfg)
    mix = None
    for k, (m, rf) in enumerate(sig):
        c = rf - f + offs
        if m == "binary":
            bits = modulate.bits_of(b"\x1b" * 60 + ref_encode(packet(k)) + b"\x1b" * 60); x = modulate.fsk(bits, 4, 48000, 100, c - 1.5 * 270, 270, 3000, True)
        else:
            t = f"$$$$$R,{k},12:00:00,1.0,2.0,3"; t += "*" + fcrc4(t.lstrip("$")) + "\n"
            bits = [1] * 300 + modulate.rtty_bits(t) + [1] * 1500; x = modulate.fsk(bits, 2, 48000, 100, c - 200, 400, 3000, True)
            rtty = t.strip()
        v = memoryview(x).cast("h")
        if mix is None: mix = [0] * 0
        if len(v) > len(mix): mix += [0] * (len(v) - len(mix))
        for i, y in enumerate(v): mix[i] += y
    import array
    n = len(sig); mix = array.array("h", [max(-32767, min(32767, round(y * 8 / max(8, 3 * n)))) for y in mix]).tobytes()
    r = start(BASE, name, s, cfg, stream=mix, real=True, limit=200)
    if r.hung: bad("hang", "real demodulators"); return
    ups = uploaders(r)
    if len(ups) != len(sig): bad("chains", f"{len(ups)} uploaders for {len(sig)} signals"); return
    for k, (m, rf) in enumerate(sig):
        text = packet(k).hex().upper() if m == "binary" else rtty
        got = [(u, i) for n_, u, i in ups if any(l.strip() == text for l in i.decode("utf8", "replace").splitlines())]
        cnt = sum(l.strip() == text for n_, u, i in ups for l in i.decode("utf8", "replace").splitlines())
        if len(got) != 1 or cnt != 1: bad("packet", f"the packet sent at {rf} came out {cnt} times, at {len(got)} of the uploaders"); continue
        u, i = got[0]
        fh = float(longs(u, UFLAGS)[0].get("freq_hz", "nan"))
        tg = longs(u, UFLAGS)[0].get("freq_target_hz")
        if tg is not None and float(tg) != rf: bad("target", f"the packet sent at {rf} went to the uploader told {tg}")
        est = None; lines = i.decode("utf8", "replace").splitlines(); at = [q for q, l in enumerate(lines) if l.strip() == text][0]
        for l in lines[:at]:
            if l.startswith("{"): est = json.loads(l)
        if est is None: bad("no-statistics", "no statistics before the packet"); continue
        es = [est[q] for q in ("f1_est", "f2_est", "f3_est", "f4_est") if q in est]
        if len(es) != (4 if m == "binary" else 2): bad("tones", f"{m}: {len(es)} tone estimates"); continue
        if abs(fh + sum(es) / len(es) - (rf + offs)) > 40: bad("frequency", f"signal at {rf + offs}, reported at {fh + sum(es) / len(es)}")
    a.add("real_packets", len(sig)); a.sample(item)

def run(chk):
    global BASE, UID, SUM
    import_repo(); quiet()
    try: UID = pwd.getpwnam("nobody").pw_uid
    except KeyError: UID = 65534
    if os.getuid() != 0: UID = os.getuid()
    import horusdemodlib.demod, horusdemodlib.uploader
    BASE = tempfile.mkdtemp(prefix="c32_")
    try:
        prepare(BASE); os.makedirs(BASE + "/runs"); os.chmod(BASE + "/runs", 0o755)
        SUM = cksum(STREAM)
        items = []
        n = {}
        for name, s in SCRIPTS.items():
            l = list(configs(name, s, chk.quick)); n[name] = len(l)
            items += [(name, c) for c in chunks(l, 24)]
        chk.cov["rule"] = "evaluation = one complete run of a script with one configuration; non-trivial = every one (radio, demodulators and uploaders are all judged)"
        chk.cov["bounds"] = "configurations per script: " + ", ".join(f"{os.path.basename(k)} {v}" for k, v in n.items())
        pmap(chk, w_configs, items)
        miss = [("bc",), ("horus_demod",), ("horus_uploader",), ("horus_demod", "horus_uploader"), ("bc", "horus_demod", "horus_uploader")]
        pmap(chk, w_env, [(k, m) for k, s in SCRIPTS.items() for m in (miss if s.get("tools") else []) if not (s.get("gqrx") and m == ("bc",))]
             + [(k, "venv") for k, s in SCRIPTS.items() if s.get("tools")] + [(k, "defaults") for k, s in SCRIPTS.items()] + [(k, "fail") for k, s in SCRIPTS.items()])
        real = []
        for name, s in SCRIPTS.items():
            if s.get("gqrx"): continue
            for st in s["sets"][:1 if chk.quick else None]:
                bw = 5000 if 5000 in s["bw"] else s["bw"][0]
                cfg = dict(base_cfg(s), **st, RXBANDWIDTH=bw)
                for o in ((0, -1200) if chk.quick else (0, -1200, 1200, 700)): real.append((name, cfg, o))
        pmap(chk, w_real, real)
    finally:
        shutil.rmtree(BASE, ignore_errors=True)

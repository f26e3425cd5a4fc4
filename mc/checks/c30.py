"""C30: the statistics of every accessor, after every block, over tone plans x formats x noise levels x clock offsets x arbitrary input block sequences (C),
and the same readings through the Python wrapper (each frame's statistics, kept) and the command line receiver's statistics lines."""
import json, math, os, subprocess, tempfile
from vlib import *
from pymc import *
from checks.dspcommon import SIG, LD, ASAN, jobs
import modulate
LEVEL = "exploration"
ASSUMPTIONS = ["Tone estimates are judged from the 4th block on a clean signal, to 0.35 of the symbol rate; the mean SNR estimate to 6.5 dB and falling with every 2 dB step of the true one between -1 (1000 baud: 1) and 13 dB; clock offset to 30 % and 35 ppm.",
               "Whether the sync flag is ever set is not judged, only that it is 0 or 1 and the same from both accessors."]
QUICK = True; X = None; EXE = None; DM = None
CONF = [("BINARY", "binary", 4, 1000, 3000, 1500), ("BINARY", "binary", 4, 100, 1000, 270), ("RTTY_7N2", "rtty", 2, 1000, 3000, 1500), ("RTTY_8N2", "rtty8n2", 2, 300, 1500, 600), ("BINARY", "binary", 4, 600, 2500, 800)]
PREV = {"BINARY": 0, "RTTY_7N1": 89, "RTTY_7N2": 90, "RTTY_8N2": 91}

def signal(mode, m, rs, f1, sp, iq, k, level):
    from pyref import ref_encode
    if mode == "BINARY":
        bits = modulate.bits_of(b"\x1b" * 50)
        for i in range(4): bits += modulate.bits_of(b"\x1b" * (5 + 3 * i)) + modulate.bits_of(ref_encode(tcrc(bytes((i * 37 + j * 11 + k) & 255 for j in range(20 if (i + k) % 2 else 30)))))
        bits += modulate.bits_of(b"\x1b" * 160)
    else:
        bits = modulate.rtty_bits("U" * 40 + "\n".join(sentence(f"CALL,{i},12:00:0{i},-34.{i},138.{k}") for i in range(4)) + "\n" + "U" * 140, 8 if "8" in mode else 7, 1 if mode.endswith("1") else 2)
    d = modulate.fsk(bits, m, 48000, rs, f1, sp, amp=6000.0, iq=iq, lead=37 * k)
    if level:                                       # deterministic noise
        import array, random
        r = random.Random(k * 100 + level); a = array.array("h", d)
        for i in range(len(a)): a[i] = max(-32768, min(32767, a[i] + int(r.gauss(0, 300 * level))))
        d = a.tobytes()
    return d

FIELDS = ("snr_est", "clock_offset", "rx_timing", "foff", "sync", "neyetr", "neyesamp", "nr", "Nc")
def snap(s, m):
    return tuple(getattr(s, f) for f in FIELDS) + tuple(s.f_est[i] for i in range(m)) + tuple(s.rx_eye[i][j] for i in range(s.neyetr) for j in range(0, s.neyesamp, 5))

def readings(mode, rs, m, iq, sp, data, frames_only=False):
    """plain library loop: statistics after each block"""
    lib, ffi = X.lib, X.ffi
    h = lib.horus_open_advanced(PREV[mode], rs, sp)
    fs = 4 if iq else 2; pos, r = 0, []
    while True:
        n = lib.horus_nin(h) * fs
        if pos + n > len(data): break
        buf = ffi.new("char[]", data[pos:pos + n]); pos += n
        out = ffi.new("char[]", lib.horus_get_max_ascii_out_len(h)); lib.horus_rx(h, out, ffi.cast("short *", buf), int(iq))
        st = ffi.new("struct MODEM_STATS *"); lib.horus_get_modem_extended_stats(h, st)
        r.append((out[0] != b'\0', snap(st, m), bool(lib.horus_crc_ok(h))))
    lib.horus_close(h)
    return r

def w_py(a, item):
    (mode, cli, m, rs, f1, sp), iq, mask, k, level, piece = item
    data = signal(mode, m, rs, f1, sp, iq, k, level)
    ref = readings(mode, rs, m, iq, sp if mask else -1, data)
    where = f"HorusLib {mode} {rs} baud{' IQ' if iq else ''}{' mask' if mask else ''}, start {37 * k}, noise {level}, pieces of {piece}"
    a.add("evaluations"); a.add("distinct_nontrivial"); a.add("library_readings", len(ref))
    kept, now = [], []
    def cb(f):
        kept.append(f); now.append(snap(f.extended_stats, m))
    h = DM.HorusLib(mode=DM.Mode[mode], rate=rs, stereo_iq=iq, tone_spacing=sp if mask else -1, callback=cb)
    last = None
    for p in range(0, len(data), piece):
        f = h.add_samples(data[p:p + piece])
        if f is not None: last = f
    want = [s for g, s, ok in ref if g]
    if len(want) < (1 if level else 3): a.bad("py:recording", f"{where}: library loop delivers {len(want)} packets"); return
    if now != want: a.bad("py:frame-stats", f"{where}: frames carry statistics {[x[:3] for x in now]}, the receiver had {[x[:3] for x in want]}")
    if [snap(f.extended_stats, m) for f in kept] != now: a.bad("py:frame-stats-change", f"{where}: statistics of earlier frames changed with later ones")
    if [f.snr for f in kept] != [x[0] for x in want] or [bool(f.sync) for f in kept] != [bool(x[4]) for x in want]: a.bad("py:frame-snr", f"{where}: frame SNR {[f.snr for f in kept]}, statistics {[x[0] for x in want]}")
    if last is None or snap(last.extended_stats, m) != ref[-1][1]: a.bad("py:last", f"{where}: last returned frame does not carry the last block's statistics")
    if snap(h.stats, m) != ref[-1][1]: a.bad("py:stats", f"{where}: stats property differs from the receiver's")
    h.close()
    if [snap(f.extended_stats, m) for f in kept] != now: a.bad("py:frame-stats-close", f"{where}: statistics of kept frames changed on close")
    if not level:
        for s in want:
            for i in range(m):
                if abs(s[len(FIELDS) + i] - f1 - i * sp) > .35 * rs: a.bad("py:tone", f"{where}: tone {i} reported at {s[len(FIELDS) + i]}"); return
    if k == 1: a.sample(where)

def w_cli(a, item):
    """command line statistics: every printed reading is one the library had, in order; tones are those sent"""
    (mode, cli, m, rs, f1, sp), iq, mask, k, level, opt = item
    data = signal(mode, m, rs, f1, sp, iq, k, level)
    ref = readings(mode, rs, m, iq, sp if mask else -1, data)
    d = tempfile.mkdtemp(prefix="c30-")
    try:
        open(d + "/in", "wb").write(data)
        argv = [EXE, "-m", cli, f"--rate={rs}", opt] + (["-q"] if iq else []) + ([f"--tonespacing={sp}"] if mask else []) + [d + "/in", "-"]
        p = subprocess.run(argv, capture_output=True, timeout=300)
    finally: sh(["rm", "-r", d])
    where = " ".join(argv[1:-2]); a.add("evaluations"); a.add("distinct_nontrivial")
    pos, n = 0, 0
    for l in p.stderr.decode("latin1").split("\n"):
        if "EbNodB" not in l: continue
        try: j = json.loads(l)
        except ValueError: a.bad("cli:json", f"{where}: {l[:100]}"); return
        n += 1
        f = [j.get(f"f{i + 1}_est") for i in range(m)]
        def same(s): return abs(s[0] - j["EbNodB"]) <= .0051 and j["ppm"] == int(s[1]) and all(x is not None and abs(x - y) <= .051 for x, y in zip(f, s[len(FIELDS):])) and len(j["eye_diagram"]) == s[5] and all(len(e) == s[6] for e in j["eye_diagram"]) and \
            all(abs(j["eye_diagram"][i][q] - v) < 1e-5 for (i, q), v in zip([(i, q) for i in range(s[5]) for q in range(0, s[6], 5)], s[len(FIELDS) + m:]))
        while pos < len(ref) and not same(ref[pos][1]): pos += 1
        if pos == len(ref): a.bad("cli:value", f"{where}: line {n} {l[:90]!r} is no reading of the receiver (in order)"); return
        pos += 1
    a.add("cli_lines", n)
    if not n: a.bad("cli:none", f"{where}: no statistics; exit {p.returncode}")

def w_pycli(a, item):
    """Python receiver program: one statistics line per read, each exactly the receiver's reading at that moment"""
    from checks.c28 import inproc
    (mode, cli, m, rs, f1, sp), iq, mask, k, level, g = item
    data = signal(mode, m, rs, f1, sp, iq, k, level)
    ref = readings(mode, rs, m, iq, sp if mask else -1, data)
    argv = ["-t", "-m", {"binary": "binary", "rtty": "RTTY7N2", "rtty8n2": "RTTY8N2"}[cli], f"--rate={rs}"] + (["-q"] if iq else []) + ([f"--tonespacing={sp}"] if mask else []) + (["-g"] if g else []) + ["-", "-"]
    rc, so, _, se = inproc(argv, data, [4096, 1000])
    where = "python " + " ".join(argv); a.add("evaluations"); a.add("distinct_nontrivial")
    ls = [l for l in (so if g else se).split("\n") if "EbNodB" in l]
    try: got = [json.loads(l) for l in ls]
    except ValueError: a.bad("pycli:json", f"{where}: {ls[:1]}"); return
    def flat(j): return (j["EbNodB"], j["ppm"]) + tuple(j.get(f"f{i + 1}_est") for i in range(m)) + tuple(e[q] for e in j["eye_diagram"] for q in range(0, len(e), 5))
    want = [(s[0], s[1]) + s[len(FIELDS):] for _, s, _ in ref]
    got = [flat(j) for j in got]; a.add("pycli_lines", len(got))
    if got[:len(want)] != want: a.bad("pycli:value", f"{where}: {len(got)} lines, {len(want)} blocks; first different at {next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), 'the end')}"); return
    if any(x != want[-1] for x in got[len(want):]): a.bad("pycli:tail", f"{where}: lines after the last block differ from it")

def run(chk):
    global X, EXE, DM, QUICK
    QUICK = chk.quick
    chk.cov["rule"] = "one case = one signal (or input block sequence) with every reading after every block judged; oracle = transmitted tones, noise level and clock offset, and agreement of all accessors"
    exe = cbuild("stats", ["stats.c"], hsrcs(), defs=SIG, ldflags=LD)
    jobs(chk, exe, ["tones", "noise", "clock", "any"])
    EXE = cbuild("horus_demod", [], ["src/horus_demod.c"] + hsrcs())
    import_repo(); quiet()
    import _horus_api_cffi as X_
    X = X_
    import horusdemodlib.demod as D
    DM = D
    it = [(c, iq, mk, k, lv, pc) for c in CONF for iq in (False, True) for mk in (False, True) for k in range(2 if QUICK else 6) for lv in ((0, 2) if c[3] == 1000 else (0,)) for pc in ((9600,) if QUICK else (9600, 1000, 100000)) if not (QUICK and c[3] == 100 and k)]
    pmap(chk, w_py, it)
    pmap(chk, w_cli, [(c, iq, mk, k, lv, o) for c in CONF for iq in (False, True) for mk in (False, True) for k in range(1 if QUICK else 4) for lv in ((0, 2) if c[3] == 1000 else (0,)) for o in (("-t", "--stats=50") if not (QUICK and c[3] == 100) else ("-t",))])
    pmap(chk, w_pycli, [(c, iq, mk, k, lv, g) for c in CONF for iq in (False, True) for mk in (False, True) for g in (0, 1) for k in range(1 if QUICK else 3) for lv in ((0, 2) if c[3] == 1000 else (0,)) if not (QUICK and c[3] == 100 and (iq or g))])

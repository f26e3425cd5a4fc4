"""C29: horus_gen_test_bits for every mode x frame count, fsk_mod for every bit string up to a length x settings grid, and the whole pipeline into horus_demod."""
import itertools, math, os, struct, subprocess, tempfile
from array import array
from vlib import *
from pymc import *
from pyref import ref_decode, coded_len
import uper, vlib
from checks.c16 import v3_srcs, V3
LEVEL = "exploration"
ASSUMPTIONS = ["Contents of the generated packets are checked where the generator documents them (mode, counter, identity, checksum); bytes behind a v3 message are padding.",
               "The pipeline is followed by one second of silence so that the receiver's buffer empties; the tool's tone spacing is at least the symbol rate.",
               "Samples are 16 bit: amplitude and phase are judged to rounding."]
QUICK = True; EXE = {}
SIZE = {0: 22, 1: 32, 2: 32, 3: 64, 4: 128}

def pipe(args, data=b"", timeout=120):
    r = subprocess.run(args, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return r.returncode, r.stdout, r.stderr

def expect(mode, i):
    """-> predicate-style list of (offset, bytes) the payload of frame i must contain"""
    if mode == 0: return [(1, struct.pack("<H", i & 65535))]
    if mode == 1:
        return [(0, struct.pack("<H", 256)), (2, struct.pack("<H", i & 65535)), (4, bytes([12, 34, 56]))]
    t = dict(payloadCallsign="4FSKTEST-V2", sequenceNumber=i & 65535, timeOfDaySeconds=3, latitude=23, longitude=34, altitudeMeters=56)
    if mode >= 3: t["extraSensors"] = [dict(name="meowmeow", values=("horusInt", [123]))] * 4
    if mode == 4: t["customData"] = b"WOOF" * 8
    return [(2, uper.encode(t))]

def packet_ok(mode, p, i):
    n = len(p)
    if mode < 2:
        if p[n - 2:] != fcrc(p[:n - 2]).to_bytes(2, "little"): return "checksum"
    elif p[:2] != fcrc(p[2:]).to_bytes(2, "little"): return "checksum"
    for o, b in expect(mode, i):
        if p[o:o + len(b)] != b: return f"content at {o}: {p[o:o + len(b)].hex()} instead of {b.hex()}"

def frames_of(out, mode):
    n = coded_len(SIZE[mode]) * 8
    return [bytes(int("".join(map(str, out[k + j:k + j + 8])), 2) for j in range(0, n, 8)) for k in range(0, len(out), n)]

def w_gen(a, item):
    mode, count = item
    a.add("evaluations")
    if count > 0: a.add("distinct_nontrivial")
    rc, out, err = pipe([EXE["gen"], str(mode), str(count)], timeout=300)
    where = f"horus_gen_test_bits {mode} {count}"
    if rc: a.bad("gen:exit", f"{where}: exit status {rc} {err[-200:]}"); return
    want = max(count, 0) * coded_len(SIZE[mode]) * 8
    if len(out) != want: a.bad("gen:length", f"{where}: {len(out)} bits, expected {want}"); return
    if out.translate(None, b"\0\1"): a.bad("gen:bits", f"{where}: output holds bytes other than 0 and 1"); return
    cs = set(range(count)) if count <= 300 else set(range(20)) | set(range(count - 20, count)) | {255, 256, 257, 32767, 32768}
    n = coded_len(SIZE[mode]) * 8
    seen = set()
    for i in range(count):
        f = out[i * n:(i + 1) * n]
        if i not in cs and f in seen: a.bad("gen:repeat", f"{where}: frame {i} repeats an earlier frame")
        if i < 65536: seen.add(f)
        if i not in cs: continue
        fr = frames_of(f, mode)[0]
        a.add("frames_decoded")
        p = ref_decode(fr, SIZE[mode])
        if p is None: a.bad("gen:frame", f"{where}: frame {i} is not a valid coded packet: {fr.hex()[:80]}"); return
        why = packet_ok(mode, p, i)
        if why: a.bad("gen:packet", f"{where}: frame {i}: {why}"); return
        try: decode(p)
        except Exception as e: a.bad("gen:decode", f"{where}: frame {i} {p.hex()} is refused by the decoder: {e}"); return
    a.sample(f"{where}: {count} frames of {n} bits")

def decode(p):
    import horusdemodlib.decoder as D
    D.decode_packet(p)

# ------------------------------------------------------------------ modulator tool
def judge_mod(a, cfg, bits, raw, tag):
    m, fs, rs, f1, sp = cfg
    bps = 1 if m == 2 else 2
    ts = fs // rs
    nsym = -(-len(bits) // bps)
    where = f"fsk_mod {m} {fs} {rs} {f1} {sp} <{len(bits)} bits {''.join(map(str, bits[:40]))}> {tag}"
    if len(raw) != nsym * ts * 2:
        a.bad("mod:count", f"{where}: {len(raw)} bytes, expected {nsym * ts * 2}"); return
    x = array("h"); x.frombytes(raw)
    A = 2000.0
    bb = list(bits) + [0] * (nsym * bps - len(bits))
    syms = bb if bps == 1 else [bb[i] * 2 + bb[i + 1] for i in range(0, len(bb), 2)]
    prev = None; num = den = 0.0
    for k, s in enumerate(syms):
        w = 2 * math.pi * (f1 + s * sp) / fs
        y = x[k * ts:(k + 1) * ts]
        cw, sw = math.cos(w), math.sin(w)
        if prev is not None:
            # the first sample of this symbol continues the phase reached, one sample on at the old or the new tone
            p0, w0 = prev
            ok = any(abs(A * math.cos(p0 + v) - y[0]) < 6 + 8 / abs(math.sin(w0)) for v in (w, w0))
            if not ok: a.bad("mod:phase", f"{where}: phase jumps at symbol {k}: sample {y[0]}, expected {A * math.cos(p0 + w):.0f}"); return
        for n in range(1, ts - 1):
            r = y[n + 1] + y[n - 1] - 2 * cw * y[n]
            e = y[n] * y[n] - y[n - 1] * y[n + 1] - A * A * sw * sw
            if abs(r) > 6: a.bad("mod:tone", f"{where}: symbol {k} ({s}) sample {n} is not at {f1 + s * sp} Hz (residue {r:.1f})"); return
            num += y[n] * y[n] - y[n - 1] * y[n + 1]; den += sw * sw
            if abs(e) > 8 * A + 20: a.bad("mod:amplitude", f"{where}: symbol {k} sample {n}: amplitude off ({e:.0f})"); return
        c = y[-1] / A; si = (y[-2] / A - c * cw) / sw
        prev = (math.atan2(si, c), w)
    if len(syms) >= 50 and abs(math.sqrt(max(num, 0) / den) - A) > 0.002 * A: a.bad("mod:level", f"{where}: amplitude over {len(syms)} symbols is {math.sqrt(max(num, 0) / den):.1f}, not {A:.0f}")

CFG = [(2, 8000, 100, 1200, 200), (2, 48000, 1000, 3000, 2000), (4, 8000, 400, 1000, 500), (4, 48000, 1000, 2000, 1500), (4, 48000, 100, 1000, 270), (4, 48000, 100, 1000, 425), (2, 9600, 300, 1100, 300), (4, 48000, 2000, 4000, 2500), (2, 44100, 100, 1500, 450)]
def w_mod(a, item):
    """every bit string of one length"""
    cfg, n, lo, hi = item
    d = tempfile.mkdtemp(prefix="c29-")
    try:
        for v in range(lo, hi):
            bits = [v >> i & 1 for i in range(n)]
            a.add("evaluations")
            if n: a.add("distinct_nontrivial")
            form = v % 3
            args = [EXE["mod"]] + [str(x) for x in cfg]
            if form == 0: rc, raw, err = pipe(args + ["-", "-"], bytes(bits))
            else:
                open(d + "/i", "wb").write(bytes(bits))
                if form == 1: rc, _, err = pipe(args + [d + "/i", d + "/o"])
                else: rc, _, err = pipe([args[0], "-p", str(cfg[1] // cfg[2])] + args[1:] + [d + "/i", d + "/o"])
                raw = open(d + "/o", "rb").read()
            if rc: a.bad("mod:exit", f"fsk_mod {cfg} exit {rc} {err[-200:]}"); continue
            judge_mod(a, cfg, bits, raw, ["pipe", "files", "-p"][form])
        if hi: a.sample(f"fsk_mod {cfg}: all {n}-bit strings {lo}..{hi - 1}")
    finally:
        sh(["rm", "-r", d])

def w_long(a, item):
    """streams around the tool's block size, fed through a pipe in odd pieces"""
    cfg, n, piece = item
    bits = [(i * i // 3 + i // 7 + n) & 1 for i in range(n)]
    a.add("evaluations"); a.add("distinct_nontrivial")
    p = subprocess.Popen([EXE["mod"]] + [str(x) for x in cfg] + ["-", "-"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    import threading
    o = []
    t = threading.Thread(target=lambda: o.append(p.stdout.read())); t.start()
    b = bytes(bits)
    for i in range(0, n, piece):
        os.write(p.stdin.fileno(), b[i:i + piece])
    p.stdin.close(); t.join(60); rc = p.wait(60); p.stderr.read()
    if rc: a.bad("mod:exit", f"fsk_mod {cfg} {n} bits exit {rc}"); return
    judge_mod(a, cfg, bits, o[0], f"pipe in pieces of {piece}")
    a.sample(f"fsk_mod {cfg}: {n} bits in pieces of {piece}")

def w_hours(a, item):
    """a transmission of many frames: the last symbols are as good as the first"""
    cfg, n = item
    m, fs, rs, f1, sp = cfg
    bps, ts = 1 if m == 2 else 2, fs // rs
    a.add("evaluations"); a.add("distinct_nontrivial")
    bits = bytes((i * i // 3 + i // 7 + i // 4099) & 1 for i in range(n))
    rc, raw, err = pipe([EXE["mod"]] + [str(x) for x in cfg] + ["-", "-"], bits, 600)
    where = f"fsk_mod {cfg} <{n} bits>"
    if rc: a.bad("mod:exit", f"{where} exit {rc}"); return
    nsym = -(-n // bps)
    if len(raw) != nsym * ts * 2: a.bad("mod:count", f"{where}: {len(raw)} bytes, expected {nsym * ts * 2}"); return
    win = sorted({0, nsym - 60} | {k * nsym // 40 // 50 * 50 - 3 for k in range(1, 40)})
    for k in win:
        judge_mod(a, cfg, list(bits[k * bps:(k + 60) * bps]), raw[k * ts * 2:(k + 60) * ts * 2], f"from symbol {k} of {n} bits")
    a.sample(f"fsk_mod {cfg}: {len(win)} windows of {n} bits")

# ------------------------------------------------------------------ pipeline
def w_pipe(a, item):
    mode, count, cfg, extra = item
    m, fs, rs, f1, sp = cfg
    a.add("evaluations"); a.add("distinct_nontrivial"); a.add("pipelines")
    where = f"horus_gen_test_bits {mode} {count} | fsk_mod 4 {fs} {rs} {f1} {sp} | horus_demod {' '.join(extra)}"
    _, bits, _ = pipe([EXE["gen"], str(mode), str(count)])
    rc, raw, _ = pipe([EXE["mod"], "4", str(fs), str(rs), str(f1), str(sp), "-", "-"], bits)
    rc2, out, err = pipe([EXE["demod"], "-m", "binary", f"--rate={rs}"] + extra + ["-", "-"], raw + bytes(2 * (fs + 300 * fs // rs)))
    if rc or rc2: a.bad("pipeline:exit", f"{where}: exit {rc}, {rc2}"); return
    lines = out.decode(errors="replace").split("\n")
    if lines[-1:] != [""]: a.bad("pipeline:lines", f"{where}: last line unfinished"); return
    lines = lines[:-1]
    if "-c" in extra:
        if any(not l.endswith("  CRC OK") for l in lines): a.bad("pipeline:crc", f"{where}: {lines}"); return
        lines = [l[:-8] for l in lines]
    if len(lines) != count: a.bad("pipeline:count", f"{where}: {len(lines)} packets received"); return
    for i, l in enumerate(lines):
        try: p = bytes.fromhex(l)
        except ValueError: a.bad("pipeline:hex", f"{where}: line {l!r}"); return
        if len(p) != SIZE[mode]: a.bad("pipeline:size", f"{where}: packet {i} has {len(p)} bytes"); return
        why = packet_ok(mode, p, i)
        if why: a.bad("pipeline:packet", f"{where}: packet {i}: {why}"); return
    a.sample(f"{where}: {count} packets")

def tools():
    EXE["gen"] = cbuild("gen_bits", [], ["src/horus_gen_test_bits.c"] + [s for s in hsrcs()] + v3_srcs(), defs=DEFS + ["-DASN_DISABLE_OER_SUPPORT=1"], incs=("src", V3))
    EXE["mod"] = cbuild("fsk_mod", [], ["src/fsk_mod.c"] + hsrcs())
    EXE["demod"] = cbuild("horus_demod", [], ["src/horus_demod.c"] + hsrcs())

def run(chk):
    global QUICK
    QUICK = chk.quick
    tools(); import_repo(); quiet()
    chk.cov["rule"] = "one case = one tool run or pipeline; oracle = independent frame decoder and packet encoder, exact sample counts, tone/phase/amplitude recurrences, and one received packet per generated frame in order"
    counts = list(range(-1, 14)) + [255, 256, 257] if chk.quick else list(range(-1, 80)) + [255, 256, 257, 300, 1000, 65535, 65536, 65537]
    pmap(chk, w_gen, sorted([(m, c) for m in range(5) for c in counts], key=lambda i: -i[1] * SIZE[i[0]]))
    top = 8 if chk.quick else 12
    md = []
    for cfg in CFG:
        for n in range(top + 1):
            for lo in range(0, 1 << n, 64): md.append((cfg, n, lo, min(lo + 64, 1 << n)))
    pmap(chk, w_mod, md)
    ns = [49, 50, 51, 98, 99, 100, 101, 102, 149, 150, 151, 199, 200, 201, 233] if chk.quick else list(range(13, 420))
    pmap(chk, w_long, [(cfg, n, p) for cfg in CFG for n in ns for p in ((1, 33, 100000) if not chk.quick else (33,))])
    pmap(chk, w_hours, [(cfg, n) for cfg in CFG for n in ((40000, 400000) if chk.quick else (40000, 400000, 3000000)) if n * (cfg[1] // cfg[2]) // (2 if cfg[0] == 4 else 1) <= (1e8 if chk.quick else 3e8)])
    pp = []
    cfgs = [(4, 48000, 100, 1000, 270), (4, 48000, 300, 1000, 600), (4, 48000, 1000, 3000, 1500), (4, 48000, 600, 1500, 900)]
    for mode in range(5):
        for c in ((1, 2, 3, 5) if chk.quick else range(1, 16)):
            for cfg in cfgs:
                for ex in ([], ["-c"], [f"--tonespacing={cfg[4]}"]) if not chk.quick or c == 2 else ([],): pp.append((mode, c, cfg, ex))
    pmap(chk, w_pipe, pp)

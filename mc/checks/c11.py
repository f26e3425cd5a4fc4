"""C11: demodulate() and add_samples() at every input rate x request size x block length around the request x channels, over a stand-in modem that
checks each buffer it is given; continuity of the rate conversion against ramp and tone oracles; then packets at every rate on the real modem."""
import itertools, math, struct
from array import array
from vlib import *
from pymc import *
from pyref import ref_encode
import fakeapi, modulate
from fakeapi import S
LEVEL = "exploration"
ASSUMPTIONS = ["Supported input rates are taken as 8000..192000 Hz (the usual sound card and SDR rates plus odd ones); below 8 kHz the default tone plan does not fit.",
               "A block whose byte count is not a whole number of frames may be refused with an exception.",
               "demodulate() may ignore resampled frames beyond the requested number (its documentation asks for nin frames); add_samples() may not."]
DM = None; RM = None; QUICK = True
RATES = [8000, 11025, 12000, 16000, 22050, 24000, 32000, 37500, 44100, 47999, 48000, 48001, 64000, 88200, 96000, 192000]
def frames(n, ch, k0=0):
    """distinct non-zero samples"""
    return b"".join(struct.pack("<h", ((k0 + i) * 2 + c) * 31 % 29989 + 500) for i in range(n) for c in range(ch))

def dirty(ffi):
    """litter the heap so that unowned bytes behind a short buffer differ between runs"""
    return [ffi.new("char[]", bytes([x & 255 or 1]) * n) for x, n in ((0xAA, 64), (0x55, 256), (0xC3, 1024), (0x3C, 4096))]

def demod_calls(h, blocks):
    """-> bytes the modem was handed per call, or the exception's name"""
    r = []
    for b in blocks:
        n0 = len(S.fed)
        try: h.demodulate(b)
        except MemoryError: raise
        except Exception as e:
            r.append(type(e).__name__); continue
        r.append(bytes(S.fed[n0:]))
    return r

def w_len(a, item):
    """every block length around the request, alone and between full blocks; all rates; both channel counts"""
    ch, rate, nin, mode = item
    need = nin * 48000 // rate if False else nin
    full = max(1, round(nin * rate / 48000))
    lens = sorted(set(list(range(0, 9)) + list(range(max(0, full - 8), full + 9)) + [full // 2, 2 * full, 3 * full + 1]))
    if not QUICK: lens = sorted(set(lens) | set(range(0, 2 * full + 4, 1 if full < 400 else 13)))
    fs = 2 * ch
    for n in lens:
        for extra in range(fs):
            if extra and n not in lens[:4] + [full, full - 1]: continue
            for seq in ("one", "mid", "twice"):
                blk = frames(n, ch) + b"\x11" * extra
                ok = frames(full, ch, 7000)
                blocks = {"one": [blk], "mid": [ok, blk, ok], "twice": [blk, blk]}[seq]
                a.add("evaluations")
                if n != full: a.add("distinct_nontrivial")
                where = f"{mode} {rate} Hz {ch} ch request {nin}: demodulate({seq}) with {n} frames + {extra} bytes"
                res = []
                for rep in range(2):
                    fakeapi.reset([nin], ch)
                    h = DM.HorusLib(mode=DM.Mode[mode], stereo_iq=ch == 2, sample_rate=rate)
                    keep = dirty(DM._horus_api_cffi.ffi) if rep else None
                    del keep
                    res.append((demod_calls(h, blocks), list(S.bad)))
                    h.close()
                if a.stat["evaluations"] % 997 == 1: a.sample(where)
                for k, w in res[0][1] + res[1][1]: a.bad(f"length:{k}", f"{where}: {w}"); return
                if res[0][0] != res[1][0]: a.bad("length:nondeterministic", f"{where}: two runs gave the modem different samples")
                for i, r in enumerate(res[0][0]):
                    if isinstance(r, str):
                        if len(blocks[i]) % fs == 0: a.bad("length:refused", f"{where}: call {i} raised {r}")
                        continue
                    if len(r) != nin * fs: a.bad("length:short", f"{where}: call {i} handed over {len(r)} bytes")
                if rate == 48000 and extra == 0:
                    for i, r in enumerate(res[0][0]):
                        w = blocks[i][:nin * fs]
                        if not isinstance(r, str) and r[:len(w)] != w: a.bad("length:samples", f"{where}: call {i}: the given samples are not what the modem saw")
                        elif not isinstance(r, str) and any(r[len(w):]): a.bad("length:padding", f"{where}: call {i}: missing samples are not silence")

def ramp(n, ch, slope):
    return b"".join(struct.pack("<h", -30000 + int(slope * i) if c == 0 else 30000 - int(slope * i)) for i in range(n) for c in range(ch))

def w_ramp(a, item):
    """a ramp through the converter in blocks of every size: the output must be one ramp with the right slope (no jump, repeat or loss at block edges)"""
    ch, rate, size, path = item
    total = 600 if rate <= 48000 else 1500
    slope = 60000 / total * .98
    data = ramp(total, ch, slope); fs = 2 * ch
    a.add("evaluations"); a.add("distinct_nontrivial")
    fakeapi.reset([1] if path == "add" else [100000], ch)
    h = DM.HorusLib(stereo_iq=ch == 2, sample_rate=rate)
    out = bytearray()
    for i in range(0, len(data), size * fs):
        b = data[i:i + size * fs]
        if path == "add": h.add_samples(b)
        else:
            n0 = len(S.fed); h.demodulate(b); out += bytes(S.fed[n0:]).rstrip(b"\0")
            if len(out) % fs: out += b"\0" * (fs - len(out) % fs)
    if path == "add": out = bytes(S.fed)
    h.close()
    where = f"{rate} Hz {ch} ch, blocks of {size} frames via {path}"
    for k, w in S.bad: a.bad(f"ramp:{k}", f"{where}: {w}"); return
    v = array("h"); v.frombytes(bytes(out))
    n = len(v) // ch
    if abs(n - total * 48000 / rate) > 48000 / rate + 2: a.bad("ramp:count", f"{where}: {total} frames in, {n} out")
    for c in range(ch):
        s = list(v[c::ch]); sg = -1 if c else 1
        lead = math.ceil(48000 / rate) + 1
        st = slope * rate / 48000
        body = s[lead:]
        for i, (x, y) in enumerate(zip(body, body[1:])):
            if abs((y - x) * sg - st) > 2.5:
                a.bad("ramp:jump", f"{where}: channel {c}, output {i + lead}: step {y - x}, expected about {sg * st:.2f}"); break
        if body and abs(body[-1] * sg - (-30000 + slope * total)) > 3 * slope + 4 * st + 4: a.bad("ramp:end", f"{where}: channel {c} ends at {body[-1]}")

def w_cont(a, item):
    """any blocking of the same stream through demodulate gives the same converted stream (request larger than any block)"""
    ch, rate, sizes = item
    fs = 2 * ch
    n = 60
    data = frames(n, ch)
    ref = None
    for s in [(n,)] + sizes:
        a.add("evaluations"); a.add("distinct_nontrivial")
        fakeapi.reset([4000], ch)
        h = DM.HorusLib(stereo_iq=ch == 2, sample_rate=rate)
        out = bytearray(); pos = 0
        for k in itertools.chain(s, itertools.repeat(s[-1])):
            if pos >= n: break
            n0 = len(S.fed); h.demodulate(data[pos * fs:(pos + k) * fs]); pos += k
            o = bytes(S.fed[n0:]).rstrip(b"\0"); out += o + b"\0" * (-len(o) % fs)
        h.close()
        for k, w in S.bad: a.bad(f"continuity:{k}", f"{rate} Hz {ch} ch blocks {s}: {w}"); return
        if ref is None: ref = bytes(out)
        elif bytes(out) != ref: a.bad("continuity", f"{rate} Hz {ch} ch blocks {s}: converted stream differs from one call")

# ---------------------------------------------------------------- real modem
def bits_for(kind):
    if kind == "rtty":
        t = "".join(sentence(f"CALL,{i},12:00:0{i},-34.1,138.2") + "\n" for i in range(2))
        return modulate.rtty_bits("U" * 40 + t + "U" * 130), [sentence(f"CALL,{i},12:00:0{i},-34.1,138.2") for i in range(2)]
    n = {"v1": 22, "v2": 32, "v3": 64}[kind]
    pk = [tcrc(bytes((i * 7 + j) & 255 for j in range(n - 2))) if kind != "v3" else hcrc(bytes((i * 7 + j) & 255 for j in range(n - 2))) for i in range(2)]
    b = modulate.bits_of(b"\x1b" * 40)
    for p in pk: b += modulate.bits_of(b"\x1b" * 8 + ref_encode(p))
    return b + modulate.bits_of(b"\x1b" * 75), pk

def w_real(a, item):
    kind, rate, iq, baud, f1, sp, amp, how = item
    bits, want = bits_for(kind)
    data = modulate.fsk(bits, 2 if kind == "rtty" else 4, rate, baud, f1, sp, amp=amp, iq=iq)
    fs = 4 if iq else 2
    a.add("evaluations"); a.add("distinct_nontrivial"); a.add("real_modem_runs")
    got = []
    with RM.HorusLib(mode=RM.Mode.RTTY_7N2 if kind == "rtty" else RM.Mode.BINARY, rate=baud, stereo_iq=iq, sample_rate=rate, callback=lambda f: got.append(f) if f.crc_pass else None) as h:
        if how == "add":
            for i in range(0, len(data), 8192): h.add_samples(data[i:i + 8192])
        else:
            pos = 0; due = 0.0
            while pos < len(data):
                due += h.nin * rate / 48000
                k = round(due) - pos // fs
                f = h.demodulate(data[pos:pos + k * fs]); pos += k * fs
                if len(f.data) and f.crc_pass: got.append(f)
    g = [f.data for f in got]
    if g != want: a.bad("real", f"{kind} at {rate} Hz {'IQ' if iq else 'mono'} {baud} Bd tone {f1} via {how}: {len(want)} packets sent, got {[x if isinstance(x, str) else x.hex()[:40] for x in g]}")

def run(chk):
    global DM, RM, QUICK
    QUICK = chk.quick
    import_repo(); quiet()
    DM = fakeapi.install(); RM = fakeapi.fresh()
    chk.cov["rule"] = "one case = one call sequence or transmission at one input rate; oracle = buffers handed over hold the whole request, same samples (48 kHz) or a gap-free conversion (ramp slope, block-size independence), silence for missing samples, every packet sent comes out"
    nins = [2400, 2640, 2160, 240] if chk.quick else [2400, 2640, 2160, 240, 264, 216, 1]
    pmap(chk, w_len, [(ch, r, n, m) for ch in (1, 2) for r in RATES for n in nins for m in (("BINARY", "RTTY_7N2") if r in (8000, 48000) else ("BINARY",))])
    pmap(chk, w_ramp, [(ch, r, s, p) for ch in (1, 2) for r in RATES for p in ("add", "demodulate") for s in (list(range(1, 13)) + [59, 64, 100, 333, 600, 1500] if chk.quick else range(1, 200))])
    pmap(chk, w_cont, [(ch, r, [t for t in itertools.product((1, 2, 3, 5, 8, 13), repeat=2 if chk.quick else 3)]) for ch in (1, 2) for r in RATES])
    real = []
    for r in RATES:
        for iq in (False, True):
            for how in ("add", "call"):
                for kind in (("v1", "v2", "rtty") if chk.quick else ("v1", "v2", "v3", "rtty")):
                    if chk.quick and how == "call" and kind != "v2": continue
                    if kind == "rtty": real.append((kind, r, iq, 300, 1000.0, 500, 12000.0, how))
                    else:
                        real.append((kind, r, iq, 300, 800.0, 350 if r < 11000 else 450, 8000.0, how))
                        if not chk.quick: real.append((kind, r, iq, 100, 1000.0, 270, 8000.0, how))
    pmap(chk, w_real, real)

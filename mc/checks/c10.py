"""C10: the real streaming wrapper (add_samples) under every composition of short streams into chunks x every request-size sequence, and every
split point of longer streams, over a stand-in modem that records each sample; then real packet streams on the real modem under all splits."""
import itertools, struct
from vlib import *
from pymc import *
from pyref import ref_encode
import fakeapi, modulate
from fakeapi import S
LEVEL = "exploration"
ASSUMPTIONS = ["The stand-in modem's request sizes are scripted (1-6 frames) so that complete sets of chunkings are enumerable; the wrapper does not know the difference.",
               "Resampled input is compared with the same stream handed over whole; fidelity of the conversion itself is C11."]
DM = None; RM = None; QUICK = True

def stream(n, ch):
    return b"".join(struct.pack("<h", (i * 2 + c * 1) * 97 % 30011 + 1) for i in range(n) for c in range(ch))

MODES = ["BINARY", "RTTY_7N1", "RTTY_7N2", "RTTY_8N2"]
def packets(mode, text):
    """which block delivers what: two equal packets in a row, a CRC-failing one, nothing in between"""
    if text: return {0: ("$$A,1*0000", 0, 1.5), 2: ("$$B,2*1111", 1, 2.5), 3: ("$$B,2*1111", 1, 3.5), 5: ("x", 1, 4.5)}
    return {0: (b"\x01\x02", 0, 1.5), 2: (b"\x03\x04\x05", 1, 2.5), 3: (b"\x03\x04\x05", 1, 3.5), 5: (b"\x06", 1, 4.5)}

def play(chunks, ch, nins, rate, mode):
    """-> (samples the modem saw, block sizes, callbacks, complaints)"""
    fakeapi.reset(nins, ch, packets(mode, mode.startswith("RTTY")))
    got = []
    h = DM.HorusLib(mode=DM.Mode[mode], stereo_iq=ch == 2, sample_rate=rate, callback=lambda f: got.append((f.data, bool(f.crc_pass), f.snr, S.k)))
    for c in chunks: h.add_samples(c)
    r = bytes(S.fed), list(S.blocks), got, list(S.bad)
    h.close()
    return r

def expect_direct(data, ch, nins, mode):
    pos, k, blocks = 0, 0, []
    while True:
        n = (nins[k] if k < len(nins) else nins[-1]) * 2 * ch
        if pos + n > len(data): break
        blocks.append(n); pos += n; k += 1
    p = packets(mode, mode.startswith("RTTY"))
    return data[:pos], blocks, [(p[i][0], bool(p[i][1]), p[i][2], i + 1) for i in sorted(p) if i < k]

def judge(a, chunks, ch, nins, rate, mode, want, tag):
    a.add("evaluations")
    if len(chunks) > 1: a.add("distinct_nontrivial")
    fed, blocks, got, bad = play(chunks, ch, nins, rate, mode)
    a.add("blocks_fed", len(blocks)); a.add("packets_delivered", len(got))
    where = f"{mode} {ch} ch {rate} Hz, chunk sizes {[len(c) for c in chunks][:40]}, requests {nins}"
    if a.stat["evaluations"] % 997 == 1: a.sample(f"{tag}: {where}: {len(blocks)} blocks, {len(got)} packets")
    for k, w in bad: a.bad(f"{tag}:{k}", f"{where}: {w}")
    if fed != want[0] or blocks != want[1]:
        i = next((i for i, (x, y) in enumerate(zip(fed, want[0])) if x != y), min(len(fed), len(want[0])))
        a.bad(f"{tag}:samples", f"{where}: modem saw {len(fed)} bytes in blocks {blocks[:20]}, expected {len(want[0])} in {want[1][:20]}, first difference at byte {i}")
    if got != want[2]:
        a.bad(f"{tag}:callback", f"{where}: callbacks {got}, expected {want[2]}")

def compositions(data, cuts):
    """all ways to cut data at subsets of the positions in cuts"""
    for m in range(1 << len(cuts)):
        p = [0] + [c for i, c in enumerate(cuts) if m >> i & 1] + [len(data)]
        yield [data[x:y] for x, y in zip(p, p[1:])]

def w_comp(a, item):
    """all compositions into chunks of every byte length"""
    ch, rate, mode, nins, n = item
    data = stream(n, ch)
    want = expect_direct(data, ch, nins, mode) if rate == 48000 else play([data], ch, nins, rate, mode)[:3]
    gran = ch                                     # cut positions: every byte for mono, every 2 bytes for stereo (frames stay misaligned)
    cuts = list(range(gran, len(data), gran))
    for c in compositions(data, cuts): judge(a, c, ch, nins, rate, mode, want, "composition")

def w_empty(a, item):
    """empty chunks in every place"""
    ch, rate, nins = item
    data = stream(7, ch)
    want = expect_direct(data, ch, nins, "BINARY") if rate == 48000 else play([data], ch, nins, rate, "BINARY")[:3]
    for cut in range(len(data) + 1):
        for k in range(1, 8):
            c = [data[:cut], data[cut:]]
            c = ([b""] if k & 1 else []) + c[:1] + ([b""] * 2 if k & 2 else []) + c[1:] + ([b""] if k & 4 else [])
            judge(a, c, ch, nins, rate, "BINARY", want, "empty-chunks")

def w_types(a, item):
    """bytearray and memoryview chunks, and a caller who reuses its buffer"""
    ch, rate, nins = item
    data = stream(9, ch)
    want = expect_direct(data, ch, nins, "BINARY") if rate == 48000 else play([data], ch, nins, rate, "BINARY")[:3]
    for cut in range(1, len(data)):
        judge(a, [bytearray(data[:cut]), memoryview(data)[cut:]], ch, nins, rate, "BINARY", want, "chunk-types")
        a.add("evaluations"); a.add("distinct_nontrivial")
        fakeapi.reset(nins, ch, packets("BINARY", False))
        h = DM.HorusLib(stereo_iq=ch == 2, sample_rate=rate)
        b = bytearray(data[:cut]); h.add_samples(b); b[:] = bytes([0x55]) * len(b)
        b = bytearray(data[cut:]); h.add_samples(b); b[:] = bytes([0x55]) * len(b)
        if bytes(S.fed) != want[0]: a.bad("buffer-reuse", f"{ch} ch {rate} Hz cut {cut}: samples changed after the caller reused its buffer")
        h.close()

def w_split(a, item):
    """realistic request sizes: every split point, and every constant chunk size, of a stream of several blocks"""
    ch, rate, nins, frames, pts, kind = item
    data = stream(frames, ch)
    want = expect_direct(data, ch, nins, "BINARY") if rate == 48000 else play([data], ch, nins, rate, "BINARY")[:3]
    for p in pts:
        c = [data[:p], data[p:]] if kind == "one" else [data[i:i + p] for i in range(0, len(data), p)] if kind == "size" else [data[:p], data[p:p + 1], data[p + 1:]]
        judge(a, c, ch, nins, rate, "BINARY", want, "split")

def w_pair(a, item):
    ch, rate, nins, frames, p, qs = item
    data = stream(frames, ch)
    want = expect_direct(data, ch, nins, "BINARY") if rate == 48000 else play([data], ch, nins, rate, "BINARY")[:3]
    for q in qs: judge(a, [data[:p], data[p:q], data[q:]], ch, nins, rate, "BINARY", want, "two-splits")

def w_two(a, item):
    """two wrappers fed alternately: neither sees the other's samples"""
    ch, rate, nins = item
    d1 = stream(8, ch); d2 = bytes(255 - x for x in d1)
    w1 = play([d1], ch, nins, rate, "BINARY")[0]; w2 = play([d2], ch, nins, rate, "BINARY")[0]
    n = len(d1)
    for c1 in range(n + 1):
        for c2 in range(n + 1):
            a.add("evaluations"); a.add("distinct_nontrivial")
            fed = [bytearray(), bytearray()]; ks = [0, 0]; hs = []
            fakeapi.reset(nins, ch)
            hs = [DM.HorusLib(stereo_iq=ch == 2, sample_rate=rate) for _ in range(2)]
            for who, part in ((0, d1[:c1]), (1, d2[:c2]), (0, d1[c1:]), (1, d2[c2:])):
                S.k, S.fed = ks[who], fed[who]
                hs[who].add_samples(part)
                ks[who], fed[who] = S.k, S.fed
            if bytes(fed[0]) != w1 or bytes(fed[1]) != w2: a.bad("instances", f"{ch} ch {rate} Hz cuts {c1},{c2}: samples of one receiver reached the other")
            for h in hs: h.close()

# ------------------------------------------------------------------ real modem
def real_stream(kind, iq):
    if kind == "rtty":
        txt = "".join(sentence(f"CALL,{i},12:00:0{i},1.0,2.0") + "\n" for i in range(3))
        bits = modulate.rtty_bits("U" * 40) + modulate.rtty_bits(txt) + modulate.rtty_bits("U" * 130)
        m, rs, sp = 2, 1000, 1500
    else:
        bits = []
        for i in range(3):
            pay = bytes((i * 7 + j) & 255 for j in range(30)); pay = tcrc(pay)
            bits += modulate.bits_of(b"\x1b" * 8 + ref_encode(pay))
        bits = modulate.bits_of(b"\x1b" * 50) + bits + modulate.bits_of(b"\x1b" * 75)
        m, rs, sp = 4, 1000, 1500
    return modulate.fsk(bits, m, 48000, rs, 3000, sp, iq=iq)

def real_play(kind, iq, chunks):
    got = []
    with RM.HorusLib(mode=RM.Mode.RTTY_7N2 if kind == "rtty" else RM.Mode.BINARY, rate=1000, stereo_iq=iq, callback=lambda f: got.append((f.data, bool(f.crc_pass), round(f.snr, 3)))) as h:
        for c in chunks: h.add_samples(c)
    return got

def w_real(a, item):
    kind, iq, pts, how = item
    data = DATA[kind, iq]
    want = WANT[kind, iq]
    for p in pts:
        a.add("evaluations"); a.add("distinct_nontrivial"); a.add("real_modem_runs")
        c = [data[:p], data[p:]] if how == "one" else [data[i:i + p] for i in range(0, len(data), p)]
        got = real_play(kind, iq, c)
        if got != want: a.bad("real", f"{kind} {'IQ' if iq else 'mono'} {how} {p}: {got}, whole stream gave {want}")
DATA = {}; WANT = {}

def run(chk):
    global DM, RM, QUICK
    QUICK = chk.quick
    import_repo(); quiet()
    DM = fakeapi.install(); RM = fakeapi.fresh()
    chk.cov["rule"] = "one case = one stream handed over in one chunking; oracle = byte-exact samples and block sizes computed from the stream (48 kHz) or the same stream whole (resampled), and the scripted packets once each in order; real modem: same packets as whole"
    comp = []
    scripts = [list(s) for k in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=k)]
    for s in scripts:
        comp.append((1, 48000, MODES[len(comp) % 4], s, 6 if chk.quick else 8))
        comp.append((2, 48000, MODES[len(comp) % 4], s, 6 if chk.quick else 7))
    for rate in (8000, 16000, 24000, 44100, 96000):
        n = {8000: 5, 16000: 6, 24000: 6}.get(rate, 6) + (0 if chk.quick else 1)
        for s in ([3], [2, 5, 4], [6, 4, 5]):
            comp.append((1, rate, "BINARY", s, n)); comp.append((2, rate, "RTTY_7N2", s, n))
    if not chk.quick:
        for s in itertools.product((4, 5, 6), repeat=4): comp.append((1, 48000, "BINARY", list(s), 7)); comp.append((2, 48000, "BINARY", list(s), 6))
    pmap(chk, w_comp, sorted(comp, key=lambda i: -i[4]))
    small = [(ch, rate, s) for ch in (1, 2) for rate in (48000, 8000, 44100, 96000) for s in ([1], [2, 1, 3], [4, 6, 5])]
    pmap(chk, w_empty, small); pmap(chk, w_types, small); pmap(chk, w_two, small)
    sp = []
    for ch in (1, 2):
        for rate, div in ((48000, 1), (8000, 6), (44100, 1), (96000, .5)):
            for nins in ([24, 27, 24, 21, 24], [240, 264, 216, 240]):
                fr = int(sum(nins) * 1.6 / div)
                nb = fr * 2 * ch
                step = 1 if nb < 1500 or not chk.quick else 7
                for c in chunks(range(1, nb, step), 100): sp.append((ch, rate, nins, fr, c, "one")); sp.append((ch, rate, nins, fr, c, "byte"))
                for c in chunks(range(1, min(nb, 700), 1 if not chk.quick else 3), 40): sp.append((ch, rate, nins, fr, c, "size"))
    pmap(chk, w_split, sp)
    pr = []
    for ch in (1, 2):
        for rate in (48000, 8000):
            nins = [9, 10, 8]; fr = 50 if rate == 48000 else 12
            nb = fr * 2 * ch
            for p in range(1, nb): pr.append((ch, rate, nins, fr, p, range(p + 1, nb, 1 if not chk.quick or rate == 8000 else 3)))
    pmap(chk, w_pair, pr)
    re_ = []
    for kind in ("bin", "rtty"):
        for iq in (False, True):
            d = DATA[kind, iq] = real_stream(kind, iq)
            WANT[kind, iq] = real_play(kind, iq, [d])
            if sum(c for _, c, _ in WANT[kind, iq]) != 3: chk.violation(f"real-whole:{kind}", f"3 packets sent, whole stream delivered {WANT[kind, iq]}")
            blk = 2400 * (2 if iq else 1) * 2
            if chk.quick: pts = sorted(set(range(1, 60)) | {k * blk // 2 + o for k in range(1, 4) for o in range(-6, 7)} | set(range(blk - 1, len(d), max(1, len(d) // 97))))
            else: pts = list(range(1, 3 * blk)) + list(range(3 * blk, len(d), 11))
            for c in chunks([p for p in pts if 0 < p < len(d)], 20): re_.append((kind, iq, c, "one"))
            sizes = [2, 3, 7, 64, 333, 1024, 4095, 4096, 4097, 4799, 4800, 4801, blk, blk * 3 + 1] if chk.quick else sorted(set(list(range(20, 5200, 23)) + [blk - 1, blk, blk + 1, 3 * blk + 1, 1, 2, 3]))
            for c in chunks(sizes, 4): re_.append((kind, iq, c, "size"))
    pmap(chk, w_real, re_)

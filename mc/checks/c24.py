"""C24: symbol and bit expansion for every byte, byte pair, preamble length and packet size, against an arithmetic oracle, and back through the real modulator and receiver."""
import itertools, os, subprocess, tempfile
from vlib import *
from pymc import *
from pyref import ref_encode
LEVEL = "exploration"
ASSUMPTIONS = ["The preamble is the byte 0x1B (tones 0,1,2,3) repeated, as the project's modulators use."]
ENC = [None]
def judge(a, pkt, pre, tag, default=False):
    a.add("evaluations")
    if len(pkt): a.add("distinct_nontrivial")
    full = b"\x1b" * pre + pkt
    es = [b >> s & 3 for b in full for s in (6, 4, 2, 0)]
    eb = bytes(b >> s & 1 for b in full for s in range(7, -1, -1))
    kw = {} if default else {"preamble": pre}
    s = ENC[0].bytes_to_4fsk_symbols(pkt, **kw)
    b = ENC[0].bytes_to_onebitperbyte(pkt, **kw)
    if list(s) != es:
        i = next((i for i, (x, y) in enumerate(zip(s, es)) if x != y), min(len(s), len(es)))
        a.bad(f"symbols:{tag}", f"packet {pkt.hex()[:200]} preamble {pre}: {len(s)} symbols (expected {len(es)}), first difference at {i}: {list(s)[i:i+4]} instead of {es[i:i+4]}")
    if bytes(b) != eb:
        i = next((i for i, (x, y) in enumerate(zip(b, eb)) if x != y), min(len(b), len(eb)))
        a.bad(f"bits:{tag}", f"packet {pkt.hex()[:200]} preamble {pre}: {len(b)} bits (expected {len(eb)}), first difference at {i}")

def w_bytes(a, rng):
    for x in rng:
        for pre in range(17): judge(a, bytes([x]), pre, "byte")
        for y in range(256):
            judge(a, bytes([x, y]), 0, "pair"); judge(a, bytes([x, y]), (x + y) % 5, "pair")
        if not QUICK:
            for y in range(256):
                for z in range(0, 256, 5): judge(a, bytes([x, y, z]), 0, "triple")

SIZES = [0, 1, 2, 16, 22, 32, 45, 48, 63, 64, 65, 96, 128, 129, 192, 249]
def w_sizes(a, n):
    for bg in (0, 255, 0x1b, 0xa5):
        base = bytes([bg]) * n
        for pre in (0, 1, 7, 8, 9, 16, 40): judge(a, base, pre, "size")
        judge(a, base, 8, "default-preamble", default=True)
        for i in range(n):
            for bit in range(8):
                p = bytearray(base); p[i] ^= 1 << bit
                judge(a, bytes(p), (i + bit) % 3, "bitwalk")
            judge(a, base[:i] + b"\x1b" + base[i + 1:], 2, "preamble-like")

def tools():
    """fsk_mod built from /repo"""
    return cbuild("fsk_mod", [], ["src/fsk_mod.c"] + hsrcs())

def w_air(a, item):
    """packet -> bits -> fsk_mod -> HorusLib -> the same packet"""
    n, bg, exe = item
    import horusdemodlib.demod as DM
    body = bytes((bg + 31 * i) & 255 for i in range(n - 2)) if bg >= 0 else bytes(n - 2)
    if n == 128 or n not in (22, 32): pay = fcrc(body).to_bytes(2, "little") + body
    else: pay = tcrc(body)
    coded, _ = ENC[0].horus_l2_encode_packet(pay)
    for pre in (8, 16):
        a.add("evaluations"); a.add("on_air")
        bits = ENC[0].bytes_to_onebitperbyte(coded, pre)
        sy = ENC[0].bytes_to_4fsk_symbols(coded, pre)
        if bytes(x >> k & 1 for x in sy for k in (1, 0)) != bytes(bits): a.bad("forms-differ", f"{coded.hex()}")
        tail = bytes([0, 1, 1, 0] * 400)
        with tempfile.TemporaryDirectory() as d:
            open(d + "/b", "wb").write(bytes([0, 0, 0, 1, 1, 0, 1, 1] * 60) + bytes(bits) + tail)
            r = sh([exe, "4", "48000", "100", "1000", "270", d + "/b", d + "/o"], timeout=100)
            raw = open(d + "/o", "rb").read()
        got = []
        with DM.HorusLib(mode=DM.Mode.BINARY, rate=100, tone_spacing=270, callback=lambda f: got.append(f)) as h:
            h.add_samples(raw)
        txt = [bytes(f.data).hex().upper() if not isinstance(f.data, str) else f.data.upper() for f in got if f.crc_pass]
        if txt != [pay.hex().upper()]: a.bad(f"on-air:{n}", f"sent {pay.hex()} preamble {pre}, received {txt}")

def run(chk):
    global QUICK
    QUICK = chk.quick
    import_repo(); quiet()
    import horusdemodlib.encoder as E
    ENC[0] = E.Encoder()
    chk.cov["rule"] = "evaluation = one packet and preamble length expanded in both forms and compared element by element; non-trivial = non-empty packet"
    pmap(chk, w_bytes, chunks(range(256), 4))
    pmap(chk, w_sizes, SIZES)
    exe = tools()
    pmap(chk, w_air, [(n, bg, exe) for n in (22, 32, 48, 64, 96, 128) for bg in ((7, 200) if chk.quick else (0, 7, 100, 200, 255))])

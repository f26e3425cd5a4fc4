"""C04: damaged packets through the real C receiver (re-encoded after damaging the decoded content) and through the Python decoder;
the C and Python checksum functions compared on an affine basis of every length."""
import itertools, logging
from vlib import *
from checks.rxcommon import *
from checks.c01 import SRC
from pyref import crc16
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["CRC-16 is affine over GF(2): agreement on single-byte changes at every position over fixed backgrounds extends to all messages of that length."]

def run(chk):
    chk.cov["rule"] = ("one case = one damaged packet offered to the receiver (as a complete over-the-air frame) or to decode_packet; "
                       "oracle = bit-serial CRC-16 reference: accepted => the checksum genuinely matches where the version requires it")
    jobs(chk, plain(), ["damage", "place"])
    exe = cbuild("fec-crc", ["fec.c"], SRC, defs=DEFS)
    run_shards(chk, exe, ["--job", "crc"], label="crc")
    python_side(chk)

def python_side(chk):
    import_repo()
    logging.disable(logging.CRITICAL)
    from horusdemodlib import decoder, checksums
    import asn1tools
    n_eval = acc = 0
    # same function as the C one: fec.c pins the C checksum to the bit-serial reference, this pins the Python one to it
    for n in range(0, 131):
        for bg in (0, 0xff, 0x5a):
            base = bytearray([bg]) * n
            if crc16(bytes(base)) != int(checksums.ukhas_crc(bytes(base)), 16):
                chk.violation("py-crc", f"ukhas_crc differs for {n} bytes of {bg:02x}")
            for i in range(n):
                for v in ((1, 2, 4, 8, 16, 32, 64, 128) if chk.quick else range(1, 256)):
                    b = bytearray(base); b[i] ^= v; b = bytes(b)
                    c = crc16(b); n_eval += 1
                    s = checksums.ukhas_crc(b)
                    if s != "%04X" % c:
                        chk.violation("py-crc", f"ukhas_crc({b.hex()})={s}, reference {c:04X}")
                    if i % 8 == 0 and n > 0:
                        t, h = checksums.add_packet_crc(b), checksums.add_packet_crc(b, tail=False)
                        le = c.to_bytes(2, "little")
                        if t != b + le or h != le + b:
                            chk.violation("py-add", f"checksum placement wrong for {b.hex()}")
                        if not checksums.check_packet_crc(t) or not checksums.check_packet_crc(h, tail=False):
                            chk.violation("py-check", f"correct checksum refused for {b.hex()}")
                        for j in (0, 1):
                            for x in (1, 0x80):
                                t2 = bytearray(t); t2[-1 - j] ^= x
                                if checksums.check_packet_crc(bytes(t2)):
                                    chk.violation("py-check", f"wrong checksum accepted for {bytes(t2).hex()}")
    le = lambda c: c.to_bytes(2, "little")
    def v12(n):
        b = bytearray(n - 2)
        if n == 22: b[:] = bytes.fromhex("010c000c2238") + bytes(12) + b"\x1c\x9a"
        elif n == 16: b[:] = bytes.fromhex("0112020002bceb214152100 0ff00".replace(" ", ""))
        else: b[:] = bytes.fromhex("00010200 0C2238".replace(" ", "")) + bytes(14) + bytes(range(1, 10))
        return bytes(b) + le(crc16(bytes(b)))
    tele = {"payloadCallsign": "HORUSV3", "sequenceNumber": 7, "timeOfDaySeconds": 3600, "latitude": 100, "longitude": 200, "altitudeMeters": 300}
    enc = decoder.HORUS_ASN.encode("Telemetry", tele)
    bases = {f"{n}": v12(n) for n in (16, 22, 32)}
    for n in (32, 48, 64, 96, 128):
        b = (enc + bytes(n))[:n - 2]
        bases[f"v3-{n}"] = le(crc16(b)) + b
    for k, b in bases.items():
        if not decoder.decode_packet(b):
            chk.violation("base", k)
    def offer(p, what):
        nonlocal n_eval, acc
        n_eval += 1
        try:
            r = decoder.decode_packet(p)
        except Exception as e:
            return
        acc += 1
        head = len(p) >= 3 and int.from_bytes(p[:2], "little") == crc16(p[2:])
        tail = len(p) in (16, 22, 32) and int.from_bytes(p[-2:], "little") == crc16(p[:-2])
        if not (head or tail):
            chk.violation("accepted", f"{what}: {p.hex()} accepted as {r.get('modulation')}")
        elif r["modulation"].endswith("v3") != head and not tail:
            chk.violation("version", f"{what}: {p.hex()} reported as {r['modulation']}")
    for k, b in bases.items():
        nb = 8 * len(b)
        B = int.from_bytes(b, "big")
        P = lambda e: (B ^ e).to_bytes(len(b), "big")
        for i in range(nb):
            offer(P(1 << i), f"{k} bit {i}")
        for i, j in itertools.combinations(range(nb), 2):
            if chk.quick and nb > 256 and (i * 7 + j) % 23: continue
            offer(P(1 << i | 1 << j), f"{k} bits {i},{j}")
        if nb <= 176:
            step = 41 if chk.quick else 1
            for q, (i, j, l) in enumerate(itertools.combinations(range(nb), 3)):
                if q % step == 0: offer(P(1 << i | 1 << j | 1 << l), f"{k} bits {i},{j},{l}")
        bl = 16 if not chk.quick and nb <= 256 else 8
        for i in range(nb):
            for v in range(1, 1 << bl, 2):
                if i + v.bit_length() <= nb: offer(P(v << i), f"{k} burst {v:x} at {i}")
            for v in range(1, 256):
                w = (v & 15) << 12 | v >> 4
                if w and i + w.bit_length() <= nb and (not chk.quick or (i + v) % 5 == 0): offer(P(w << i), f"{k} burst {w:x} at {i}")
        for cut in range(0, len(b)):
            offer(b[:cut], f"{k} cut to {cut}"); offer(b[len(b) - cut:], f"{k} last {cut}")
        for extra in range(1, 130):
            for f in (b"\0", b"\xff", b"$", b[:1], b[-1:]):
                offer(b + f * extra, f"{k} extended by {extra}"); offer(f * extra + b, f"{k} prefixed by {extra}")
        for i in range(len(b)):
            for v in range(0, 256, 5 if chk.quick else 1):
                if b[i] != v: offer(b[:i] + bytes([v]) + b[i + 1:], f"{k} byte {i} replaced")
                offer(b[:i] + bytes([v]) + b[i:], f"{k} byte inserted at {i}")
            offer(b[:i] + b[i + 1:], f"{k} byte {i} dropped")
        for i in range(len(b) - 1):
            p = bytearray(b); p[i], p[i + 1] = p[i + 1], p[i]
            if bytes(p) != b: offer(bytes(p), f"{k} bytes {i} swapped")
    chk.add("evaluations", n_eval); chk.add("distinct_nontrivial", n_eval)
    chk.cov["python_packets"] = n_eval; chk.cov["python_checksum_coincidences"] = acc
    chk.sample("v1 packet " + bases["22"].hex() + " with every 1- and 2-bit change through decode_packet")

"""C12: version 1/2 packet decoding against an independent layout oracle, over exhaustive field domains, boundary products and decode histories."""
from vlib import *
from pymc import *
LEVEL = "exploration"
ASSUMPTIONS = ["Payload names in the lists contain no ',', '*' or '$'.",
               "The generated sentence is required to parse back only for latitudes within +-90 degrees (the binary formats document +-180 for both coordinates)."]

ID = {0: "4FSKTEST", 1: "HORUSBINARY", 256: "4FSKTEST-V2", 300: "HORUSTEST", 301: "HORUSTEST2", 7: "SHORT", 65535: "LAST-ONE", 4000: "WITHCUSTOM"}
CUST = {"WITHCUSTOM": {"struct": "<BhIbx", "fields": [["cut_v", "battery_5v_byte"], ["t100", "divide_by_100"], ["big", "none"], ["small", "none"]]},
        "HORUSTEST": {"struct": "<BbBfH", "fields": [["cutdown_battery_voltage", "battery_5v_byte"], ["external_temperature", "none"], ["test_counter", "none"], ["test_float_field", "none"], ["test_int_field", "none"]]},
        "HORUSTEST2": {"struct": "<BbBH4x", "fields": [["cutdown_battery_voltage", "battery_5v_byte"], ["external_temperature", "none"], ["test_counter", "none"], ["test_int_field", "none"]]},
        "4FSKTEST-V2": {"struct": "<hhBHxx", "fields": [["ascent_rate", "divide_by_100"], ["ext_temperature", "divide_by_10"], ["ext_humidity", "none"], ["ext_pressure", "divide_by_10"]]}}

def f32(u):
    return struct.unpack("<f", struct.pack("<I", u))[0]

class Refuse(Exception):
    pass

def o_hms(b):
    if b[0] > 23 or b[1] > 59 or b[2] > 59:
        raise Refuse("time")
    return "%02d:%02d:%02d" % tuple(b)

def o_deg(v):
    if not (v >= -180.0 and v <= 180.0):
        raise Refuse("coordinate")
    return v

def oracle(pkt):
    """Independent decode of the documented layouts; returns expected values or raises Refuse."""
    o = {}
    le = lambda a, n, s=False: int.from_bytes(pkt[a:a + n], "little", signed=s)
    fl = lambda a: struct.unpack("<f", pkt[a:a + 4])[0]
    n = len(pkt)
    if n == 22:
        pid, o["sequence_number"] = pkt[0], le(1, 2)
        o["time"] = o_hms(pkt[3:6]); o["latitude"] = o_deg(fl(6)); o["longitude"] = o_deg(fl(10))
        o["altitude"], o["speed"], o["satellites"] = le(14, 2), pkt[16], pkt[17]
        o["temperature"], o["battery_voltage"] = le(18, 1, True), pkt[19] * 5.0 / 255
        order = ["sequence_number", "time", "latitude", "longitude", "altitude", "speed", "satellites", "temperature", "battery_voltage"]
        mod = "Horus Binary v1"
    elif n == 16:
        pid, o["sequence_number"] = pkt[0], pkt[1]
        t = le(2, 2) * 2
        if t > 86400:
            raise Refuse("time")
        t %= 86400
        o["time"] = "%02d:%02d:%02d" % (t // 3600, t // 60 % 60, t % 60)
        o["latitude"] = o_deg((le(4, 3, True) << 8) / 1e7); o["longitude"] = o_deg((le(7, 3, True) << 8) / 1e7)
        o["altitude"], o["battery_voltage"], o["flags"] = le(10, 2), pkt[12] * 5.0 / 255, pkt[13]
        order = ["sequence_number", "time", "latitude", "longitude", "altitude", "battery_voltage", "flags"]
        mod = "Horus Binary v2"
    elif n == 32:
        pid, o["sequence_number"] = le(0, 2), le(2, 2)
        o["time"] = o_hms(pkt[4:7]); o["latitude"] = o_deg(fl(7)); o["longitude"] = o_deg(fl(11))
        o["altitude"], o["speed"], o["satellites"] = le(15, 2), pkt[17], pkt[18]
        o["temperature"], o["battery_voltage"] = le(19, 1, True), pkt[20] * 5.0 / 255
        order = ["sequence_number", "time", "latitude", "longitude", "altitude", "speed", "satellites", "temperature", "battery_voltage"]
        mod = "Horus Binary v2"
    else:
        raise Refuse("length")
    call = ID.get(pid, "UNKNOWN_PAYLOAD_ID")
    names = None
    if n == 32:
        spec = CUST.get(call, CUST["4FSKTEST-V2"])
        vals = struct.unpack(spec["struct"], pkt[21:30])
        names = []
        for (nm, ty), v in zip(spec["fields"], vals):
            o[nm] = {"none": v, "battery_5v_byte": v * 5.0 / 255, "divide_by_10": v / 10, "divide_by_100": v / 100}[ty]
            names.append(nm); order.append(nm)
    o["payload_id"] = o["callsign"] = call
    return o, order, names, mod

DEC = {"latitude": 5, "longitude": 5, "battery_voltage": 2, "ascent_rate": 2, "ext_temperature": 1, "ext_pressure": 1, "cut_v": 2, "t100": 2, "cutdown_battery_voltage": 2, "test_float_field": 6}

def check(a, pkt, tag):
    a.add("evaluations")
    try:
        exp = oracle(pkt)
    except Refuse as r:
        exp = str(r)
    try:
        got = D.decode_packet(pkt)
    except ValueError as e:
        if not isinstance(exp, str):
            a.bad(f"refused:{tag}", f"valid packet {pkt.hex()} refused: {e}")
        else:
            a.add("refused")
        return None
    except Exception as e:
        a.bad(f"wrong-exception:{tag}:{type(e).__name__}", f"packet {pkt.hex()} raised {e!r}")
        return None
    if isinstance(exp, str):
        a.bad(f"accepted-bad-{exp}:{tag}", f"packet {pkt.hex()} ({exp} outside its range) was reported: {got}")
        return None
    o, order, names, mod = exp
    a.add("distinct_nontrivial")
    for k, v in o.items():
        if k not in got or not num_eq(got[k], v):
            a.bad(f"value:{k}:{tag}", f"packet {pkt.hex()} field {k}: sent {v!r}, reported {got.get(k)!r}")
    if names is not None and list(got.get("custom_field_names", [])) != names:
        a.bad(f"custom-names:{tag}", f"{pkt.hex()}: {got.get('custom_field_names')} instead of {names}")
    if got.get("crc_ok") is not True and got.get("crc_ok") != 1 or got.get("raw") != pkt.hex().upper() or got.get("modulation") != mod:
        a.bad(f"meta:{tag}", f"{pkt.hex()}: crc_ok/raw/modulation {got.get('crc_ok')} {got.get('raw')} {got.get('modulation')}")
    s = got.get("ukhas_str", "")
    body, star, crc = s.lstrip("$").rpartition("*")
    if not s.startswith("$$") or crc != f"{fcrc(body.encode()):04X}":
        a.bad(f"sentence-crc:{tag}", f"{pkt.hex()}: sentence {s!r} has no correct checksum")
        return got
    f = body.split(",")
    if f[0] != o["callsign"] or len(f) != 1 + len(order):
        a.bad(f"sentence:{tag}", f"{pkt.hex()}: sentence {s!r}, expected fields {order}")
        return got
    for k, t in zip(order, f[1:]):
        v = o[k]
        ok = t == v if isinstance(v, str) else abs(float(t) - v) <= (0.5000001 * 10 ** -DEC[k] + 1e-9 * abs(v) if k in DEC else 0) or (v != v and float(t) != float(t)) or float(t) == v
        if not ok:
            a.bad(f"sentence-{k}:{tag}", f"{pkt.hex()}: sentence {s!r} carries {t} for {k}={v!r}")
    if -90 <= o["latitude"] <= 90:
        p = D.parse_ukhas_string(s)
        for k in ("callsign", "sequence_number", "time", "altitude"):
            if p[k] != o[k]:
                a.bad(f"parse-back-{k}:{tag}", f"{s!r} parses back to {p[k]!r}, not {o[k]!r}")
        for k in ("latitude", "longitude"):
            if abs(p[k] - o[k]) > 0.50001e-5:
                a.bad(f"parse-back-{k}:{tag}", f"{s!r} parses back to {p[k]!r}, not {o[k]!r}")
    return got

def mk22(pid=1, seq=2, t=(1, 2, 3), lat=0x42000000, lon=0xc2c80000, alt=1000, spd=3, sat=8, tmp=-5, bat=200):
    return tcrc(struct.pack("<BH3sIIHBBbB", pid, seq, bytes(t), lat, lon, alt, spd, sat, tmp, bat))
def mk16(pid=1, seq=2, bi=100, lat=1000, lon=-2000, alt=1000, bat=200, flags=3):
    return tcrc(struct.pack("<BBH", pid, seq, bi) + (lat & 0xffffff).to_bytes(3, "little") + (lon & 0xffffff).to_bytes(3, "little") + struct.pack("<HBB", alt, bat, flags))
def mk32(pid=256, seq=2, t=(1, 2, 3), lat=0x42000000, lon=0xc2c80000, alt=1000, spd=3, sat=8, tmp=-5, bat=200, cust=bytes(range(1, 10))):
    return tcrc(struct.pack("<HH3sIIHBBbB9s", pid, seq, bytes(t), lat, lon, alt, spd, sat, tmp, bat, cust))

B16 = sorted({0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 43199, 43200, 43201, 65280, 65534, 65535})
B8 = [0, 1, 9, 10, 23, 24, 59, 60, 127, 128, 254, 255]
F = [0, 0x80000000, 0x00000001, 0x3f800000, 0xbf800000, 0x42b40000, 0xc2b40000, 0x42b40001, 0x4333ffff, 0x43340000, 0x43340001, 0xc3340000, 0xc3340001, 0x447a0000,
     0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001, 0x42c71234, 0xc20a5a5a, 0x38d1b717]
T = [(0, 0, 0), (23, 59, 59), (24, 0, 0), (0, 60, 0), (0, 0, 60), (12, 34, 56), (255, 255, 255)]

def products(quick):
    P = itertools.product
    yield [mk22(p, s, t, la, lo, al, *r) for p, s, t, la, lo, al, r in P((1, 200), (0, 65535), T, F, F[::2], (0, 65535), ((0, 0, -128, 0), (255, 255, 127, 255)))]
    yield [mk22(p, s, (1, 2, 3), F[3], F[5], al, sp, sa, tm, b) for p in ID if p < 256 for s in B16 for al in B16[::3] for sp in (0, 128, 255) for sa in (0, 128, 255) for tm in (-128, -1, 0, 127) for b in (0, 128, 255)]
    d3 = [0, 1, -1, 255, 256, -256, 7031250, 7031251, -7031250, -7031251, 8388607, -8388608, 3515625, -3515625, 3515626]
    yield [mk16(p, s, b, la, lo, al, bt, fl) for p in (0, 1, 7, 200) for s in (0, 255) for b in (0, 43199, 43200, 43201, 65535) for la in d3 for lo in d3 for al, bt, fl in ((0, 0, 0), (65535, 255, 255), (256, 1, 128))]
    c = [bytes(9), b"\xff" * 9, bytes(range(1, 10)), b"\x00\x80\xff\x7f\x80\x01\x00\xff\xff", b"\x7f\x7f\x80\x00\x00\x80\x7f\x00\x80"]
    yield [mk32(p, s, t, la, lo, al, *r, cu) for p in (256, 300, 301, 4000, 65535, 500, 1) for s in (0, 65535) for t in T for la in F[::2] for lo in F[1::3] for al in (0, 65535) for r in ((0, 0, -128, 0), (255, 255, 127, 255)) for cu in c]
    yield [mk32(p, s, (1, 2, 3), F[3], F[5], al, sp, sa, tm, b) for p in ID for s in B16 for al in B16[::3] for sp in (0, 128, 255) for sa in (0, 128, 255) for tm in (-128, -1, 0, 127) for b in (0, 128, 255)]

def w_packets(a, pkts):
    for p in pkts:
        check(a, p, {16: "v2-16", 22: "v1", 32: "v2-32"}.get(len(p), "len"))
    a.sample(pkts[0].hex())

def w_ids(a, rng):
    for i in rng:
        check(a, mk32(i), "v2-32")
        check(a, mk32(256, i), "v2-32")                                          # every sequence number
        check(a, mk32(256, 1, cust=struct.pack("<hhBHxx", i - 32768, 32767 - i, i & 255, i)), "v2-32")   # every ascent rate, temperature, humidity, pressure
        check(a, mk32(4000, 1, alt=i, cust=struct.pack("<BhIbx", i & 255, i - 32768, i * 65537, (i & 255) - 128)), "v2-32")
        check(a, mk16(bi=i), "v2-16")                                            # every time value

def w_bytes(a, rng):
    for i in rng:
        check(a, mk22(pid=i), "v1"); check(a, mk22(spd=i), "v1"); check(a, mk22(sat=i), "v1"); check(a, mk22(tmp=i - 128), "v1"); check(a, mk22(bat=i), "v1")
        check(a, mk16(pid=i), "v2-16"); check(a, mk16(seq=i), "v2-16"); check(a, mk16(bat=i), "v2-16"); check(a, mk16(flags=i), "v2-16")
        check(a, mk32(spd=i), "v2-32"); check(a, mk32(sat=i), "v2-32"); check(a, mk32(tmp=i - 128), "v2-32"); check(a, mk32(bat=i), "v2-32")
        for j in range(256):
            for t in ((i, j, 0), (i, 59, j), (0, i, j)):
                check(a, mk22(t=t) if j & 1 else mk32(t=t), "v1" if j & 1 else "v2-32")
        for s in (0, 0x80000000):                                                # every float exponent, mantissa boundaries
            for m in (0, 1, 0x2aaaaa, 0x340000, 0x340001, 0x33ffff, 0x400000, 0x555555, 0x7fffff):
                u = s | i << 23 | m
                check(a, mk22(lat=u), "v1"); check(a, mk22(lon=u), "v1"); check(a, mk32(lat=u), "v2-32"); check(a, mk32(lon=u), "v2-32")

def w_fixed3(a, rng):
    f = E.delegate_list["degree_fixed3"]
    for hi in rng:
        for lo in range(65536):
            v = hi << 16 | lo
            sv = (v - 0x1000000 if v & 0x800000 else v) * 256 / 1e7
            a.add("field_values")
            try:
                got = f(v.to_bytes(3, "little"))[0]
            except ValueError:
                if -180 <= sv <= 180:
                    a.bad("refused:degree_fixed3", f"{v:06x}"); 
                continue
            if not -180 <= sv <= 180 or abs(got - sv) > 1e-9:
                a.bad("value:degree_fixed3", f"{v:06x} -> {got} expected {sv}")

def w_hms(a, rng):
    f = E.delegate_list["time_hms"]
    for h in rng:
        for m in range(256):
            for s in range(256):
                a.add("field_values")
                ok = h < 24 and m < 60 and s < 60
                try:
                    got = f(bytes((h, m, s)))[0]
                except ValueError:
                    if ok: a.bad("refused:time_hms", (h, m, s))
                    continue
                if not ok or got != "%02d:%02d:%02d" % (h, m, s):
                    a.bad("value:time_hms", f"{(h, m, s)} -> {got}")

def w_lengths(a, n):
    for fill in (0, 0x55, 0xff, None):
        if n < 2:
            body = bytes(n)
        else:
            body = tcrc(bytes((i * 37 + 11) & 255 for i in range(n - 2)) if fill is None else bytes([fill]) * (n - 2))
        if n in (16, 22, 32):
            # all-out-of-range filler: still must be a ValueError or a correct decode
            check(a, body, "length")
            continue
        a.add("evaluations")
        try:
            r = D.decode_packet(body)
            a.bad("accepted-length", f"{n}-byte packet {body.hex()} was reported: {r}")
        except ValueError:
            a.add("refused")

def history_set():
    v3 = D.HORUS_ASN.encode("Telemetry", {"payloadCallsign": "ABC-1", "sequenceNumber": 5, "timeOfDaySeconds": 5, "latitude": 1, "longitude": 2, "altitudeMeters": 3, "counts": [1, 2], "customData": b"xy"})
    v3b = D.HORUS_ASN.encode("Telemetry", {"payloadCallsign": "ABC-1", "sequenceNumber": 6, "timeOfDaySeconds": 6, "latitude": 1, "longitude": 2, "altitudeMeters": 30, "milliVolts": {"battery": 1}})
    return [mk22(), mk22(200, lat=F[5]), mk16(), mk32(), mk32(300), mk32(4000), mk32(500), mk22(t=(24, 0, 0)), mk32()[:-1] + b"\x00", b"", mk32(t=(0, 0, 99)), hcrc(v3), hcrc(v3b)]

def one(p, wreck):
    try:
        r = D.decode_packet(p)
    except ValueError as e:
        return ("ValueError", str(e))
    c = copy.deepcopy(r)
    if wreck:                                   # a caller editing its result must not affect later decodes
        for v in r.values():
            if isinstance(v, (list, dict)):
                v.clear()
            if isinstance(v, dict):
                v.update(name="X")
        if isinstance(r.get("packet_format"), dict):
            r["packet_format"].clear()
        r.clear()
    return c

def w_history(a, depth_item):
    S = history_set()
    base = [one(p, False) for p in S]
    for seq in depth_item:
        a.add("histories")
        for i in seq:
            got = one(S[i], True)
            if not deep_eq(got, base[i]):
                a.bad(f"history:{i}", f"after history {seq}, packet {S[i].hex()} decodes to {got} instead of {base[i]}")

import copy
def run(chk):
    global D, E
    import_repo(ext=False); quiet()
    import horusdemodlib.decoder as D
    import horusdemodlib.delegates as E
    import horusdemodlib.payloads as P
    P.HORUS_PAYLOAD_LIST = dict(ID)
    P.HORUS_CUSTOM_FIELDS = copy.deepcopy(CUST)
    chk.cov["rule"] = "evaluation = one packet through decode_packet (and its sentence through parse_ukhas_string) against the layout oracle; non-trivial = accepted with all fields compared. field_values = one raw field value through its decoder"
    for ps in products(chk.quick):
        pmap(chk, w_packets, chunks(ps[::(3 if chk.quick else 1)] if len(ps) > 60000 else ps, 2000))
    pmap(chk, w_ids, [range(i, 65536, 256) for i in range(256)][:: (4 if chk.quick else 1)])
    pmap(chk, w_bytes, [range(i, i + 4) for i in range(0, 256, 4)])
    pmap(chk, w_lengths, range(0, 300))
    n = len(history_set())
    pmap(chk, w_history, chunks(itertools.product(range(n), repeat=3), 200))
    pmap(chk, w_fixed3, [range(i, i + 1) for i in range(0, 256)])
    if chk.quick:
        pmap(chk, w_hms, [range(i, i + 1) for i in list(range(0, 26)) + [59, 60, 127, 128, 255]])
    else:
        pmap(chk, w_hms, [range(i, i + 1) for i in range(256)])

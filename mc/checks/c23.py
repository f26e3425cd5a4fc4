"""C23: the version 2 packet generator over boundary grids of every field, all pairs of fields, every time and payload id, against an independent packing oracle."""
import datetime, itertools, struct
from vlib import *
from pymc import *
from pyref import ref_encode
LEVEL = "exploration"
ASSUMPTIONS = ["Values are finite and below 1e30 in magnitude; latitude and longitude are sent as given.", "A value strictly inside its range may land on either neighbouring step."]
# name: (index in the unpacked packet, low, high, step, wrap)
FLD = {"altitude": (7, 0, 65535, 1), "speed": (8, 0, 255, 1), "satellites": (9, 0, 255, 1), "temperature": (10, -128, 127, 1), "battery_voltage": (11, 0.0, 5.0, 5 / 255),
       "ascent_rate": (12, -327.68, 327.67, .01), "ext_temperature": (13, -3276.8, 3276.7, .1), "ext_humidity": (14, 0, 255, 1), "ext_pressure": (15, 0, 6553.5, .1)}
def grid(lo, hi, st):
    g = []
    for b in (lo, hi, 0):
        for d in (-10 * st, -1.5 * st, -st, -.5 * st, -.01 * st, 0, .01 * st, .5 * st, st, 1.5 * st, 10 * st):
            g.append(b + d)
    g += [lo - 1000, hi + 1000, -1e6, 1e6, -1e30, 1e30, -32768, 32767, 32768, 65535, 65536, -65536, 255, 256, 127, 128, -128, -129, 1, -1, (lo + hi) / 2, 2 * hi, 3 * hi + st]
    if isinstance(lo, int): g += [lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, 10 ** 25, -10 ** 25]
    return sorted(set(g), key=lambda x: (x, str(type(x))))
GRID = {k: grid(*v[1:4]) for k, v in FLD.items()}
FMT = "<HHBBBffHBBbBhhBHxxH"
ENC = [None]

def clip(x, lo, hi): return lo if x < lo else hi if x > hi else x

def judge(a, kw, tag, coded=False):
    a.add("evaluations")
    e = ENC[0]
    try:
        p = e.create_horus_v2_packet(return_uncoded=True, **kw)
    except Exception as ex:
        a.bad(f"raised:{tag}:{type(ex).__name__}", f"{kw}: {ex!r}"); return
    if not isinstance(p, bytes) or len(p) != 32 or fcrc(p[:-2]) != int.from_bytes(p[-2:], "little"):
        a.bad(f"invalid:{tag}", f"{kw}: {p!r} is not a valid packet"); return
    u = struct.unpack(FMT, p)
    exp = {0: kw.get("payload_id", 256), 1: int(kw.get("sequence_number", 0)) % 65536}
    for i, v in exp.items():
        if u[i] != v: a.bad(f"value:{tag}:{'payload_id' if i == 0 else 'sequence_number'}", f"{kw}: {u[i]} instead of {v}")
    if all(kw.get(k) is not None for k in ("hours", "minutes", "seconds")):
        for i, (k, hi) in zip((2, 3, 4), (("hours", 23), ("minutes", 59), ("seconds", 59))):
            w = clip(kw[k], 0, hi)
            if not (abs(u[i] - w) < 1 if isinstance(w, float) else u[i] == w) or not 0 <= u[i] <= hi: a.bad(f"value:{tag}:{k}", f"{kw}: {k} {u[i]} instead of {w}")
    elif "time_dt" in kw:
        t = kw["time_dt"]
        if u[2:5] != (t.hour, t.minute, t.second): a.bad(f"value:{tag}:time_dt", f"{kw}: {u[2:5]}")
    for i, k in ((5, "latitude"), (6, "longitude")):
        w = struct.unpack("<f", struct.pack("<f", kw.get(k, 0.0)))[0]
        if u[i] != w: a.bad(f"value:{tag}:{k}", f"{kw}: {u[i]} instead of {w}")
    for k, (i, lo, hi, st) in FLD.items():
        if i >= 12 and kw.get("custom_data") is not None: continue
        v = kw.get(k, 0.0)
        g = u[i] * {11: 5 / 255, 12: .01, 13: .1, 15: .1}.get(i, 1)
        w = clip(v, lo, hi)
        tol = 1e-9 * max(1, abs(w))
        ok = abs(g - w) <= tol if v <= lo or v >= hi or (isinstance(v, int) and st == 1) else abs(g - w) < st + tol
        if not ok: a.bad(f"value:{tag}:{k}", f"{kw}: {k} sent as {g} instead of {w} (step {st})")
    if kw.get("custom_data") is not None and p[21:30] != kw["custom_data"]:
        a.bad(f"value:{tag}:custom", f"{kw}: {p[21:30].hex()}")
    a.add("distinct_nontrivial")
    if coded:
        c = e.create_horus_v2_packet(**kw)
        if bytes(c) != ref_encode(p): a.bad(f"coded:{tag}", f"{kw}: coded output is not the encoding of the same packet: {bytes(c).hex()}")
        if e.horus_l2_decode_packet(bytes(c), 32) != p: a.bad(f"coded-decode:{tag}", f"{kw}")
        d = D.decode_packet(p)
        if d["payload_id"] != P.HORUS_PAYLOAD_LIST.get(exp[0], "UNKNOWN_PAYLOAD_ID") or d["sequence_number"] != u[1] or d["time"] != "%02d:%02d:%02d" % u[2:5] or d["altitude"] != u[7] or d["speed"] != u[8] or d["satellites"] != u[9] or d["temperature"] != u[10] or abs(d["battery_voltage"] - u[11] * 5 / 255) > 1e-9 or d["latitude"] != u[5] or d["longitude"] != u[6]:
            a.bad(f"decode:{tag}", f"{kw} decodes to {d}")
        if "ascent_rate" in d and "custom_data" not in kw and (abs(d["ascent_rate"] - u[12] / 100) > 1e-9 or abs(d["ext_temperature"] - u[13] / 10) > 1e-9 or d["ext_humidity"] != u[14] or abs(d["ext_pressure"] - u[15] / 10) > 1e-9):
            a.bad(f"decode:{tag}", f"{kw} decodes to {d}")

T0 = datetime.datetime(2024, 2, 29, 23, 59, 58, 999999)
def w_pairs(a, item):
    k1, k2 = item
    for v1 in GRID[k1]:
        judge(a, {k1: v1, "time_dt": T0}, "single", coded=True)
        for v2 in GRID[k2]:
            judge(a, {k1: v1, k2: v2, "time_dt": T0}, "pairs")

def w_extremes(a, rng):
    ks = list(FLD)
    for m in rng:
        kw = {}
        x = m
        for k in ks:
            _, lo, hi, st = FLD[k]
            kw[k] = (lo - 5, hi + 5, (lo + hi) // 2 if isinstance(lo, int) else (lo + hi) / 2 + st)[x % 3]; x //= 3
        judge(a, dict(kw, payload_id=65535, sequence_number=65535, hours=24, minutes=60, seconds=61, latitude=-90.0, longitude=180.0), "extremes", coded=m % 97 == 0)

def w_ids(a, rng):
    for i in rng:
        judge(a, {"payload_id": i, "sequence_number": i - 40000, "hours": i % 24, "minutes": i % 60, "seconds": i % 59, "altitude": i}, "ids", coded=i % 31 == 0 or i < 320)

def w_time(a, hs):
    for h in hs:
        for m in list(range(60)) + ([] if QUICK else []):
            for s in range(0, 60, 1 if m in (0, 23, 24, 25, 59) or not QUICK else 13):
                judge(a, {"hours": h, "minutes": m, "seconds": s}, "hms")
                judge(a, {"time_dt": datetime.datetime(2023, 7, 1, h, m, s, 500000)}, "datetime")
                judge(a, {"time_dt": datetime.time(h, m, s), "hours": 5, "seconds": 7}, "datetime")
        for tz in (datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=30))):
            judge(a, {"time_dt": datetime.datetime(2023, 7, 1, h, 7, 9, tzinfo=tz)}, "datetime-aware")

HMS = [-10 ** 20, -1e9, -60, -1, -.5, 0, .5, 1, 22, 23, 23.9, 24, 25, 58, 59, 59.5, 60, 61, 255, 256, 1e9, 10 ** 20]
def w_hmsclip(a, _):
    for h, m, s in itertools.product(HMS, repeat=3):
        judge(a, {"hours": h, "minutes": m, "seconds": s}, "hms-clip")
    for sq in [-65537, -65536, -1, 0, 1, 65534, 65535, 65536, 65537, 131071, 10 ** 12, 2.9, 65535.9]:
        judge(a, {"sequence_number": sq, "time_dt": T0}, "sequence", coded=True)
    for la, lo in itertools.product([-90.0, -89.99999, -1e-7, 0, 0.0, 1, 45.123456789, 90.0, 90], [-180.0, -0.5, 0, 138.6, 179.99999, 180]):
        judge(a, {"latitude": la, "longitude": lo, "time_dt": T0}, "position", coded=True)
    for c in (bytes(9), b"\xff" * 9, bytes(range(9)), b"123456789"):
        judge(a, {"custom_data": c, "time_dt": T0, "ascent_rate": 5.0, "altitude": 70000}, "custom", coded=True)
    for bad in (-1, 0, 1, 255, 65536, 65537, 10 ** 9, -10 ** 9, 255.9, 65535.5, float("inf"), float("-inf")):
        for un in (True, False):
            a.add("evaluations")
            try:
                r = ENC[0].create_horus_v2_packet(payload_id=bad, return_uncoded=un)
                a.bad("bad-id-accepted", f"payload id {bad} gave {bytes(r).hex()}")
            except Exception: a.add("refused")
    # one call does not influence the next
    ref = ENC[0].create_horus_v2_packet(time_dt=T0, return_uncoded=True)
    for k in FLD:
        for v in GRID[k][:3]: ENC[0].create_horus_v2_packet(time_dt=T0, **{k: v})
        if ENC[0].create_horus_v2_packet(time_dt=T0, return_uncoded=True) != ref: a.bad("history", k)
    # every representable step survives
    for i in range(-32768, 32768, 1 if not QUICK else 5):
        judge(a, {"ascent_rate": i / 100, "ext_temperature": i / 10, "ext_pressure": (i + 32768) / 10, "altitude": i + 32768, "ext_humidity": i & 255, "speed": (i >> 3) & 255, "battery_voltage": (i & 255) * 5 / 255, "time_dt": T0}, "steps")

def run(chk):
    global D, P, QUICK
    QUICK = chk.quick
    import_repo(); quiet()
    import horusdemodlib.decoder as D, horusdemodlib.payloads as P, horusdemodlib.encoder as E
    ENC[0] = E.Encoder()
    chk.cov["rule"] = "evaluation = one call of create_horus_v2_packet; non-trivial = a packet was produced and every field compared (and for coded runs, the coded form with the reference encoder)"
    pmap(chk, w_pairs, itertools.permutations(FLD, 2))
    pmap(chk, w_extremes, chunks(range(3 ** len(FLD)), 400))
    pmap(chk, w_ids, chunks(range(256, 65536), 1024))
    pmap(chk, w_time, [[h] for h in range(24)])
    run1(chk, w_hmsclip)
    chk.sample({"temperature_grid": [str(x) for x in GRID["temperature"]]})

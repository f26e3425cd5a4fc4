"""C13: version 3 packets built by an independent UPER encoder from every combination of optional fields and boundary values; expected mapping from the README."""
from vlib import *
from pymc import *
import uper, copy
from checks.v3common import *
LEVEL = "exploration"
ASSUMPTIONS = ["Truncated and constraint-violating messages count as refused when any exception is raised (the decoder's caller treats all alike).",
               "Midnight may be written as 86400 s; it is reported as 00:00:00."]

R4 = [-1023, -1, 0, 1, 1023]
V4 = [0, 1, 1000, 16382, 16383]
BND = {"velocityHorizontalKilometersPerHour": [0, 1, 255, 256, 511, 512], "gnssSatellitesVisible": [0, 1, 15, 16, 31],
       "ascentRateCentimetersPerSecond": [-32767, -1, 0, 1, 32767], "pressurehPa-x10": [0, 1, 9999, 12000],
       "humidityPercentage": [0, 1, 64, 100], "counts": [[0], [1, 2], [-1, 0, 127, 128], list(range(8)), [255, 256, 65535, 65536, -128, -129, 2**31, 2**63], [2**80, -2**80], [0] * 8],
       "gnssPowerSaveState": uper.GNSS, "customData": [b"", b"\0", b"\x00\xff", bytes(range(100))], "via": ["sondehub", "nohub", "unknown"],
       "temperatureCelsius-x10": [{}, {"internal": 0}, {"external": -1, "custom1": 0}, {"internal": -1023, "external": 1023, "custom1": 1, "custom2": -1}, {"custom2": 0}],
       "milliVolts": [{}, {"battery": 0}, {"solar": 0}, {"battery": 16383, "solar": 1, "custom1": 0, "custom2": 16383}, {"custom1": 5}],
       "extraSensors": [[{}], [{"name": "a"}], [{"name": "zero", "values": ("horusInt", [0])}], [{"values": ("horusReal", [0.0, -0.5])}, {"name": "flags-9", "values": ("horusBool", {f"b{i}": i == 3 for i in range(8)})}],
                        [{"values": ("horusStr", "")}, {}, {"name": "n" * 20, "values": ("horusStr", "ABC xyz_+/=-.0")}, {"values": ("horusInt", [1, -1, 2**40, 0])}]]}
REQ = {"payloadCallsign": ["A", "-/", "abcdefghijklmno", "ABCXYZ-/0189", "4FSKTEST"], "sequenceNumber": [0, 1, 255, 256, 65535], "timeOfDaySeconds": [-1, 0, 1, 59, 60, 3599, 3600, 43200, 86398, 86399, 86400],
       "latitude": [-9000000, -8999999, -1, 0, 1, 9000000], "longitude": [-18000000, -1, 0, 1, 17999999, 18000000], "altitudeMeters": [-1000, -999, -1, 0, 1, 255, 256, 49999, 50000]}
OPTS = list(BND)
_n = [0]

def dec(a, t, tag, padded=None):
    a.add("evaluations")
    m = uper.encode(t)
    pk = hcrc(m)
    if padded:
        pk = hcrc(pad(m))
    if fcrc(pk[:-2]) == int.from_bytes(pk[-2:], "little"):
        return
    try:
        got = D.decode_packet(pk)
    except Exception as e:
        a.bad(f"refused:{tag}:{type(e).__name__}", f"message {t} ({pk.hex()}) was refused: {e!r}")
        return
    a.add("distinct_nontrivial")
    for k, w in compare(got, t):
        a.bad(f"{k}:{tag}", f"{w}; message {t} packet {pk.hex()}")
    try:
        json.loads(got["ukhas_str"])
    except Exception as e:
        a.bad(f"text:{tag}", f"ukhas_str is not JSON: {got.get('ukhas_str')!r} for {t}")

def fresh(t, i):
    """a callsign never used before, so remembered sensor names cannot play a part"""
    s = ""
    x = i
    while x or not s:
        s = uper.CALL[2:][x % 62] + s; x //= 62
    return dict(t, payloadCallsign="q" + s)

def w_subsets(a, rng):
    for m in rng:
        for prof in range(3):
            t = dict(MIN)
            for i, o in enumerate(OPTS):
                if m >> i & 1:
                    b = BND[o]
                    t[o] = b[0] if prof == 0 else b[-1] if prof == 1 else b[(m * 7 + i) % len(b)]
            dec(a, fresh(t, m * 3 + prof), "optional-fields", padded=prof == 2)
        if m % 601 == 0: a.sample({k: str(v) for k, v in t.items()})

def w_pairs(a, item):
    base, k1 = item
    F = dict(BND, **REQ)
    ks = list(F)
    n = 10**6 * (1 + ks.index(k1))
    for v1 in F[k1]:
        dec(a, fresh(dict(MIN, **{k1: v1}), n) if k1 != "payloadCallsign" else dict(MIN, **{k1: v1}), "single"); n += 1
        for k2 in ks:
            if k2 == k1: continue
            for v2 in F[k2]:
                t = dict(MIN, **{k1: v1, k2: v2})
                if "payloadCallsign" not in (k1, k2): t = fresh(t, n); n += 1
                elif "extraSensors" in t: continue
                dec(a, t, "pairs")

def w_groups(a, item):
    grp, names, vals, m = item
    n = 2 * 10**9 + 10**6 * m + (5 * 10**8 if grp == "milliVolts" else 0)
    sel = [x for i, x in enumerate(names) if m >> i & 1]
    for vs in itertools.product(vals, repeat=len(sel)):
        dec(a, fresh(dict(MIN, **{grp: dict(zip(sel, vs))}), n), grp); n += 1

SV = [None, ("horusInt", [0]), ("horusInt", [1, -2, 300, 2**33]), ("horusStr", "s.1 +/=_-"), ("horusStr", ""), ("horusReal", [0.0, 1.5, -0.1, 1e300]), ("horusReal", [float("inf")]), ("horusBool", {f"b{i}": bool(i % 3) for i in range(8)})]
SO = [({"name": n} if n else {}) | ({"values": v} if v else {}) for n in (None, "temp", "x") for v in SV]
def w_sensors(a, item):
    n0, combos = item
    for c in combos:
        ss = []
        for i, k in enumerate(c):
            s = dict(SO[k])
            if "name" in s: s["name"] += str(i)
            ss.append(s)
        dec(a, fresh(dict(MIN, extraSensors=ss), n0), "sensors"); n0 += 1

def w_violate(a, item):
    t, tag = item
    a.add("violations_tried")
    pk = hcrc(uper.encode(dict(MIN, **t)))
    if len(pk) in (16, 22, 32) and fcrc(pk[:-2]) == int.from_bytes(pk[-2:], "little"): return
    try:
        got = D.decode_packet(pk)
        a.bad(f"accepted-violation:{tag}", f"message with {t} violates the schema but was reported: {got.get('ukhas_str')}")
    except Exception:
        a.add("refused")

def w_trunc(a, item):
    i, item = item
    t = dict(MIN, **item)
    who = 3000000000 + i                       # a callsign of its own: several items run in one process
    m = uper.encode(fresh(t, who))
    for n in range(len(m)):
        a.add("truncations")
        pk = hcrc(m[:n])
        if len(pk) < 3: continue
        try:
            got = D.decode_packet(pk)
        except Exception:
            a.add("refused"); continue
        a.bad("accepted-truncated", f"{n} of {len(m)} bytes of message {t} were reported: {got.get('ukhas_str')}")
    dec(a, fresh(t, who), "padding"); dec(a, fresh(t, who), "padding", padded=True)

def w_explicit(a, _):
    import copy as c
    for t in (MIN, dict(MIN, humidityPercentage=0)):
        pk = hcrc(uper.encode(t))
        a.add("evaluations")
        got = D.decode_packet(pk, packet_format=c.deepcopy(D.HORUS_PACKET_FORMATS["horus_binary_v3"]))
        for k, w in compare(got, t):
            a.bad(f"{k}:explicit-format", w)

def hist():
    full = dict(MIN, payloadCallsign="H-1", **{k: v[-1] for k, v in BND.items() if k not in ("extraSensors",)}, extraSensors=[{"name": "a", "values": ("horusInt", [9, 8])}, {"name": "bb", "values": ("horusStr", "Q")}])
    return [full, dict(MIN, payloadCallsign="H-1"), dict(MIN, payloadCallsign="H-2", altitudeMeters=-1000, timeOfDaySeconds=-1), dict(MIN, payloadCallsign="H-1", counts=[0]),
            dict(MIN, payloadCallsign="H-3", **{"milliVolts": {"solar": 0}, "temperatureCelsius-x10": {"custom2": 0}}), dict(MIN, payloadCallsign="H-2", via="nohub", humidityPercentage=0), None, b"v1"]

def w_history(a, item):
    clear, seqs = item
    S = hist()
    bad = hcrc(uper.encode(dict(MIN, payloadCallsign="H-1", humidityPercentage=127)))
    v1 = tcrc(bytes.fromhex("0112000000230000000000000000000000001c9a"))
    for seq in seqs:
        a.add("histories")
        for i in seq:
            if S[i] is None:
                try: D.decode_packet(bad); a.bad("accepted-violation:history", "humidity 127 accepted")
                except Exception: pass
                continue
            if S[i] == b"v1":
                D.decode_packet(v1); continue
            got = D.decode_packet(hcrc(uper.encode(S[i])))
            for k, w in compare(got, S[i]):
                a.bad(f"{k}:history", f"{w} after history {seq}")
            if clear:                                                   # the receiver of a result may do with it what it likes
                for v in list(got.values()):
                    if isinstance(v, dict):
                        for w in v.values():
                            if isinstance(w, list): w.clear()
                    if isinstance(v, (list, dict)): v.clear()

def w_collide(a, _):
    """distinct fields whose generated names coincide: a text sensor called "count" in slot k and counter k"""
    for k in range(4):
        ss = [{} for _ in range(k)] + [{"name": "count", "values": ("horusStr", "X")}]
        t = dict(MIN, payloadCallsign=f"COLL-{k}", counts=[5] * (k + 1), extraSensors=ss)
        a.add("evaluations"); a.add("distinct_nontrivial")
        got = D.decode_packet(hcrc(uper.encode(t)))
        vals = [v for n, v in got.items() if n.startswith("count_")]
        if len(set(got["custom_field_names"])) != len(got["custom_field_names"]) or vals.count(5) != k + 1 or "X" not in vals:
            a.bad(f"collision:count-text-sensor-slot{k}", f"counter {k} and the text sensor 'count' in slot {k} are both reported as count_{k}; {t} -> {got.get('ukhas_str')}")

def run(chk):
    global D
    import_repo(ext=False); quiet()
    import horusdemodlib.decoder as D
    chk.cov["rule"] = "evaluation = one message encoded by the independent UPER encoder, decoded by decode_packet, all reported fields compared with the README mapping; violations/truncations must be refused"
    pmap(chk, w_subsets, chunks(range(1 << len(OPTS)), 128))
    pmap(chk, w_pairs, [(None, k) for k in list(BND) + list(REQ)])
    pmap(chk, w_groups, [("temperatureCelsius-x10", ["internal", "external", "custom1", "custom2"], R4 if not chk.quick else [-1023, 0, 1023], m) for m in range(16)] +
         [("milliVolts", ["battery", "solar", "custom1", "custom2"], V4 if not chk.quick else [0, 1, 16383], m) for m in range(16)])
    items, n = [], 4 * 10**9
    k = len(SO)
    combos = [c for L in (1, 2) for c in itertools.product(range(k), repeat=L)]
    sub = list(range(k)) if not chk.quick else [0, 1, 3, 5, 7, 9, 11, 17]
    combos += list(itertools.product(sub, repeat=3))
    sub4 = sub[::2]
    combos += list(itertools.product(sub4 if chk.quick else sub[::2], repeat=4))
    for c in chunks(combos, 200):
        items.append((n, c)); n += 1000
    pmap(chk, w_sensors, items)
    V = [({k: x}, k) for k, r in (("velocityHorizontalKilometersPerHour", range(513, 1024)), ("pressurehPa-x10", range(12001, 16384, 1)), ("humidityPercentage", range(101, 128)), ("timeOfDaySeconds", range(86401, 131071, 97)),
         ("latitude", range(9000001, 33554431 - 9000000, 99991)), ("longitude", range(18000001, 67108863 - 18000000, 99991)), ("altitudeMeters", range(50001, 64535, 13)), ("ascentRateCentimetersPerSecond", [32768]), ("gnssPowerSaveState", [6, 7])) for x in r]
    V += [({"timeOfDaySeconds": 86401}, "timeOfDaySeconds"), ({"latitude": 9000001}, "latitude"), ({"longitude": 18000001}, "longitude"), ({"altitudeMeters": 50001}, "altitudeMeters")]
    V += [({"temperatureCelsius-x10": {k: 1024}}, "temperature") for k in ("internal", "external", "custom1", "custom2")]
    V += [({"payloadCallsign": "A" * 16}, "callsign-length")]
    V += [({"extraSensors": [{"name": "a" * n}]}, "name-length") for n in range(21, 33)] + [({"extraSensors": [{"name": [c]}]}, "name-alphabet") for c in range(37, 64)] + [({"extraSensors": [{"values": ("horusStr", [c])}]}, "str-alphabet") for c in range(69, 128)]
    pmap(chk, w_violate, V)
    pmap(chk, w_trunc, list(enumerate([{k: v} for k, vs in BND.items() for v in vs] + [{}])))
    run1(chk, w_explicit); run1(chk, w_collide)
    pmap(chk, w_history, [(cl, c) for cl in (False, True) for c in chunks(itertools.product(range(len(hist())), repeat=3 if chk.quick else 5), 64)])

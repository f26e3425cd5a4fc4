"""C20: SondeHub eligibility and mapping: time offsets at every second around the limits, addressing x callsign x completeness, the presence lattice of optional fields,
and every decoder's own output, against an independent oracle under a controlled clock."""
import copy, datetime, itertools, json, math
from vlib import *
from pymc import *
import clockshim, uper
from clockshim import utc
from checks.v3common import MIN
from checks import c12, c13
LEVEL = "exploration"
ASSUMPTIONS = ["A telemetry time means the moment nearest to the receiver's clock with that time of day (offsets up to 12 hours are enumerated).",
               "Sentinel values: temperature <= -273.15, negative battery voltage and SNR <= -100 count as not valid; values strictly between the sentinel and its threshold are not enumerated."]
BASE = {"callsign": "MC-20", "payload_id": "MC-20", "sequence_number": 77, "time": "12:00:00", "latitude": -34.5, "longitude": 138.25, "altitude": 12345}
META = {"software_name": "sw", "software_version": "9", "uploader_callsign": "RX", "uploader_position": (1.0, 2.0, 3.0), "uploader_radio": "r", "uploader_antenna": "a", "time_received": "2024-01-01T00:00:00.000000Z"}
OPT = {"temperature": [-300.0, -274, -273.1, 0, 0.0, -5, 25.5], "satellites": [0, 12, 255], "battery_voltage": [-1.0, 0.0, 0, 3.3], "speed": [0, 99, 0.5], "vel_h": [0.0, 7.5], "vel_v": [-5.25, 0.0],
       "snr": [-999.0, -99.9, 0.0, -3.5, 21.25], "f_centre": [0, 401500000.0, 434201234], "tone_spacing": [0, 270], "raw": ["00FF", ""], "modulation": ["RTTY", "Horus Binary v2"], "modulation_detail": ["x"], "baud_rate": [100, 0],
       "custom": [{}, {"count_0": 0}, {"a_0_0": 1.5, "flag_1_b0": False, "s_2": "", "missing": None}, {"nan_0_0": float("nan"), "inf_0_1": float("inf"), "ninf": float("-inf"), "ok": 2}, {"big": 2 ** 80, "custom_data": "00ff"}]}
NAMEMAP = {"temperature": "temp", "satellites": "sats", "battery_voltage": "batt", "f_centre": "frequency"}
OPTIONAL_OUT = {"temp", "sats", "batt", "speed", "vel_h", "vel_v", "snr", "frequency", "tone_spacing", "raw", "modulation", "modulation_detail", "baud_rate"}

def oracle(t, now, check_time):
    """-> None or the expected published fields"""
    if t.get("via", "sondehub") != "sondehub" or t["callsign"] == "UNKNOWN_PAYLOAD_ID" or "time" not in t or "altitude" not in t:
        return None
    h, m, s = map(int, t["time"].split(":"))
    cand = [now.replace(hour=h, minute=m, second=s, microsecond=0) + datetime.timedelta(days=d) for d in (-1, 0, 1)]
    dt = min(cand, key=lambda x: abs(x - now))
    if check_time and abs(dt - now) > datetime.timedelta(seconds=180):
        return None
    o = {"payload_callsign": t["callsign"], "frame": t["sequence_number"], "lat": t["latitude"], "lon": t["longitude"], "alt": t["altitude"]}
    if abs(dt - now) < datetime.timedelta(hours=1):
        o["datetime"] = dt.strftime("%Y-%m-%dT%H:%M:%S.%fZ")
    for k in OPT:
        if k == "custom" or k not in t: continue
        v = t[k]
        if k == "temperature" and v <= -273.15 or k == "battery_voltage" and v < 0 or k == "snr" and v <= -100: continue
        o[NAMEMAP.get(k, k)] = v / 1e6 if k == "f_centre" else v
    for n in t.get("custom_field_names", []):
        if n in t and not (isinstance(t[n], float) and not math.isfinite(t[n])):
            o[n] = t[n]
    return o

def judge(a, t, now, tag, check_time=True, meta=META):
    a.add("evaluations")
    exp = oracle(t, now, check_time)
    if exp: exp = dict(exp, **META if meta else {})
    clockshim.NOW[0] = now
    t0 = copy.deepcopy(t)
    md = dict(meta) if meta else None
    try:
        got = U.telem_to_sondehub(t, md, check_time) if meta else U.telem_to_sondehub(t, check_time=check_time)
    except Exception as e:
        a.bad(f"exception:{tag}:{type(e).__name__}", f"{t} at {now}: {e!r}"); return
    ctx = f"telemetry {t0}, receiver time {now}: "
    if not deep_eq(t, t0): a.bad(f"telemetry-modified:{tag}", ctx + f"became {t}")
    if exp is None or not got:
        if (exp is None) != (not got):
            a.bad(f"{'published' if got else 'withheld'}:{tag}", ctx + f"returned {got}, expected {exp}")
        a.add("withheld"); return
    a.add("distinct_nontrivial")
    for k, v in exp.items():
        if k not in got or type(got[k]) is bool and type(v) is not bool or not (got[k] == v or isinstance(v, float) and isinstance(got[k], (int, float)) and abs(got[k] - v) <= 1e-9 * abs(v)):
            a.bad(f"field:{tag}:{k if k in OPTIONAL_OUT or k in exp and k in ('lat','lon','alt','frame','datetime') else 'other'}", ctx + f"{k}: expected {v!r}, published {got.get(k)!r}")
    for k in OPTIONAL_OUT - set(exp):
        if k in got: a.bad(f"field-invented:{tag}:{k}", ctx + f"{k}={got[k]!r} published")
    try:
        json.dumps(got, allow_nan=False)
    except Exception as e:
        a.bad(f"not-json:{tag}", ctx + repr(e))

NOWS = [utc(2024, 6, 15, 12, 0, 0), utc(2024, 2, 29, 0, 0, 0), utc(2024, 2, 28, 23, 59, 59), utc(2023, 12, 31, 23, 58, 30), utc(2024, 1, 1, 0, 1, 0), utc(2024, 3, 1, 0, 2, 59, 500000), utc(2023, 2, 28, 23, 57, 0, 1), utc(2024, 10, 31, 23, 0, 0),
        utc(2024, 6, 15, 1, 0, 0), utc(2024, 6, 15, 22, 59, 59, 999999), utc(2024, 6, 15, 0, 3, 0), utc(2024, 6, 15, 23, 57, 1)]
def w_time(a, item):
    now, offs = item
    for d in offs:
        tt = (now + datetime.timedelta(seconds=d)).strftime("%H:%M:%S")
        judge(a, dict(BASE, time=tt), now, "time")
        if d % 7 == 0: judge(a, dict(BASE, time=tt), now, "time-unchecked", check_time=False)
    a.sample(f"receiver {now}, payload {tt}")

def hms(now, d=0):
    return (now + datetime.timedelta(seconds=d)).strftime("%H:%M:%S")

def with_custom(t, c):
    t = dict(t)
    t.update({k: v for k, v in c.items() if v is not None})
    t["custom_field_names"] = list(c)
    return t

def w_gate(a, _):
    for via, call, off, alt, tm, ct, meta in itertools.product((None, "sondehub", "nohub", "unknown", "", "SondeHub", "other"), ("MC-20", "UNKNOWN_PAYLOAD_ID", "4FSKTEST-V2", "4FSKTEST", "", "UNKNOWN", "X UNKNOWN_PAYLOAD_ID"), (0, 59, 61, -61, 180, -180, 181, -181), (True, False), (True, False), (True, False), (META, None)):
        t = dict(BASE, callsign=call, time=hms(NOWS[3], off))
        if via is not None: t["via"] = via
        if not alt: del t["altitude"]
        if not tm: del t["time"]
        judge(a, t, NOWS[3], "gate", ct, meta)

def w_presence(a, rng):
    ks = list(OPT)
    now = NOWS[4]
    for m in rng:
        for prof in range(4):
            t = dict(BASE, time=hms(now))
            for i, k in enumerate(ks):
                if m >> i & 1:
                    v = OPT[k][(prof * 5 + i * (prof > 1)) % len(OPT[k])] if prof < 3 else OPT[k][-1]
                    t = with_custom(t, v) if k == "custom" else dict(t, **{k: v})
            judge(a, t, now, "presence")

def w_pairs(a, item):
    k1, k2 = item
    now = NOWS[0]
    for v1 in OPT[k1]:
        for v2 in OPT[k2]:
            t = dict(BASE)
            for k, v in ((k1, v1), (k2, v2)):
                t = with_custom(t, v) if k == "custom" else dict(t, **{k: v})
            judge(a, t, now, "pairs")

POS = [-180.0, -90.0, -0.00001, 0, 0.0, 12.3456789, 90.0, 180.0]
def w_values(a, _):
    for la, lo, al, fr in itertools.product(POS, POS, (0, 1, 50000, 65535, -999), (0, 1, 65535, 4294967296)):
        judge(a, dict(BASE, latitude=la, longitude=lo, altitude=al, sequence_number=fr), NOWS[0], "values")

SWEEP = {"temperature": lambda: [x / 10 for x in range(-3000, 3000)] + list(range(-274, 300)), "satellites": lambda: range(256), "battery_voltage": lambda: [5 * x / 255 for x in range(256)] + [x / 1000 for x in range(0, 16384, 16)],
         "speed": lambda: list(range(512)) + [x * 0.036 for x in range(0, 51200, 64)], "vel_h": lambda: [x / 100 for x in range(0, 51200, 32)], "vel_v": lambda: [x / 100 for x in range(-32768, 32768, 64)],
         "snr": lambda: [-999.0, -101.0] + [x / 4 for x in range(-399, 400)], "f_centre": lambda: [0.5 * x for x in range(4000)] + [x * 1e6 + 137.5 for x in range(100, 1300)], "tone_spacing": lambda: range(2000), "baud_rate": lambda: range(1201),
         "latitude": lambda: [x / 20 for x in range(-1800, 1801)], "longitude": lambda: [x / 20 for x in range(-3600, 3601)], "altitude": lambda: range(-1000, 65536, 7), "sequence_number": lambda: range(65536)}
def w_sweep(a, item):
    k, vals = item
    for v in vals: judge(a, dict(BASE, **{k: v}), NOWS[0], "sweep:" + k)

def w_customsweep(a, _):
    """each field of the reserved names and of other names, numbers, text and flags of every size"""
    for v in [x / 10 for x in range(-3000, 3000, 7)] + list(range(-300, 300)) + [s * 2 ** n for n in range(80) for s in (1, -1)] + [s * 10.0 ** n for n in range(-40, 40) for s in (1, -1)] + ["x" * n for n in range(40)] + [True, False, ""]:
        for n in ("ext_temperature", "ext_humidity", "ascent_rate", "c_0_0", "flag_0_b3", "custom_data"):
            judge(a, with_custom(BASE, {n: v}), NOWS[0], "sweep:custom")

def w_decoders(a, item):
    kind, arg = item
    import horusdemodlib.decoder as D
    now = NOWS[0]
    if kind == "v12":
        for t, la, cu in itertools.product(((12, 0, 0), (11, 57, 0), (12, 3, 1)), c12.F, range(3)):
            for p in ((c12.mk22(t=t, lat=la, lon=la), c12.mk32(t=t, lat=la, cust=[bytes(9), b"\xff" * 9, b"\x7f\x7f\x80\0\0\x80\x7f\0\x80"][cu]), c12.mk32(300, t=t, lon=la, cust=[bytes(9), b"\xff" * 9, b"\1\x7f\x80\0\0\xc0\x7f\0\x80"][cu]), c12.mk16(bi=21600 + (t[1] - 0) * 30 if t[0] == 12 else 21510), c12.mk32(500, t=t), c12.mk22(pid=99, t=t))):
                try: d = D.decode_packet(p)
                except ValueError: continue
                judge(a, d, now, "from-" + d["modulation"].split()[-1])
    elif kind == "v3":
        k, v, off = arg
        t = dict(dict(MIN, timeOfDaySeconds=43200 + off), **({k: v} if k else {}))
        try: d = D.decode_packet(hcrc(uper.encode(t)))
        except Exception: return
        judge(a, d, now, "from-v3")
        if k == "customData" or k == "extraSensors" or k == "via":
            d["snr"] = 5.0; d["f_centre"] = 401500000; judge(a, d, now, "from-v3")
    elif kind == "rtty":
        for tail in ("", ",1,2.5"):
            d = D.parse_ukhas_string(sentence("HORUS,5,12:00:30,-34.5,138.5,100" + tail))
            d["snr"] = 3.0
            judge(a, d, now, "from-rtty")
            d = D.parse_ukhas_string(sentence("HORUS,5,120330,-34.5,138.5,100" + tail)); judge(a, d, now, "from-rtty")

def w_uploader(a, _):
    """the uploader's own formatting carries its metadata, and only eligible telemetry reaches the queue"""
    import horusdemodlib.sondehubamateur as S
    import world
    now = NOWS[0]
    clockshim.NOW[0] = now
    recs = [dict(BASE), dict(BASE, via="nohub"), dict(BASE, callsign="UNKNOWN_PAYLOAD_ID"), dict(BASE, time="12:03:01"), dict(BASE, time="11:57:00", sequence_number=78), {k: v for k, v in BASE.items() if k != "altitude"}, dict(BASE, via="sondehub", sequence_number=79, x_0_0=float("nan"), custom_field_names=["x_0_0"])]
    for perm in itertools.permutations(range(len(recs)), 3):
        w = world.World(S, {}, None)
        def main():
            up = S.SondehubAmateurUploader(upload_rate=2, user_callsign="RX", user_position=(1, 2, 3), user_radio="r", user_antenna="an", software_name="sw", software_version="9")
            for i in perm: up.add(copy.deepcopy(recs[i]))
            up.close()
            w.point(cond=lambda: all(t.done for t in w.threads if t is not w.main), free=True)
        w.run(main)
        a.add("evaluations"); a.add("distinct_nontrivial")
        if w.problem or w.errors: a.bad("uploader-run", f"{w.problem} {w.errors}"); continue
        import gzip
        got = [x for r in w.requests if r["kind"] == "telemetry" for x in json.loads(gzip.decompress(r["data"]))]
        want = [recs[i]["sequence_number"] for i in perm if i in (0, 4, 6)]
        if [x["frame"] for x in got] != want: a.bad("uploader-eligibility", f"records {perm}: uploaded frames {[x['frame'] for x in got]} instead of {want}")
        for x in got:
            for k, v in {"uploader_callsign": "RX", "uploader_position": [1, 2, 3], "uploader_radio": "r", "uploader_antenna": "an", "software_name": "sw", "software_version": "9", "lat": -34.5, "lon": 138.25, "alt": 12345}.items():
                if x.get(k) != v: a.bad(f"uploader-metadata:{k}", f"{k}={x.get(k)!r} in {x}")
            tr = x.get("time_received", "")
            try: datetime.datetime.strptime(tr, "%Y-%m-%dT%H:%M:%S.%fZ")
            except ValueError: a.bad("uploader-metadata:time_received", tr)

def run(chk):
    global U
    import_repo(ext=False); quiet()
    import horusdemodlib.utils as U, horusdemodlib.delegates as G, horusdemodlib.decoder as D, horusdemodlib.payloads as P
    clockshim.install(U, G)
    P.HORUS_PAYLOAD_LIST = dict(c12.ID); P.HORUS_CUSTOM_FIELDS = copy.deepcopy(c12.CUST)
    chk.cov["rule"] = "evaluation = one telemetry record offered at one receiver time; non-trivial = the record is published and all its fields are compared"
    offs = list(range(-400, 401)) + [s * x for s in (1, -1) for x in list(range(401, 43200, 61 if chk.quick else 7)) + [3599, 3600, 3601, 7200, 43199]]
    pmap(chk, w_time, [(n, c) for n in (NOWS if chk.quick else NOWS + [utc(2024, 5, 5, h, m, s) for h in (0, 11, 23) for m in (0, 2, 3, 30, 57, 58, 59) for s in (0, 30, 59)]) for c in chunks(offs, 400)])
    run1(chk, w_gate)
    pmap(chk, w_presence, chunks(range(1 << len(OPT)), 256))
    pmap(chk, w_pairs, list(itertools.permutations(OPT, 2)))
    run1(chk, w_values); run1(chk, w_uploader); run1(chk, w_customsweep)
    pmap(chk, w_sweep, [(k, c) for k, f in SWEEP.items() for c in chunks(list(f()), 2000)])
    items = [("v12", None), ("rtty", None)] + [("v3", (k, v, o)) for k, vs in {**c13.BND, **c13.REQ, None: [None]}.items() for v in vs for o in (0, 180, -181)]
    pmap(chk, w_decoders, items)

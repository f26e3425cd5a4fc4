"""C16: the generated C codec, the Python codec and an independent reference encoder agree on every enumerated telemetry value."""
import itertools, os, struct, subprocess, sys
import pymc, uper, vlib
from checks.v3common import MIN
LEVEL = "exploration"
ASSUMPTIONS = ["Unbounded integers are compared inside the C long range the generated code stores.",
               "The extension field 'via' does not exist in the generated C code: such messages are only checked to be decodable by C with every other field intact."]

V3 = "horusbinaryv3/clib"

def v3_srcs():
    d = os.path.join(vlib.REPO, V3)
    return [f"{V3}/{f}" for f in sorted(os.listdir(d)) if f.endswith(".c")]

def v3_build(name, flags=(), cc="gcc", opt="-O1"):
    return vlib.cbuild(name, ["v3c.c"], v3_srcs(), cflags=flags, cc=cc, opt=opt, defs=["-DASN_DISABLE_OER_SUPPORT=1"], incs=(V3,))

def fhex(x):
    x = float(x)
    return "nan" if x != x else "%016x" % struct.unpack(">Q", struct.pack(">d", x))[0]

def raw(s):
    return (s if isinstance(s, bytes) else s.encode("latin1")).hex()

TK = [("velocityHorizontalKilometersPerHour", "vel"), ("gnssSatellitesVisible", "sat"), ("ascentRateCentimetersPerSecond", "asc"), ("pressurehPa-x10", "prs")]
def tokens(t, gps=None):
    """canonical text of a telemetry value, the same the C side prints"""
    o = [f"cs={raw(t['payloadCallsign'])}"] + [f"{k}={t[n]}" for k, n in (("sn", "sequenceNumber"), ("tod", "timeOfDaySeconds"), ("lat", "latitude"), ("lon", "longitude"), ("alt", "altitudeMeters"))]
    if "extraSensors" in t:
        o.append("X")
        for s in t["extraSensors"]:
            o.append("S")
            if "name" in s: o.append("n=" + raw(s["name"]))
            if "values" in s:
                k, v = s["values"]
                o.append({"horusStr": lambda: "t=" + raw(v), "horusInt": lambda: "i=" + ",".join(map(str, v)), "horusReal": lambda: "r=" + ",".join(map(fhex, v)),
                          "horusBool": lambda: "b=%d" % sum(bool(v[f"b{i}"]) << i for i in range(8))}[k]())
    for n, k in TK:
        if n in t: o.append(f"{k}={t[n]}")
    if "temperatureCelsius-x10" in t:
        o.append("T"); x = t["temperatureCelsius-x10"]
        o += [f"{k}={x[n]}" for n, k in (("internal", "ti"), ("external", "te"), ("custom1", "tc"), ("custom2", "td")) if n in x]
    if "humidityPercentage" in t: o.append(f"hum={t['humidityPercentage']}")
    if "milliVolts" in t:
        o.append("V"); x = t["milliVolts"]
        o += [f"{k}={x[n]}" for n, k in (("battery", "vb"), ("solar", "vs"), ("custom1", "vc"), ("custom2", "vd")) if n in x]
    if "counts" in t: o.append("cnt=" + ",".join(map(str, t["counts"])))
    if "gnssPowerSaveState" in t:
        g = t["gnssPowerSaveState"]
        o.append("gps=%d" % (g if isinstance(g, int) else uper.GNSS.index(g)))
    if "customData" in t: o.append("cd=" + t["customData"].hex())
    return " ".join(o)

class CCodec:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, **vlib.ASAN_ENV))
    def ask(self, line):
        self.p.stdin.write(line.encode() + b"\n"); self.p.stdin.flush()
        r = self.p.stdout.readline().decode()
        if not r:
            raise RuntimeError("the C codec stopped")
        return r.rstrip("\n")
    def encode(self, t):
        ok, bits, *h = self.ask("E " + tokens(t)).split(" ")
        return ok == "1", int(bits), bytes.fromhex(h[0]) if h else b""
    def decode(self, b):
        code, bits, ok, *rest = self.ask("D " + b.hex()).split(" ")
        return int(code), int(bits), ok == "1", " ".join(rest)
    def close(self):
        self.p.stdin.close(); self.p.wait()

INTS = {"sequenceNumber": (0, 65535), "timeOfDaySeconds": (-1, 86400), "latitude": (-9000000, 9000000), "longitude": (-18000000, 18000000), "altitudeMeters": (-1000, 50000),
        "velocityHorizontalKilometersPerHour": (0, 512), "gnssSatellitesVisible": (0, 31), "ascentRateCentimetersPerSecond": (-32767, 32767), "pressurehPa-x10": (0, 12000), "humidityPercentage": (0, 100)}
def walk(lo, hi):
    """boundary and bit-walk values of a bounded integer"""
    n = (hi - lo).bit_length()
    s = {lo, lo + 1, hi - 1, hi, (lo + hi) // 2} | {lo + (1 << i) for i in range(n)} | {lo + (1 << i) - 1 for i in range(n + 1)} | {hi - (1 << i) for i in range(n)} | {v for v in (-1, 0, 1) if lo <= v <= hi}
    return sorted(v for v in s if lo <= v <= hi)
UNB = sorted({s * ((1 << i) + d) for i in range(0, 63) for d in (-1, 0, 1) for s in (1, -1)} | {(1 << 63) - 1, -(1 << 63), 1 - (1 << 63)})
REALS = sorted({s * m * 2.0 ** e for e in list(range(-40, 41, 1)) + [-1074, -1073, -1050, -1023, -1022, -1021, -512, -300, -129, -128, -127, -126, -80, -76, 52, 53, 54, 62, 63, 64, 127, 128, 129, 180, 181, 300, 511, 512, 970, 971]
                for m in (1.0, 1.5, 255.0, 1 + 2.0 ** -52, 123.456) for s in (1, -1)} | {0.0, 0.1, -0.1, 3.14159, 1e-308, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, -5e-324, 2.2250738585072014e-308, 65535.0, 65536.0, 16777217.0})
REALS += [m * 2.0 ** e for m in range(1, 600) for e in (-9, 0, 5)] + [-m * 2.0 ** e for m in range(601, 2200, 7) for e in (-30, 0, 100, -1074)]
REALS = sorted(set(REALS)) + [float("inf"), float("-inf"), float("nan")]
OPTV = {  # two profiles of values per optional field
    "extraSensors": ([{"name": "abc-9", "values": ("horusInt", [1, -1])}], [{}, {"values": ("horusReal", [1.5])}, {"name": "x"}, {"values": ("horusStr", "a Z+/=-.")}]),
    "velocityHorizontalKilometersPerHour": (0, 512), "gnssSatellitesVisible": (31, 8), "ascentRateCentimetersPerSecond": (-32767, 555), "pressurehPa-x10": (12000, 1),
    "temperatureCelsius-x10": ({"internal": -1023, "custom2": 1023}, {}), "humidityPercentage": (100, 0), "milliVolts": ({"battery": 16383, "custom1": 0}, {"solar": 1}),
    "counts": ([0], [1, -128, 128, 2 ** 31, -2 ** 31, 2 ** 62, 0, 255]), "gnssPowerSaveState": ("inactive", "psmNotActive"), "customData": (b"", b"\x00\xff\x55")}

def full(profile=0):
    return dict(MIN, **{k: v[profile] for k, v in OPTV.items()})

def variants(quick):
    """(label, value) pairs inside the constraints"""
    for p in (0, 1):
        for n in range(len(OPTV) + 1):
            for c in itertools.combinations(OPTV, n):
                yield "presence", dict(MIN, **{k: OPTV[k][p] for k in c})
    for k, (lo, hi) in INTS.items():
        for v in walk(lo, hi):
            yield "int:" + k, dict(MIN, **{k: v})
            yield "int:" + k, dict(full(), **{k: v})
    for k in ("velocityHorizontalKilometersPerHour", "gnssSatellitesVisible", "humidityPercentage"):
        for v in range(INTS[k][0], INTS[k][1] + 1):
            yield "int:" + k, dict(MIN, **{k: v})
    if not quick:
        for k in ("sequenceNumber", "timeOfDaySeconds", "altitudeMeters", "ascentRateCentimetersPerSecond", "pressurehPa-x10"):
            for v in range(INTS[k][0], INTS[k][1] + 1):
                yield "int:" + k, dict(MIN, **{k: v})
    bnd = {k: [lo, lo + 1, (lo + hi) // 2, hi - 1, hi] for k, (lo, hi) in INTS.items()}
    for a, b in itertools.combinations(INTS, 2):
        for x in bnd[a]:
            for y in bnd[b]:
                yield "pair", dict(MIN, **{a: x, b: y})
    for n in range(1, 16):                                            # callsigns: every length, every character at every place of several lengths
        yield "callsign", dict(MIN, payloadCallsign="-/aZ09bYcX18dWe"[:n])
        for c in uper.CALL:
            yield "callsign", dict(MIN, payloadCallsign=c * n)
            for i in range(n):
                yield "callsign", dict(MIN, payloadCallsign="m" * i + c + "m" * (n - 1 - i))
    for grp, names, lo, hi in (("temperatureCelsius-x10", ["internal", "external", "custom1", "custom2"], -1023, 1023), ("milliVolts", ["battery", "solar", "custom1", "custom2"], 0, 16383)):
        for r in range(5):
            for c in itertools.combinations(names, r):
                for vs in itertools.product([lo, (lo + hi) // 2 + 1, hi], repeat=r):
                    yield grp, dict(MIN, **{grp: dict(zip(c, vs))})
        for nme in names:
            for v in (range(lo, hi + 1) if not quick or grp[0] == "t" else walk(lo, hi)):
                yield grp, dict(MIN, **{grp: {nme: v}})
    for g in uper.GNSS:
        yield "gnss", dict(MIN, gnssPowerSaveState=g)
        yield "gnss", dict(full(), gnssPowerSaveState=g)
    for n in range(1, 9):
        for v in UNB:
            if n <= 2 or abs(v) in (0, 1, 127, 128, 129, 32767, 32768, 2 ** 31, 2 ** 62, 2 ** 63):
                yield "counts", dict(MIN, counts=[v] * n)
                yield "counts", dict(MIN, counts=[1] * (n - 1) + [v])
    for n in range(256):
        for fill in (b"\x00", b"\xff", b"\xa5"):
            yield "customData", dict(MIN, customData=fill * n)
    for v in range(256):
        yield "customData", dict(MIN, customData=bytes([v]))
    for n in range(1, 21):
        for c in uper.NAME:
            yield "sensor-name", dict(MIN, extraSensors=[{"name": c * n}])
            yield "sensor-name", dict(MIN, extraSensors=[{"name": "k" * (n - 1) + c, "values": ("horusInt", [n])}])
    for n in range(256):
        yield "sensor-str", dict(MIN, extraSensors=[{"values": ("horusStr", (uper_cycle * 4)[n % 7:][:n])}])
    for c in uper.STR:
        for n in (1, 2, 3, 9):
            yield "sensor-str", dict(MIN, extraSensors=[{"name": "s", "values": ("horusStr", c * n)}])
            yield "sensor-str", dict(MIN, extraSensors=[{"values": ("horusStr", "z" * (n - 1) + c)}, {"values": ("horusInt", [5])}])
    for v in UNB:
        for n in range(1, 5):
            yield "sensor-int", dict(MIN, extraSensors=[{"values": ("horusInt", [v] * n)}])
    for v in REALS:
        for n in (1, 4):
            yield "sensor-real", dict(MIN, extraSensors=[{"values": ("horusReal", [v] * n)}])
        yield "sensor-real", dict(MIN, extraSensors=[{"values": ("horusReal", [1.0, v, -2.5])}])
    for m in range(256):
        yield "sensor-bool", dict(MIN, extraSensors=[{"values": ("horusBool", {f"b{i}": bool(m >> i & 1) for i in range(8)})}])
    bits = {f"b{i}": i % 3 == 0 for i in range(8)}
    S = [{}, {"name": "n"}, {"values": ("horusInt", [7])}, {"name": "a-1", "values": ("horusInt", [1, 2, 3, 4])}, {"values": ("horusReal", [0.5])}, {"name": "r", "values": ("horusReal", [1e300, -0.25])},
         {"values": ("horusStr", "")}, {"name": "abcdefghijklmnopqrst", "values": ("horusStr", "Hi")}, {"values": ("horusBool", bits)}, {"name": "0", "values": ("horusBool", bits)}]
    for n in range(1, 5):
        for c in itertools.product(S, repeat=n):
            if n < 4 or not quick or sum(map(S.index, c)) % 7 == 0:   # the four-sensor product is thinned in the quick tier only
                yield f"sensors{n}", dict(MIN, extraSensors=list(c))
    for p in (0, 1):
        for k in OPTV:                                                # every field absent / alone next to each profile of the others
            d = full(p); d.pop(k); yield "absent", d
    for v in ("sondehub", "nohub"):
        for p in (0, 1):
            for n in (0, 1, 2, len(OPTV)):
                for c in itertools.combinations(OPTV, n):
                    yield "via", dict(MIN, via=v, **{k: OPTV[k][p] for k in c})
uper_cycle = "".join(uper.STR)

def outside():
    """(label, value, refusable by python types) values just outside the constraints"""
    for k, (lo, hi) in INTS.items():
        n = (hi - lo).bit_length()
        for v in {lo - 1, lo - 2, hi + 1, hi + 2, lo + (1 << n) - 1 if lo + (1 << n) - 1 > hi else hi + 3, hi + (1 << n), lo - (1 << n), 2 ** 31, -2 ** 31 - 1, 2 ** 32 + lo, 2 ** 62, -2 ** 62}:
            yield k, dict(MIN, **{k: v}); yield k, dict(full(), **{k: v})
    for grp, names, lo, hi in (("temperatureCelsius-x10", ["internal", "external", "custom1", "custom2"], -1023, 1023), ("milliVolts", ["battery", "solar", "custom1", "custom2"], 0, 16383)):
        for nme in names:
            for v in (lo - 1, hi + 1, 2 ** 40, -2 ** 40, lo - 2, hi + 2):
                yield f"{grp}.{nme}", dict(MIN, **{grp: {nme: v}})
    yield "payloadCallsign", dict(MIN, payloadCallsign="")
    for n in (16, 17, 20, 255):
        yield "payloadCallsign", dict(MIN, payloadCallsign="a" * n)
    for c in range(1, 128):
        ch = chr(c)
        if ch not in uper.CALL:
            for pos in range(3):
                yield "payloadCallsign", dict(MIN, payloadCallsign="ab"[:pos] + ch + "ab"[pos:])
        if ch not in uper.NAME:
            yield "name", dict(MIN, extraSensors=[{"name": "a" + ch}]); yield "name", dict(MIN, extraSensors=[{"name": ch}])
        if ch not in uper.STR:
            yield "horusStr", dict(MIN, extraSensors=[{"values": ("horusStr", "a" + ch)}])
    yield "name", dict(MIN, extraSensors=[{"name": ""}])
    for n in (21, 22, 40):
        yield "name", dict(MIN, extraSensors=[{"name": "a" * n}])
        yield "name", dict(MIN, extraSensors=[{}, {"name": "a" * n}])
    for n in (256, 257, 300, 1000):
        yield "horusStr", dict(MIN, extraSensors=[{"values": ("horusStr", "a" * n)}])
        yield "customData", dict(MIN, customData=b"a" * n)
    for n in (0, 5, 6, 8, 9):
        yield "extraSensors", dict(MIN, extraSensors=[{}] * n)
        yield "horusInt", dict(MIN, extraSensors=[{"values": ("horusInt", [1] * n)}])
        yield "horusReal", dict(MIN, extraSensors=[{"values": ("horusReal", [1.0] * n)}])
    for n in (0, 9, 10, 16, 17):
        yield "counts", dict(MIN, counts=[1] * n)
    for v in (6, 7, 8, -1, 100):
        yield "gnssPowerSaveState", dict(MIN, gnssPowerSaveState=v)

ENCODER_REFUSES = ("out:extraSensors", "out:gnssPowerSaveState")      # the size of the named sensor list and enumeration values are only looked at when encoding

def rawbad(quick):
    """bit patterns that carry a value outside the schema although they fit the field"""
    R = {"velocityHorizontalKilometersPerHour": (513, 1023), "pressurehPa-x10": (12001, 16383), "humidityPercentage": (101, 127), "timeOfDaySeconds": (86401, 131070), "latitude": (9000001, 33554431 - 9000000),
         "longitude": (18000001, 67108863 - 18000000), "altitudeMeters": (50001, 64535), "ascentRateCentimetersPerSecond": (32768, 32768), "gnssPowerSaveState": (6, 7)}
    for k, (lo, hi) in R.items():
        for v in range(lo, hi + 1) if hi - lo < 600 or not quick and hi - lo < 50000 else sorted(set(walk(lo, hi))):
            yield k, dict(MIN, **{k: v})
    for n in ("internal", "external", "custom1", "custom2"):
        yield "temperature", dict(MIN, **{"temperatureCelsius-x10": {n: 1024}})
    yield "payloadCallsign", dict(MIN, payloadCallsign="A" * 16)
    for n in range(21, 33): yield "name", dict(MIN, extraSensors=[{"name": "a" * n}])
    for c in range(37, 64): yield "name", dict(MIN, extraSensors=[{"name": [c]}])
    for c in range(128):
        if chr(c) not in uper.STR: yield "horusStr", dict(MIN, extraSensors=[{"values": ("horusStr", [c])}])

def known(acc, what):
    acc.add("text_sensor_disagreements")
    if acc.stat["text_sensor_disagreements"] == 1:
        acc.bad("text-sensor-characters", what)

def work(acc, a):
    from horusdemodlib.decoder import HORUS_ASN
    exe, mod, n, quick = a
    cc = CCodec(exe)
    gen = itertools.chain((("in:" + l, t) for l, t in variants(quick)), (("out:" + l, t) for l, t in outside()), (("raw:" + l, t) for l, t in rawbad(quick)))
    for label, t in itertools.islice(gen, mod, None, n):
        bad = lambda key, what: acc.bad(f"{key}:{label.split(':')[1]}", f"{what}; value {str(t)[:400]}")
        if label.startswith("raw:"):
            acc.add("messages_outside_constraints")
            b = uper.encode(t)
            try:
                code, bits, ok, txt = cc.decode(b)
                if code == 0 and ok: bad("c-accepts-outside", f"C accepts {b.hex()} as {txt}")
            except RuntimeError as e:
                bad("c-stopped", str(e)); cc = CCodec(exe)
            try:
                if not (label == "raw:horusStr" and t["extraSensors"][0]["values"][1][0] < len(uper.STR)):
                    bad("python-accepts-outside", str(HORUS_ASN.decode("Telemetry", b, check_constraints=True)))
            except Exception:
                pass
            continue
        if label.startswith("out:"):
            acc.add("values_outside_constraints")
            try:
                ok, bits, b = cc.encode(t)
            except RuntimeError as e:
                bad("c-stopped", str(e)); cc = CCodec(exe); continue
            if ok and (bits >= 0 or label not in ENCODER_REFUSES):
                bad("c-accepts-outside", f"C constraint checking passes ({bits} bits are produced)")
            try:
                b = HORUS_ASN.encode("Telemetry", t, check_constraints=True, check_types=True)
                bad("python-accepts-outside", b.hex())
            except Exception:
                pass
            continue
        acc.add("evaluations")
        pyb = HORUS_ASN.encode("Telemetry", t, check_constraints=True, check_types=True)
        ref = uper.encode(t)
        if pyb != ref:
            bad("python-bits", f"python {pyb.hex()} reference {ref.hex()}")
        want = tokens(t)
        text = any("values" in x and x["values"][0] == "horusStr" and x["values"][1] for x in t.get("extraSensors", []))
        cref = uper.encode(t, ascii_text=True) if text else ref   # the recorded finding: C carries text sensors as plain character codes; everything else must still match to the bit
        try:
            if "via" not in t:
                acc.add("distinct_nontrivial")
                ok, bits, cb = cc.encode(t)
                if not ok: bad("c-refuses", "C constraint checking refuses a value the schema allows")
                elif text and cb == cref != pyb: known(acc, f"C {cb.hex()} python {pyb.hex()} for {want}")
                elif cb != pyb: bad("bits-differ", f"C {cb.hex() if bits >= 0 else 'cannot encode'} python {pyb.hex()}")
                if cb == pyb:
                    try:
                        back = HORUS_ASN.decode("Telemetry", cb, check_constraints=True)
                        if tokens(back) != want: bad("python-decodes-c", f"{tokens(back)} instead of {want}")
                    except Exception as e:
                        bad("python-decodes-c", repr(e))
            back = HORUS_ASN.decode("Telemetry", pyb, check_constraints=True)
            if tokens(back) != want or back.get("via") != t.get("via"): bad("python-decodes-python", f"{tokens(back)} instead of {want}")
            for src in dict.fromkeys((pyb, cref)):
                for extra in (0, 7):                                      # as encoded, and with the zero padding of a transmitted packet
                    code, bits, ok, txt = cc.decode(src + bytes(extra))
                    if src == pyb and text and pyb != cref:
                        if code == 0 and ok and txt == want: acc.add("text_read_alike")
                        else: known(acc, f"C reads {pyb.hex()} as code {code} constraints {ok} {txt}, sent {want}")
                    elif code != 0 or not ok: bad("c-decodes-python", f"code {code}, constraints {ok}, {src.hex()}")
                    elif txt != want: bad("c-decodes-python", f"{txt} instead of {want}")
                    elif not (len(src) - 1) * 8 < bits <= len(src) * 8: bad("c-consumed", f"{bits} bits of {len(src)} bytes")
        except RuntimeError as e:
            bad("c-stopped", str(e)); cc = CCodec(exe)
        if acc.stat["evaluations"] in (5, 500): acc.sample(f"{label}: {str(t)[:200]}")
    cc.close()

def run(chk):
    vlib.import_repo(ext=False); pymc.quiet()
    import horusdemodlib.decoder
    exe = v3_build("v3c")
    n = vlib.JOBS * 6
    chk.cov["rule"] = "evaluation = one schema-conforming value encoded by C, Python and the reference encoder (identical bits) and decoded by each side from the other's bits; nontrivial = values the C code can represent"
    pymc.pmap(chk, work, [(exe, i, n, chk.quick) for i in range(n)])

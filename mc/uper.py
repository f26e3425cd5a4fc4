"""Independent unaligned-PER encoder for the published HorusBinaryV3 Telemetry schema (no project code, no asn1tools).
Out-of-constraint raw values are encoded bit-for-bit when they fit the field, so malformed packets can be built."""
import math, struct

CALL = sorted("-/abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
NAME = sorted("abcdefghijklmnopqrstuvwxyz0123456789-")
STR = sorted("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ +/=-.")
GNSS = ["psmNotActive", "enabled", "acquisition", "tracking", "optimised", "inactive"]
VIA = ["sondehub", "nohub", "unknown"]

class Bits:
    def __init__(self, ascii=False):
        self.b, self.ascii = [], ascii
    def put(self, v, n):
        assert 0 <= v < (1 << n), (v, n)
        for i in range(n - 1, -1, -1):
            self.b.append(v >> i & 1)
    def octets(self, bs):
        for x in bs:
            self.put(x, 8)
    def bytes(self):
        n = -len(self.b) % 8
        if not self.b: return b""
        return (int("".join(map(str, self.b)), 2) << n).to_bytes((len(self.b) + n) // 8, "big")

def cint(w, v, lo, hi):
    w.put(v - lo, (hi - lo).bit_length())

def length(w, n):
    if n < 128:
        w.put(n, 8)
    else:
        assert n < 16384
        w.put(0x8000 | n, 16)

class Raw(bytes):
    """the octets of a field as they stand, length octets included"""

def uint(w, v):
    if isinstance(v, Raw): return w.octets(v)
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    length(w, n)
    w.octets(v.to_bytes(n, "big", signed=True))

def real_octets(v):
    v = float(v)
    if v == 0:
        return b""
    if math.isinf(v):
        return b"\x40" if v > 0 else b"\x41"
    if v != v:
        return b"\x42"
    m, e = math.frexp(abs(v))
    m = int(m * 2 ** 53); e -= 53
    while m % 2 == 0:
        m //= 2; e += 1
    eb = e.to_bytes(1 if -128 <= e <= 127 else 2, "big", signed=True)
    mb = m.to_bytes(m.bit_length() // 8 + 1, "big")           # with a zero octet in front when the top bit would be set, as both project codecs write it
    return bytes([0x80 | (0x40 if v < 0 else 0) | (len(eb) - 1)]) + eb + mb

def real(w, v):
    if isinstance(v, Raw): return w.octets(v)
    o = real_octets(v)
    length(w, len(o))
    w.octets(o)

def table(w, s, tab, lo, hi):
    w.put(len(s) - lo, (hi - lo).bit_length())
    bits = (len(tab) - 1).bit_length()
    for c in s:
        w.put(c if isinstance(c, int) else tab.index(c), bits)

def sensor(w, s):
    w.put(int("name" in s), 1); w.put(int("values" in s), 1)
    if "name" in s:
        table(w, s["name"], NAME, 1, 20)
    if "values" in s:
        k, v = s["values"]
        w.put(["horusStr", "horusInt", "horusReal", "horusBool"].index(k), 2)
        if k == "horusStr":
            w.put(len(v), 8)
            for c in v:
                w.put(c if isinstance(c, int) else ord(c) if w.ascii else STR.index(c), 7)
        elif k == "horusBool":
            for i in range(8):
                w.put(int(v[f"b{i}"]), 1)
        else:
            w.put(len(v) - 1, 2)
            for x in v:
                uint(w, x) if k == "horusInt" else real(w, x)

def opt4(w, d, names, lo, hi):
    for n in names:
        w.put(int(n in d), 1)
    for n in names:
        if n in d:
            cint(w, d[n], lo, hi)

OPT = ["extraSensors", "velocityHorizontalKilometersPerHour", "gnssSatellitesVisible", "ascentRateCentimetersPerSecond", "pressurehPa-x10",
       "temperatureCelsius-x10", "humidityPercentage", "milliVolts", "counts", "gnssPowerSaveState", "customData"]

def encode(t, ascii_text=False):
    """ascii_text: text sensor characters as 7-bit codes (X.691 30.5.4, what the generated C code does) instead of alphabet indexes (the Python codec and the pinned compatibility test)"""
    w = Bits(ascii_text)
    w.put(int("via" in t), 1)
    for o in OPT:
        w.put(int(o in t), 1)
    table(w, t["payloadCallsign"], CALL, 1, 15)
    cint(w, t["sequenceNumber"], 0, 65535)
    cint(w, t["timeOfDaySeconds"], -1, 86400)
    cint(w, t["latitude"], -9000000, 9000000)
    cint(w, t["longitude"], -18000000, 18000000)
    cint(w, t["altitudeMeters"], -1000, 50000)
    for o in OPT:
        if o not in t:
            continue
        v = t[o]
        if o == "extraSensors":
            w.put(len(v) - 1, 2)
            for s in v:
                sensor(w, s)
        elif o == "velocityHorizontalKilometersPerHour": cint(w, v, 0, 512)
        elif o == "gnssSatellitesVisible": cint(w, v, 0, 31)
        elif o == "ascentRateCentimetersPerSecond": cint(w, v, -32767, 32767)
        elif o == "pressurehPa-x10": cint(w, v, 0, 12000)
        elif o == "temperatureCelsius-x10": opt4(w, v, ["internal", "external", "custom1", "custom2"], -1023, 1023)
        elif o == "humidityPercentage": cint(w, v, 0, 100)
        elif o == "milliVolts": opt4(w, v, ["battery", "solar", "custom1", "custom2"], 0, 16383)
        elif o == "counts":
            w.put(len(v) - 1, 3)
            for x in v:
                uint(w, x)
        elif o == "gnssPowerSaveState": w.put(v if isinstance(v, int) else GNSS.index(v), 3)
        elif o == "customData":
            w.put(len(v), 8); w.octets(v)
    if isinstance(t.get("via"), list):    # the whole extension part, bit by bit
        w.b += t["via"]
    elif "via" in t:
        w.put(0, 1); w.put(0, 6)          # one extension addition
        w.put(1, 1)                       # present
        w.put(1, 8)                       # open type of one octet
        w.put((t["via"] if isinstance(t["via"], int) else VIA.index(t["via"])) << 5, 8)
    return w.bytes()

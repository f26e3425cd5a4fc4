"""Expected decode_packet mapping of a version 3 message, written from the published schema and README; shared by C13, C14, C20, C21."""
import re
MIN = {"payloadCallsign": "MC-1", "sequenceNumber": 7, "timeOfDaySeconds": 3723, "latitude": -3400001, "longitude": 13800001, "altitudeMeters": 1234}
UNIVERSE = (["altitude", "time", "satellites", "speed", "ascent_rate", "ext_pressure", "ext_humidity", "temperature", "ext_temperature", "temperature_custom_1",
             "temperature_custom_2", "battery_voltage", "solar_voltage", "custom1_voltage", "custom2_voltage", "gnss_power_save_state", "via", "custom_data", "latitude",
             "longitude", "payload_id", "callsign", "sequence_number"] + [f"count_{i}" for i in range(8)])

def expected(t, names=None):
    """-> (values, sorted extra field names). names: remembered {slot: name} for this payload."""
    o, x = {}, []
    o["payload_id"] = o["callsign"] = t["payloadCallsign"]
    o["sequence_number"] = t["sequenceNumber"]
    if t["timeOfDaySeconds"] >= 0:
        s = t["timeOfDaySeconds"] % 86400
        o["time"] = "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
    o["latitude"], o["longitude"] = t["latitude"] / 1e5, t["longitude"] / 1e5
    if t["altitudeMeters"] != -1000:
        o["altitude"] = t["altitudeMeters"]
    def std(key, name, div=1):
        if key in t:
            o[name] = t[key] / div if div != 1 else t[key]
    def extra(name, v):
        o[name] = v; x.append(name)
    std("gnssSatellitesVisible", "satellites"); std("velocityHorizontalKilometersPerHour", "speed")
    if "ascentRateCentimetersPerSecond" in t: extra("ascent_rate", t["ascentRateCentimetersPerSecond"] / 100)
    if "pressurehPa-x10" in t: extra("ext_pressure", t["pressurehPa-x10"] / 10)
    if "humidityPercentage" in t: extra("ext_humidity", t["humidityPercentage"])
    T = t.get("temperatureCelsius-x10", {})
    if "internal" in T: o["temperature"] = T["internal"] / 10
    for k, n in (("external", "ext_temperature"), ("custom1", "temperature_custom_1"), ("custom2", "temperature_custom_2")):
        if k in T: extra(n, T[k] / 10)
    V = t.get("milliVolts", {})
    if "battery" in V: o["battery_voltage"] = V["battery"] / 1000
    for k in ("solar", "custom1", "custom2"):
        if k in V: extra(k + "_voltage", V[k] / 1000)
    if "gnssPowerSaveState" in t: extra("gnss_power_save_state", t["gnssPowerSaveState"])
    for i, v in enumerate(t.get("counts", [])): extra(f"count_{i}", v)
    if "via" in t: o["via"] = t["via"]
    if "customData" in t: extra("custom_data", t["customData"].hex())
    for i, s in enumerate(t.get("extraSensors", [])):
        n = s.get("name") or (names or {}).get(i, "unknown")
        if "values" in s:
            k, v = s["values"]
            if k == "horusStr": extra(f"{n}_{i}", v)
            elif k == "horusBool":
                for b in range(8): extra(f"{n}_{i}_b{b}", v[f"b{b}"])
            else:
                for j, y in enumerate(v): extra(f"{n}_{i}_{j}", y)
    return o, x

SENSORKEY = re.compile(r"^[a-z0-9-]+_[0-3](_([0-3]|b[0-7]))?$")

def compare(got, t, names=None):
    """list of (key, text) differences between a decode result and the message sent"""
    exp, x = expected(t, names)
    out = []
    for k, v in exp.items():
        g = got.get(k)
        ok = k in got and (g == v if type(v) is not float else (isinstance(g, (int, float)) and (g == v or g != g and v != v or abs(g - v) <= 1e-12 * max(1, abs(v))))) and isinstance(g, bool) == isinstance(v, bool)
        if not ok:
            out.append((f"value:{k if k in UNIVERSE else 'sensor'}", f"{k}: sent {v!r}, reported {got.get(k, 'nothing')!r}"))
    for k in got:
        if k not in exp and (k in UNIVERSE or SENSORKEY.match(k)):
            out.append((f"extra:{k if k in UNIVERSE else 'sensor'}", f"{k}={got[k]!r} reported but not sent"))
    cf = list(got.get("custom_field_names", []))
    if sorted(cf) != sorted(x):
        out.append(("extra-names", f"extra fields listed {sorted(cf)}, sent {sorted(x)}"))
    f = [x[0] for x in got.get("packet_format", {}).get("fields", [])]
    if len(set(f)) != len(f) or any(n in f and n not in exp for n in ("altitude", "satellites", "speed", "temperature", "battery_voltage")):
        out.append(("format-fields", f"the packet's format lists the fields {f}, which are not those of this packet"))
    if not got.get("crc_ok"):
        out.append(("crc", "crc_ok not set"))
    if got.get("modulation") != "Horus Binary v3":
        out.append(("modulation", got.get("modulation")))
    return out

def pad(b):
    """pad header+message to the next transmitted packet size, as the format documents"""
    for n in (32, 48, 64, 96, 128):
        if len(b) + 2 <= n:
            return b + bytes(n - 2 - len(b))
    return b

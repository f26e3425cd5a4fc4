"""C26: every subset of failing socket calls x every decoder's records through the UDP senders, with a fake network and socket leak accounting."""
import copy, errno, gc, itertools, json, socket, types
from vlib import *
from pymc import *
import uper
from checks.v3common import MIN
from checks import c12, c13
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["'Broadcasting impossible' means that sending to the broadcast address fails; if creating the socket or its mandatory options fail, nothing can be sent and only containment is required.",
               "A socket is leaked if it is neither closed nor garbage-collected when the sender has returned.", "Latitude and longitude both zero mean no position."]
class Net:
    def __init__(s, fails): s.fails, s.live, s.sent, s.log, s.n, s.blocking = set(fails), set(), [], [], 0, []
    def step(s, name):
        s.log.append(name)
        if name in s.fails:
            raise type(ERR[0])(*ERR[0].args)      # a fresh one: a shared exception object would keep the caller's frames alive
ERR = [OSError(errno.ENETUNREACH, "fault")]
NET = [None]
class Sock:
    def __init__(self, family=-1, type=-1, proto=0, fileno=None):
        self.closed = True
        self.net = NET[0]; self.net.step("create"); self.net.n += 1; self.id = self.net.n; self.net.live.add(self.id)
        self.fam, self.typ, self.bc, self.closed, self.timeout = family, type, False, False, None
    def settimeout(self, t): self.net.step("settimeout"); self.timeout = t
    def setblocking(self, b): self.net.step("settimeout"); self.timeout = None if b else 0
    def setsockopt(self, level, opt, val):
        nm = {socket.SO_BROADCAST: "broadcast-option", socket.SO_REUSEADDR: "reuseaddr", socket.SO_REUSEPORT: "reuseport"}.get(opt, "option")
        self.net.step(nm)
        if opt == socket.SO_BROADCAST: self.bc = bool(val)
    def bind(self, a): self.net.step("bind")
    def connect(self, a): self.net.step("connect"); self.peer = a
    def sendto(self, data, *rest):
        addr = rest[-1]
        if self.closed: raise OSError(errno.EBADF, "closed")
        if not isinstance(data, (bytes, bytearray)): raise TypeError("bytes")
        host, port = addr
        if not isinstance(port, int) or not 0 <= port <= 65535: raise OverflowError("port")
        b = host in ("<broadcast>", "255.255.255.255")
        if self.timeout is None: self.net.blocking.append("broadcast" if b else "loopback")
        self.net.step("send-broadcast" if b else "send-loopback")
        if b and not self.bc: raise PermissionError(13, "no SO_BROADCAST")
        if self.fam != socket.AF_INET or self.typ != socket.SOCK_DGRAM: raise OSError(errno.EPROTOTYPE, "not UDP")
        self.net.sent.append((("broadcast" if b else host), port, bytes(data)))
        return len(data)
    def close(self):
        if not self.closed:
            self.closed = True; self.net.live.discard(self.id)
        self.net.step("close")
    def __enter__(self): return self
    def __exit__(self, *x): self.close()
    def __del__(self): 
        if not self.closed: self.net.live.discard(self.id)

STEPS = ["create", "settimeout", "broadcast-option", "reuseaddr", "reuseport", "send-broadcast", "send-loopback", "close"]
STD = {"snr": "snr", "satellites": "sats", "battery_voltage": "batt_voltage", "speed": "speed", "temperature": "temp"}

def fix(t): return all(k in t for k in ("latitude", "longitude", "altitude", "time", "callsign")) and not (t["latitude"] == 0 and t["longitude"] == 0)
def eq(x, y):
    return x == y or isinstance(x, float) and isinstance(y, float) and (x != x and y != y) or isinstance(x, (int, float)) and isinstance(y, (int, float)) and abs(x - y) <= 1e-12 * abs(y)

def summary(a, t, fails, err, port, comment, tag):
    a.add("evaluations")
    if fails: a.add("distinct_nontrivial")
    ERR[0] = err
    NET[0] = n = Net(fails)
    t0 = copy.deepcopy(t)
    ctx = lambda: f"record {str(t0)[:500]}, failing {sorted(fails)} with {err!r}: calls {n.log}, sent {n.sent}"
    try:
        if port is None: H.send_payload_summary(t)
        elif comment is None: H.send_payload_summary(t, port=port)
        else: H.send_payload_summary(t, port=port, comment=comment)
    except BaseException as e:
        a.bad(f"raised:{tag}:{type(e).__name__}", f"{e!r}; {ctx()}"); return
    if n.live:
        gc.collect()
        if n.live: a.bad(f"socket-leak:{tag}", ctx())
    if not deep_eq(t, t0): a.bad(f"record-modified:{tag}", ctx())
    if n.blocking and "settimeout" not in fails: a.bad(f"may-block-for-ever:{tag}", f"no time limit on the {n.blocking} send; {ctx()}")
    must = fix(t0) and not fails & {"create", "settimeout", "broadcast-option", "reuseaddr"} and not {"send-broadcast", "send-loopback"} <= fails
    may = fix(t0)
    if len(n.sent) > 1 or (n.sent and not may): a.bad(f"{'sent-twice' if may else 'sent-without-position'}:{tag}", ctx()); return
    if must and len(n.sent) != 1: a.bad(f"not-sent:{tag}", ctx()); return
    for host, p, data in n.sent:
        if p != (port if port is not None else 55672): a.bad(f"port:{tag}", ctx())
        if host != ("broadcast" if "send-broadcast" not in fails else "127.0.0.1"): a.bad(f"route:{tag}", ctx())
        try: m = json.loads(data)
        except Exception as e: a.bad(f"not-json:{tag}", ctx()); return
        exp = {"type": "PAYLOAD_SUMMARY", "callsign": t0["callsign"], "latitude": t0["latitude"], "longitude": t0["longitude"], "altitude": t0["altitude"], "time": t0["time"], "heading": -1}
        if comment is not None: exp["comment"] = comment
        for k, o in STD.items():
            if k in t0: exp[o] = t0[k]
            elif k != "snr": exp[o] = -1
        if "f_centre" in t0: exp["frequency"] = t0["f_centre"] / 1e6
        for k in t0.get("custom_field_names", []):
            if k in t0: exp[k] = t0[k]
        for k, v in exp.items():
            if k not in m or not eq(m[k], v): a.bad(f"value:{tag}:{k if k in ('callsign','latitude','longitude','altitude','time','heading','comment','temp','snr','sats','batt_voltage','speed','frequency','type') else 'extra'}", f"{k}: {m.get(k)!r} instead of {v!r}; {ctx()}")
        for k in ("snr", "frequency"):
            if k in m and k not in exp: a.bad(f"invented:{tag}:{k}", ctx())

def ozi(a, t, fails, err, port, tag):
    a.add("evaluations")
    if fails: a.add("distinct_nontrivial")
    ERR[0] = err
    NET[0] = n = Net(fails)
    ctx = lambda: f"record {str(t)[:400]}, failing {sorted(fails)}: calls {n.log}, sent {n.sent}"
    try: H.send_ozimux_message(t) if port is None else H.send_ozimux_message(t, port=port)
    except BaseException as e: a.bad(f"raised:{tag}:{type(e).__name__}", f"{e!r}; {ctx()}"); return
    if n.live:
        gc.collect()
        if n.live: a.bad(f"socket-leak:{tag}", ctx())
    ok = all(k in t for k in ("latitude", "longitude", "altitude", "time"))
    must = ok and not fails & {"create", "settimeout", "broadcast-option", "reuseaddr"} and not {"send-broadcast", "send-loopback"} <= fails
    if len(n.sent) > 1 or n.sent and not ok: a.bad(f"sent-wrongly:{tag}", ctx()); return
    if must and len(n.sent) != 1: a.bad(f"not-sent:{tag}", ctx()); return
    for host, p, data in n.sent:
        if p != (port or 55683) or host != ("broadcast" if "send-broadcast" not in fails else "127.0.0.1"): a.bad(f"route:{tag}", ctx())
        w = f"TELEMETRY,{t['time']},{t['latitude']:.5f},{t['longitude']:.5f},{t['altitude']}\n"
        if data != w.encode(): a.bad(f"text:{tag}", f"{data!r} instead of {w!r}")

def records():
    import horusdemodlib.decoder as D
    out = []
    for p in (c12.mk22(), c12.mk22(lat=0, lon=0), c12.mk22(lat=0), c12.mk22(lon=0, tmp=-128, sat=0, spd=0, bat=0), c12.mk32(), c12.mk32(500), c12.mk32(300, cust=b"\1\x7f\x80\0\0\xc0\x7f\0\x80"), c12.mk32(300, cust=bytes(9)), c12.mk32(4000), c12.mk32(lat=0, lon=0x80000000), c12.mk16(), c12.mk16(lat=0, lon=0), c12.mk32(alt=65535, sat=255, spd=255, bat=255)):
        out.append(D.decode_packet(p))
    for s in ("HORUS,5,12:00:30,-34.5,138.5,100", "A,1,000000,0,0,0", "A,1,000000,0,0.00001,0", "A,1,000000,90,-180,65535,9,9"):
        out.append(D.parse_ukhas_string(sentence(s)))
    for k, vs in {**c13.BND, "altitudeMeters": [-1000, -999, 0, 50000], "timeOfDaySeconds": [-1, 0, 86400], "latitude": [0, 1], "longitude": [0, -1]}.items():
        for v in vs:
            t = dict(MIN, **{k: v})
            out.append(D.decode_packet(hcrc(uper.encode(t))))
    out.append(D.decode_packet(hcrc(uper.encode(dict(MIN, latitude=0, longitude=0)))))
    return out

EXTRA = {"snr": [-999.0, 0.0, 12.5], "f_centre": [0, 401500123, 434.2e6], "tone_spacing": [270], "baud_rate": [100]}
ERRS = [OSError(errno.ENETUNREACH, "net"), PermissionError(1, "perm"), socket.timeout("timed out"), socket.gaierror(-2, "name")]

def w_faults(a, item):
    t, subs = item
    for f in subs:
        for err in ERRS[:1] if len(f) > 2 else ERRS:
            summary(a, dict(t), set(f), err, None if len(f) % 2 else 55672 + len(f), None, "faults")
            ozi(a, dict(t), set(f), err, None if len(f) % 2 else 1000, "ozimux-faults")
    a.sample({"failing": list(f), "callsign": t.get("callsign")})

def w_records(a, t):
    for f in (set(), {"send-broadcast"}, {"reuseport"}, {"send-broadcast", "reuseport"}):
        summary(a, dict(t), f, ERRS[0], 55672, None, "records")
        ozi(a, dict(t), f, ERRS[0], 55683, "ozimux")
        for k, vs in EXTRA.items():
            for v in vs: summary(a, dict(t, **{k: v}), f, ERRS[0], 1 + len(f), "C\u00e9 \U0001f388", "records")
        summary(a, dict(t, snr=3.5, f_centre=433, tone_spacing=1, baud_rate=2), f, ERRS[0], 65535, "x", "records")
    for k in ("latitude", "longitude", "altitude", "time", "callsign"):
        s = {x: y for x, y in t.items() if x != k}
        for f in (set(), {"send-broadcast"}):
            summary(a, s, f, ERRS[0], 55672, None, "incomplete")
            if k != "callsign": ozi(a, s, f, ERRS[0], 55683, "ozimux-incomplete")

def w_presence(a, rng):
    ks = ["snr", "f_centre", "satellites", "battery_voltage", "speed", "temperature", "tone_spacing", "c1", "c2"]
    val = [{"snr": 0.0, "f_centre": 0, "satellites": 0, "battery_voltage": 0.0, "speed": 0, "temperature": 0, "tone_spacing": 0, "c1": 0, "c2": ""},
           {"snr": -3.5, "f_centre": 401500000, "satellites": 12, "battery_voltage": 1.25, "speed": 99.5, "temperature": -40, "tone_spacing": 270, "c1": -1, "c2": "ab"}]
    for m in rng:
        for v in val:
            t = {"callsign": "P", "latitude": -1.5, "longitude": 0.0, "altitude": 5, "time": "01:02:03", "sequence_number": 1}
            cf = []
            for i, k in enumerate(ks):
                if m >> i & 1:
                    t[k] = v[k]
                    if k in ("c1", "c2"): cf.append(k)
            if m & 1: cf.append("listed_but_absent")
            t["custom_field_names"] = cf
            summary(a, t, set(), ERRS[0], 55672, None, "presence"); summary(a, t, {"send-broadcast"}, ERRS[0], 55672, None, "presence")

def fake_socket(H):
    class FS(types.ModuleType): pass
    fs = FS("socket"); fs.__dict__.update({k: getattr(socket, k) for k in dir(socket) if not k.startswith("__")}); fs.socket = Sock
    for k, v in list(H.__dict__.items()):
        if v is socket: H.__dict__[k] = fs
        elif v is socket.socket: H.__dict__[k] = Sock

def run(chk):
    global H
    import_repo(ext=False); quiet()
    import horusdemodlib.horusudp as H, horusdemodlib.payloads as P
    P.HORUS_PAYLOAD_LIST = dict(c12.ID); P.HORUS_CUSTOM_FIELDS = copy.deepcopy(c12.CUST)
    import horusdemodlib.decoder as D
    c13.D = D
    fake_socket(H)
    R = records()
    chk.cov["rule"] = f"evaluation = one call of a sender with one record and one subset of failing socket calls; non-trivial = at least one call fails; {len(R)} decoder-produced records"
    subs = [f for n in range(len(STEPS) + 1) for f in itertools.combinations(STEPS, n)]
    base = [R[0], R[1], R[4], R[10], R[13], R[20]]
    pmap(chk, w_faults, [(t, c) for t in (base if chk.quick else R) for c in chunks(subs, 64)])
    pmap(chk, w_records, R)
    pmap(chk, w_presence, chunks(range(512), 32))

"""C21: every sequence of input lines (to a depth) x options x failing side effects through the real uploader.main(), the real upload thread,
log file, payload list download and summary sender, in a controlled world (virtual clock, fake sockets and HTTP), against a per-line effect model."""
import contextlib, copy, datetime, io, itertools, json, shutil, sys, tempfile
from vlib import *
from pymc import *
import clockshim, uper, world
from checks import c12, c26
from checks.upcommon import batches
from checks.v3common import MIN
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["Uploads, list downloads and sockets are answered by fakes; the log is a real file (or /dev/full) in a scratch directory.",
               "A list download is required when an unknown payload arrives more than 30 minutes after the last attempt, and forbidden earlier.",
               "Undecodable bytes make their own line invalid."]
START = 1.7e9                                    # 2023-11-14 22:13:20 UTC
HMS = (22, 13, 20)
LISTS = "# HORUS BINARY PAYLOAD ID LIST\n0, 4FSKTEST\n1, HORUSBINARY\n7, SHORT\n"
NEWLISTS = LISTS + "500, NEWCOMER\n"
FIELDS = json.dumps({"HORUSTEST": {"struct": "<BbBfH", "fields": [["cutdown_battery_voltage", "battery_5v_byte"], ["external_temperature", "none"], ["test_counter", "none"], ["test_float_field", "none"], ["test_int_field", "none"]]}})
UNK = "UNKNOWN_PAYLOAD_ID"

def lines():
    """name -> (raw line bytes, kind, expectation dict)"""
    V3 = lambda **k: hcrc(uper.encode(dict(MIN, timeOfDaySeconds=80000, **k)))
    hx = lambda b: b.hex().upper().encode() + b"\n"
    rt = lambda body: sentence(body).encode() + b"\n"
    L = {}
    def pk(name, raw, call, frame, summ=True, up=True, log=None, unknown=False):
        L[name] = (raw, "packet", dict(call=call, frame=frame, summary=summ, upload=up, log=log, unknown=unknown, rtty=log is not None))
    pk("v1", hx(c12.mk22(1, 11, HMS)), "HORUSBINARY", 11)
    pk("v1-lower-crlf", c12.mk22(0, 12, HMS).hex().encode() + b"\r\n", "4FSKTEST", 12)
    pk("v1-nofix", hx(c12.mk22(1, 13, HMS, lat=0, lon=0)), "HORUSBINARY", 13, summ=False)
    pk("v1-late", hx(c12.mk22(1, 14, (3, 0, 0))), "HORUSBINARY", 14, up=False)
    pk("v2", hx(c12.mk32(256, 21, HMS)), "4FSKTEST-V2", 21)
    pk("v2-unknown", hx(c12.mk32(500, 22, HMS)), "NEWCOMER", 22, unknown=True)
    pk("v2-lost", hx(c12.mk32(501, 23, HMS)), UNK, 23, unknown=True, up=False)
    pk("v2-short", hx(c12.mk16(7, 24, 40000)), "SHORT", 24)
    pk("v3", hx(V3(sequenceNumber=31)), "MC-1", 31)
    pk("v3-notime", hx(hcrc(uper.encode(dict(MIN, timeOfDaySeconds=-1, sequenceNumber=32)))), "MC-1", 32, summ=False, up=False)
    pk("v3-noalt", hx(V3(sequenceNumber=33, altitudeMeters=-1000)), "MC-1", 33, summ=False, up=False)
    pk("v3-nan", hx(V3(sequenceNumber=34, extraSensors=[{"name": "n", "values": ("horusReal", [float("nan"), float("inf")])}])), "MC-1", 34)
    r = "R-TTY,41,22:13:20,-34.5,138.5,1000"
    pk("rtty", rt(r), "R-TTY", 41, log="$$" + sentence(r).strip("$"))
    r2 = "R,42,221320,-34.5,138.5,1000,0,1,x"
    pk("rtty-long", b"$$$$$" + sentence(r2).strip("$").encode() + b"  \r\n", "R", 42, log="$$" + sentence(r2).strip("$"))
    for n, body, summ in (("rtty-nofix", "R-0,43,22:13:20,0.000000,0.000000,0", False), ("rtty-equator", "R-0,44,22:13:20,0.0,-179.99,65535", True), ("rtty-below", "R-0,45,22:13:20,-90.0,0.0,0", True)):
        pk(n, rt(body), "R-0", int(body.split(",")[1]), summ=summ, log="$$" + sentence(body).strip("$"))
    def bad(name, raw): L[name] = (raw, "bad", {})
    bad("rtty-badcrc", rt(r).replace(b"41,", b"43,"))
    bad("rtty-empty", b"$$\n"); bad("rtty-fields", rt("A,1")); bad("rtty-badtime", rt("A,1,99:00:00,1,2,3"))
    bad("hex-badcrc", hx(c12.mk22(1, 15, HMS)[:-1] + b"\0")); bad("hex-badtime", hx(c12.mk22(1, 16, (24, 0, 0)))); bad("hex-short", b"00\n"); bad("hex-odd", b"ABC\n")
    bad("hex-v3-undecodable", hx(hcrc(b"\xff" * 40))); bad("hex-prefix", b"0x" + hx(c12.mk22(1, 17, HMS))); bad("hex-long", b"AA" * 3000 + b"\n")
    bad("text", b"hello world\n"); bad("empty", b"\n"); bad("spaces", b"   \n"); bad("dollar", b"$\n"); bad("binary", b"\xff\xfe\x80\n"); bad("nul", b"\0\0\n"); bad("unicode", "\U0001f388\u00e9\n".encode())
    bad("rtty-binary", rt(r).replace(b"R-", b"\xff-")); bad("quote", b"'%s %d {}\n"); bad("hex-unicode-digits", "\u0661\u0662\n".encode())
    def st(name, snr, f, txt=None):
        d = {"EbNodB": snr, "ppm": 1.5, "samp_fft": [1, 2]}
        for i, x in enumerate(f): d[f"f{i + 1}_est"] = x
        L[name] = ((txt or json.dumps(d)).encode() + b"\n", "stats", dict(snr=snr, f=f))
    st("stats", 9.5, [1000.0, 1270.0, 1540.0, 1810.0]); st("stats-high", 20.25, [900.5, 1100.5])
    st("stats-eye", 3.5, [1000.0, 1270.0], '{"EbNodB": 3.5, "ppm": 2, "f1_est": 1000.0, "f2_est": 1270.0, "samp_fft": [1], "eye_diagram": [[nan, 1], [0, nan]]}')
    for n, t in {"open": "{", "empty": "{}", "missing": '{"EbNodB": 3, "ppm": 1}', "infinity": '{"EbNodB": Infinity, "ppm": 1, "f1_est": 1, "f2_est": 2, "samp_fft": []}', "string": '{"EbNodB": "x", "ppm": 1, "f1_est": 1, "f2_est": 2, "samp_fft": []}',
                 "three": '{"EbNodB": 1, "ppm": 1, "f1_est": 1, "f2_est": 2, "f3_est": 3, "samp_fft": []}', "null": '{"EbNodB": 1, "ppm": 1, "f1_est": null, "f2_est": 2, "samp_fft": []}', "deep": "{" + '"a":{' * 3000, "trail": '{"EbNodB": 1} x'}.items():
        bad("stats-" + n, t.encode() + b"\n")
    return L

class Stdin(io.TextIOWrapper):
    """standard input with timing: script items are line bytes, ('T', seconds) or 'INT' (Ctrl-C)"""
    def __init__(self, script, w):
        self.script, self.w, self.i = script, w, 0
        super().__init__(io.BytesIO(b"".join(x for x in script if isinstance(x, bytes))), encoding="utf-8", errors="strict")
    def before(self):
        while self.i < len(self.script) and not isinstance(self.script[self.i], bytes):
            x = self.script[self.i]; self.i += 1
            if x == "INT": raise KeyboardInterrupt()
            self.w.point(deadline=self.w.clock + x[1], free=True)
        self.i += 1
    def readline(self, *a):
        self.before(); return super().readline(*a)
    def __next__(self):
        self.before()
        l = super().readline()
        if l == "": raise StopIteration
        return l
    def __iter__(self): return self

class Clock:
    w = None
    def __getitem__(self, i):
        return datetime.datetime.fromtimestamp(Clock.w.clock if Clock.w else START, datetime.timezone.utc)

def config(d, pos):
    c = f"[user]\ncallsign = RX-1\nstation_lat = {pos[0]}\nstation_lon = {pos[1]}\nradio_comment = r\nantenna_comment = a\n[horus_udp]\nsummary_port = 55999\nozimux_port = 55683\n"
    p = os.path.join(d, "user.cfg"); open(p, "w").write(c)
    return p

def go(script, args, d, answer=None, schedule=None, fails=(), max_steps=60000):
    """run main() -> world with .exit, .sent, .alive_at_end"""
    w = world.World(SA, schedule, None, max_steps, START + 1e7, answer or answers(), START, extra=(UPM, PL))
    Clock.w = w
    c26.ERR[0] = OSError(101, "Network is unreachable"); c26.NET[0] = w.net = c26.Net(set(fails))
    PL.HORUS_PAYLOAD_LIST, PL.HORUS_CUSTOM_FIELDS = dict(DEF[0]), copy.deepcopy(DEF[1])
    w.exit = "none"
    def main():
        old = sys.argv, sys.stdin
        sys.argv, sys.stdin = ["uploader"] + args, Stdin(script, w)
        try:
            UPM.main(); w.exit = 0
        except SystemExit as e: w.exit = e.code if e.code is not None else 0
        finally:
            w.left = bytes(sys.stdin.buffer.read()); w.lines_taken = sys.stdin.i
            sys.argv, sys.stdin = old
            w.alive = [t.name for t in w.threads if t is not w.main and not t.done]
    w.run(main)
    Clock.w = None
    return w

def answers(lists=((200, None),), up=200):
    """lists: outcomes of successive list downloads (last repeats); each (status, None=good | text) or exception"""
    def f(w, kind, i):
        if kind in ("idlist", "fields"):
            o = lists[min(i, len(lists) - 1)]
            if isinstance(o, BaseException): return type(o)(*o.args)
            return (o[0], o[1] if o[1] is not None else (LISTS if i == 0 else NEWLISTS) if kind == "idlist" else FIELDS)
        return up
    return f

class Model:
    """what each line must do"""
    def __init__(s, opt, have500=False):
        s.o, s.t, s.samples, s.fest, s.snr, s.spacing = opt, START, [], None, -999.0, 0.0
        s.log, s.sum, s.up, s.next = [], [], [], START
        s.dl = 0; s.downloads = []
        s.known = have500
        if not opt.get("nodownload") and not opt.get("rtty"): s.dl = 1
    def line(s, kind, e, script_dl):
        if kind == "stats":
            f = e["f"]
            s.samples = [x for x in s.samples if x[0] > s.t - 4.0] + [(s.t, e["snr"], (f[-1] - f[0]) / (len(f) - 1))]
            s.snr = max(x[1] for x in s.samples); s.spacing = sum(x[2] for x in s.samples) / len(s.samples); s.fest = sum(f) / len(f)
        if kind != "packet": return
        call = e["call"]
        if e["unknown"] and not (call == "NEWCOMER" and s.known):
            if not s.o.get("nodownload") and s.t > s.next:
                s.downloads.append(s.t); s.next = s.t + 1800
                if script_dl(s.dl): s.known = True
                s.dl += 1
            if call != "NEWCOMER" or not s.known: call = UNK
        x = {"callsign": call, "snr": s.snr}
        if s.o.get("freq"): x["frequency"] = (int(s.fest or 0) + int(s.o["freq"])) / 1e6
        if e["summary"]: s.sum.append(x)
        if e["upload"] and s.t - START <= 180 and call != UNK and not s.o.get("noupload"):
            u = {"payload_callsign": call, "frame": e["frame"]}
            if s.snr > -100: u["snr"] = s.snr
            if s.o.get("freq"): u["frequency"] = x["frequency"]
            if s.spacing > 0: u["tone_spacing"] = int(s.spacing)
            if s.o.get("baud"): u["baud_rate"] = s.o["baud"]
            s.up.append(u)
        s.log.append(e["log"] if e["rtty"] else (call, e["frame"]))

def run_case(a, names, opt, tag, times=None, lists=((200, None),), fails=(), up=200, schedule=None, interrupt=False, trunc=False):
    a.add("evaluations")
    dl_ok = lambda i: i >= 1 and lists[min(i, len(lists) - 1)] == (200, None)
    d = SCR[0]
    log = {"file": os.path.join(d, f"t{os.getpid()}.log"), "none": "none", "full": "/dev/full"}[opt.get("log", "file")]
    with contextlib.suppress(FileNotFoundError): os.unlink(os.path.join(d, f"t{os.getpid()}.log"))
    pl, cf = os.path.join(d, f"pl{os.getpid()}.txt"), os.path.join(d, f"cf{os.getpid()}.json")
    open(pl, "w").write(LISTS); open(cf, "w").write(FIELDS)
    args = ["-c", CFG[1 if opt.get("pos") else 0], "--log", log, "--payload-list", pl, "--custom-fields", cf]
    if opt.get("noupload"): args.append("--noupload")
    if opt.get("nodownload"): args.append("--nodownload")
    if opt.get("rtty"): args.append("--rtty")
    if opt.get("verbose"): args.append("-v")
    if opt.get("freq"): args += ["--freq_hz", str(opt["freq"])]
    if opt.get("target"): args += ["--freq_target_hz", str(opt["target"])]
    if opt.get("baud"): args += ["--baud_rate", str(opt["baud"])]
    m = Model(opt)
    script = []
    for i, n in enumerate(names):
        dt = times[i] if times else 0
        if dt: script.append(("T", dt)); m.t += dt
        raw, kind, e = LINES[n]
        if trunc and i == len(names) - 1: raw = raw.rstrip(b"\r\n")
        if opt.get("rtty") and kind == "packet" and e["call"] in ("SHORT",): e = dict(e, call=UNK, upload=False, unknown=True)
        script.append(raw); m.line(kind, e, dl_ok)
        if kind != "bad": a.add("valid_lines")
        else: a.add("invalid_lines")
    if interrupt: script += ["INT", LINES["v1"][0]]
    if interrupt or fails or up != 200 or len(lists) > 1 or any(LINES[n][1] == "bad" for n in names): a.add("distinct_nontrivial")
    w = go(script, args, d, answers(lists, up), schedule, fails)
    ctx = lambda: f"lines {names} (delays {times}), options {opt}, socket faults {sorted(fails)}, downloads {lists}, uploads answered {up!r}{', interrupted' if interrupt else ''}: "
    if w.problem or w.errors:
        a.bad(f"stopped:{tag}", ctx() + f"{w.problem} {w.errors}"); return
    if w.exit != 0: a.bad(f"exit:{tag}", ctx() + f"exit {w.exit}"); return
    if w.alive: a.bad(f"thread-left:{tag}", ctx() + f"threads {w.alive} still running when the handler returned")
    # uploads
    got = [x for r in batches(w) if r.get("answer") == up for x in json.loads(__import__("gzip").decompress(r["data"]))]
    if up == 200 and [(x["payload_callsign"], x["frame"]) for x in got] != [(x["payload_callsign"], x["frame"]) for x in m.up]:
        a.bad(f"uploads:{tag}", ctx() + f"uploaded {[(x['payload_callsign'], x['frame']) for x in got]}, expected {m.up}")
    elif up == 200:
        for g, x in zip(got, m.up):
            for k in ("snr", "frequency", "tone_spacing", "baud_rate"):
                if k in x and not num_eq(g.get(k), x[k]) or k not in x and k in g: a.bad(f"upload-value:{tag}:{k}", ctx() + f"{k} {g.get(k)!r}, expected {x.get(k)!r}")
    if opt.get("noupload") and [r for r in w.requests if r["kind"] in ("telemetry", "position")]: a.bad(f"noupload:{tag}", ctx() + "something was uploaded")
    # summaries
    got = [json.loads(x[2]) for x in w.net.sent]
    want = [] if {"send-broadcast", "send-loopback"} <= set(fails) or "create" in fails else m.sum
    if [x.get("callsign") for x in got] != [x["callsign"] for x in want]: a.bad(f"summaries:{tag}", ctx() + f"sent {got}, expected {want}")
    else:
        for g, x in zip(got, want):
            for k in ("snr", "frequency"):
                if k in x and not num_eq(g.get(k), x[k]) or k not in x and k in g: a.bad(f"summary-value:{tag}:{k}", ctx() + f"{k} {g.get(k)!r}, expected {x.get(k)!r}")
        if any(x[1] != 55999 for x in w.net.sent): a.bad(f"summary-port:{tag}", ctx() + f"{w.net.sent}")
    # log
    if opt.get("log", "file") == "file":
        text = open(log).read()
        got = text.splitlines()
        ok = len(got) == len(m.log) and text.endswith("\n") == bool(m.log)
        for g, x in zip(got, m.log):
            if isinstance(x, str): ok &= g == x
            elif x[0].startswith("MC-"): ok &= x[0] in g and str(x[1]) in g          # the text form of version 3 packets is not specified
            else: ok &= g.startswith(f"$${x[0]},{x[1]},") and g[-5:-4] == "*" and g == sentence(g[2:-5])
        if not ok: a.bad(f"log:{tag}", ctx() + f"log file {text!r}, expected {m.log}")
    # downloads
    got = [r["t"] for r in w.requests if r["kind"] == "idlist"]
    init = [] if opt.get("nodownload") or opt.get("rtty") else [START]
    if got != init + m.downloads: a.bad(f"downloads:{tag}", ctx() + f"lists downloaded at {[t - START for t in got]}, expected {[t - START for t in init + m.downloads]}")
    if w.net.live: a.bad(f"socket-leak:{tag}", ctx())

SCR, CFG, DEF = [None], [None, None], [None, None]
OPTS = [{}, {"nodownload": 1, "freq": 401.5e6, "baud": 100, "pos": 1}, {"noupload": 1, "log": "none", "verbose": 1}, {"rtty": 1, "freq": 434200000, "target": 434.2e6}, {"log": "full", "nodownload": 1, "baud": 300}]

def w_seq(a, item):
    for names, opt, kw in item:
        run_case(a, names, opt, **kw)
    a.sample((names, opt))

CFGBAD = {"missing": None, "empty": b"", "garbage": b"\x00\x01\xff\xfe=[", "no-section": b"callsign = x\n", "no-user": b"[horus_udp]\nsummary_port = 1\nozimux_port = 2\n"}
def bad_configs():
    good = open(CFG[0]).read()
    out = dict(CFGBAD)
    ls = good.splitlines(True)
    for i, l in enumerate(ls):
        out[f"without-line-{i}"] = "".join(ls[:i] + ls[i + 1:]).encode()
        if "=" in l and any(x in l for x in ("station", "port")):
            for v in ("", "x", "1,5", "0x10", "--1"): out[f"bad-{i}-{v}"] = "".join(ls[:i] + [l.split("=")[0] + "= " + v + "\n"] + ls[i + 1:]).encode()
    out["duplicate"] = (good + "[user]\n").encode(); out["directory"] = "DIR"
    return out

def w_config(a, _):
    for n, c in bad_configs().items():
        a.add("evaluations"); a.add("config_cases")
        p = os.path.join(SCR[0], "bad.cfg")
        with contextlib.suppress(FileNotFoundError): os.unlink(p)
        if c == "DIR": p = SCR[0]
        elif c is not None: open(p, "wb").write(c)
        log = os.path.join(SCR[0], "never.log")
        with contextlib.suppress(FileNotFoundError): os.unlink(log)
        with contextlib.redirect_stderr(io.StringIO()):
            w = go([LINES["rtty"][0]], ["-c", p, "--log", log, "--nodownload"], SCR[0])
        if w.exit == 0 or w.problem or w.errors or w.exit == "none": a.bad(f"config-accepted:{n.split('-')[0]}", f"configuration {n} ({c!r}): exit {w.exit}, {w.problem} {w.errors}")
        if w.requests or w.net.sent or w.net.log or w.alive or len(w.threads) > 1 or os.path.exists(log) and os.path.getsize(log): a.bad("config-started", f"configuration {n}: started working without a configuration")

def run(chk):
    global UPM, SA, PL, LINES
    import_repo(ext=False); quiet()
    import horusdemodlib.uploader as UPM, horusdemodlib.sondehubamateur as SA, horusdemodlib.payloads as PL, horusdemodlib.horusudp as H
    import horusdemodlib.utils as U1, horusdemodlib.delegates as E, horusdemodlib.demodstats as DS, horusdemodlib.decoder
    clockshim.NOW = Clock()
    clockshim.install(U1, E, DS, SA)
    SA.time = __import__("time")
    c26.fake_socket(H)
    DEF[0], DEF[1] = dict(PL.HORUS_PAYLOAD_LIST), copy.deepcopy(PL.HORUS_CUSTOM_FIELDS)
    LINES = lines()
    chk.cov["rule"] = f"evaluation = one run of the handler on one sequence of input lines with one set of options and faults; non-trivial = contains an invalid line, a fault or an interruption; {len(LINES)} different lines"
    with tempfile.TemporaryDirectory(prefix="c21") as d:
        SCR[0] = d
        CFG[0] = config(d, (0.0, 0.0)); d2 = os.path.join(d, "p"); os.mkdir(d2); CFG[1] = config(d2, (-34.5, 138.5))
        N = list(LINES)
        cases = []
        core = ["v1", "v2-unknown", "v3", "rtty", "stats", "stats-high", "hex-badcrc", "rtty-badcrc", "text", "stats-missing"]
        for o in OPTS:
            for n in range(3):
                cases += [(list(s), o, dict(tag="seq")) for s in itertools.product(N, repeat=n)]
            if not chk.quick or o is OPTS[1]:
                cases += [(list(s), o, dict(tag="seq")) for s in itertools.product(N if not chk.quick and o is OPTS[1] else core, repeat=3)]
        if not chk.quick: cases += [(list(s), OPTS[1], dict(tag="seq")) for s in itertools.product(core, repeat=4)]
        for s in itertools.product(core, repeat=2):
            cases += [(list(s), o, dict(tag="interrupted", interrupt=True)) for o in OPTS[:3]] + [(list(s), o, dict(tag="no-newline", trunc=True)) for o in OPTS[:2]]
        # time: statistics windows and upload rounds, list downloads
        for s in itertools.product(["v1", "rtty", "stats", "stats-high", "stats-missing"], repeat=3):
            for t in itertools.product((0, 1, 4, 3.5), repeat=3): cases.append((list(s), OPTS[1], dict(tag="time", times=list(t))))
        BAD = [(200, "not a list"), (200, ""), (200, "HORUS BINARY PAYLOAD ID LIST HORUSTEST {"), (404, "no"), OSError("net"), ValueError("x")]
        DL = [((200, None),)] + [((200, None), b) for b in BAD] + [(b, (200, None)) for b in BAD] + [(b,) for b in BAD] + [((200, LISTS + '"HORUSTEST"'), (200, None), BAD[0])]
        for k in (2, 3):
            for s in itertools.product(["v2-unknown", "v2-lost", "v1"], repeat=k):
                for t in itertools.product((0, 1, 1799, 1800, 1801), repeat=k):
                    if any(t[1:]) and t[0] not in (0, 1): continue
                    for dl in DL[:1] if k == 3 else DL:
                        cases.append((list(s), {}, dict(tag="download", times=list(t), lists=dl)))
        F = [f for n in range(len(c26.STEPS) + 1) for f in itertools.combinations(c26.STEPS[:-1], n) if n <= 2 or not chk.quick]
        for f in F:
            fails = set(f)
            if fails & {"broadcast-option", "reuseaddr", "settimeout"} and not fails & {"create"}: fails |= {"create"}
            for s in itertools.product(["v1", "v3", "rtty", "text"], repeat=2): cases.append((list(s), {"log": "full"} if len(f) == 1 else {}, dict(tag="socket", fails=fails)))
        for up in (202, 400, 404, 500, 503, (202, "{"), OSError("down"), RuntimeError("x")):
            for s in itertools.product(["v1", "v3", "rtty", "text"], repeat=2):
                for o in OPTS[:2]: cases.append((list(s), o, dict(tag="upload-fault", up=up, times=[0, 3])))
        pmap(chk, w_seq, chunks(cases, 60))
        run1(chk, w_config)

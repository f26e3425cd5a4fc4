"""C18: every sequence of server answers (choice-point depth-first search over the answers given to each HTTP attempt) against the real uploader thread under a virtual clock."""
import gzip, itertools, json
import requests as RQ
from vlib import *
from pymc import *
import world
from checks.upcommon import *
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["A network failure is an exception from requests.put; after one, sending that batch again (up to the configured attempts) or giving it up are both allowed.",
               "Server errors other than 500 may or may not be retried for the station position (the statement only bounds its attempts)."]
G202 = json.dumps({"message": "m", "errors": [{"error_message": "e", "payload": {"a": 1}}], "warnings": [{"warning_message": "w"}]})
ANS = {"200": 200, "202": (202, G202), "202-notjson": (202, "<html>"), "202-null": (202, "null"), "202-nokeys": (202, "{}"), "202-types": (202, '{"errors": 5, "warnings": "x"}'), "202-inner": (202, '{"errors":[{}],"warnings":[3]}'),
       "202-empty": (202, ""), "202-nullmsg": (202, '{"errors":[{"error_message":null}],"warnings":[]}'), "201": 201, "204": (204, ""), "301": 301, "400": (400, "bad \udcff"), "401": 401, "403": 403, "404": 404, "408": 408, "413": 413, "418": 418, "429": 429,
       "500": 500, "501": 501, "502": (502, "<html>"), "503": 503, "504": 504, "505": 505, "520": 520, "599": 599,
       "timeout": RQ.exceptions.Timeout("t"), "conn": RQ.exceptions.ConnectionError("c"), "oserror": OSError("o"), "value": ValueError("v"), "chunked": RQ.exceptions.ChunkedEncodingError("x"), "ssl": RQ.exceptions.SSLError("s"), "key": KeyError("k")}
RETRY = {"500", "501", "502", "503", "504"}
EXC = {k for k, v in ANS.items() if isinstance(v, BaseException)}
SMALL = ["200", "202", "202-notjson", "202-nokeys", "500", "503", "504", "400", "timeout", "conn"]
TINY = ["200", "202-notjson", "500", "502", "404", "conn"]

def play(cfg, seq):
    """seq: answers for telemetry/position attempts in order of their kind's index; beyond it, 200"""
    kinds, ops, kw = cfg
    used = {"n": 0, "names": []}
    def answer(w, kind, i):
        name = "200"
        if kind in kinds:
            name = seq[used["n"]] if used["n"] < len(seq) else "200"
            used["n"] += 1
        w.requests[-1]["name"] = name
        w.clock += 20 if name in ("timeout", "conn") else 0.25
        return ANS[name]
    w = scenario(U, ops, {}, None, answer, max_steps=200000, max_clock=1.7e9 + 1e7, **dict({"upload_rate": 1, "user_callsign": "RX1", "user_radio": "rad", "user_antenna": "ant", "contact_email": "e@x", "software_name": "sw", "software_version": "9", "user_position_update_rate": 6}, **kw))
    return w, used["n"]

def body(r):
    return r["data"]

def check(a, w, cfg, seq, tag):
    kinds, ops, kw = cfg
    a.add("evaluations"); a.add("http_attempts", len(w.requests))
    if any(s != "200" for s in seq): a.add("distinct_nontrivial")
    ctx = lambda: f"config {ops} {kw}, answers {list(seq)}: attempts {[(r['kind'], r['name'], frames(r) if r['kind'] == 'telemetry' else None) for r in w.requests]}, accepted {w.accepted}"
    if w.problem: a.bad(f"{tag}:stuck", f"{w.problem}: {ctx()}"); return
    for n, e, tb in w.errors: a.bad(f"{tag}:thread-died", f"{tb} {ctx()}"); return
    R = kw.get("upload_retries", 5)
    pos, prev, att = 0, None, 0
    for r in batches(w):
        try:
            h = {k.lower(): v for k, v in dict(r["kw"].get("headers") or {}).items()}
            data = r["data"]
            if h.get("content-encoding") != "gzip": a.bad(f"{tag}:encoding", f"compressed body declared {h}"); return
            recs = json.loads(gzip.decompress(data))
        except Exception as e:
            a.bad(f"{tag}:body", f"attempt body not gzip JSON as declared: {e!r}; {ctx()}"); return
        if r["method"] != "PUT" or r["url"] != U.SondehubAmateurUploader.SONDEHUB_AMATEUR_URL or h.get("content-type") != "application/json":
            a.bad(f"{tag}:request", f"{r['method']} {r['url']} {h}")
        to = r["kw"].get("timeout")
        if not to or any(not x or x <= 0 for x in (to if isinstance(to, tuple) else (to,))): a.bad(f"{tag}:timeout", f"no timeout on the request: {to}")
        fs = [x.get("frame") for x in recs]
        again = prev is not None and att < R and (prev["name"] in RETRY or (prev["name"] in EXC and fs == frames(prev)))
        if again:
            att += 1
            if recs != json.loads(gzip.decompress(prev["data"])): a.bad(f"{tag}:retry-differs", f"retry does not carry the same batch; {ctx()}"); return
        else:
            if not fs or fs != w.accepted[pos:pos + len(fs)]:
                why = "sent again after " + prev["name"] if prev is not None and fs == frames(prev) else "wrong batch"
                a.bad(f"{tag}:{why.replace(' ', '-')}", ctx()); return
            pos += len(fs); att = 1
            for x, n in zip(recs, fs):
                exp = {"payload_callsign": "MC-UP", "frame": n, "lat": -34.0 - n, "lon": 138.0 + n, "alt": 1000 + n, f"extra_{n}": n * .5, "uploader_callsign": "RX1", "uploader_radio": "rad", "uploader_antenna": "ant", "software_name": "sw", "software_version": "9"}
                d = {k: x.get(k) for k, v in exp.items() if x.get(k) != v}
                if d: a.bad(f"{tag}:record", f"record {n} uploaded with {d}; {ctx()}"); return
        prev = r
    if R > 0:
        if pos != len(w.accepted): a.bad(f"{tag}:not-offered", f"only {pos} packets ever sent; {ctx()}")
        if prev is not None and prev["name"] in RETRY and att < R: a.bad(f"{tag}:gave-up-early", f"{att} of {R} attempts; {ctx()}")
    elif batches(w): a.bad(f"{tag}:attempts-without-allowance", ctx())
    # station position
    rate = kw.get("user_position_update_rate", 6) * 3600
    P = batches(w, "position")
    rounds = []
    for r in P:
        j = r["kw"].get("json", r["data"])
        if isinstance(j, (bytes, str)):
            try: j = json.loads(j)
            except Exception: j = None
        exp = {"software_name": "sw", "software_version": "9", "uploader_callsign": "RX1", "uploader_radio": "rad", "uploader_antenna": "ant", "uploader_contact_email": "e@x", "mobile": False}
        if not isinstance(j, dict) or any(j.get(k) != v for k, v in exp.items()): a.bad(f"{tag}:position-body", f"{j}; {ctx()}"); return
        want = [kw.get("user_position")]
        if w.moved and want[0] is not None: want.append((1.0, 2.0, 3.0))
        if (tuple(j["uploader_position"]) if j.get("uploader_position") is not None else None) not in want: a.bad(f"{tag}:position-value", f"{j}; {ctx()}")
        if r["method"] != "PUT" or r["url"] != U.SondehubAmateurUploader.SONDEHUB_AMATEUR_STATION_POSITION_URL: a.bad(f"{tag}:position-request", r["url"])
        to = r["kw"].get("timeout")
        if not to or any(not x or x <= 0 for x in (to if isinstance(to, tuple) else (to,))): a.bad(f"{tag}:timeout", f"no timeout on the position request: {to}")
        last = rounds[-1] if rounds else None
        if last and len(last) < R and (last[-1]["name"] in RETRY or last[-1]["name"] in EXC) and r["t"] - last[-1]["t"] < rate / 2:
            last.append(r)
        else:
            if last:
                gap = r["t"] - last[-1]["t"]
                if gap <= rate * .98: a.bad(f"{tag}:position-too-often", f"{gap} s after an attempt answered {last[-1]['name']} (interval {rate} s); {ctx()}"); return
                if gap > rate + kw.get("upload_rate", 1) + 60: a.bad(f"{tag}:position-late", f"{gap} s (interval {rate} s); {ctx()}")
            rounds.append([r])
    for ro in rounds:
        if ro[-1]["name"] == "500" and len(ro) < R: a.bad(f"{tag}:position-gave-up-early", f"{len(ro)} of {R} attempts; {ctx()}")
    if R > 0 and not P and any(o == "W" for o in ops): a.bad(f"{tag}:position-never", ctx())
    dur = w.closed_at - 1.7e9
    if P and w.closed_at - P[-1]["t"] > rate + kw.get("upload_rate", 1) + 60: a.bad(f"{tag}:position-stopped", f"last position {w.closed_at - P[-1]['t']} s before the end; {ctx()}")

def dfs(a, cfg, prefix, alph, tag, maxdepth):
    stack = [tuple(prefix)]
    while stack:
        seq = stack.pop()
        w, n = play(cfg, seq)
        check(a, w, cfg, seq, tag)
        for i in range(len(seq), min(n, maxdepth)):
            fill = seq + ("200",) * (i - len(seq))
            stack += [fill + (x,) for x in alph if x != "200"]

def w_dfs(a, item):
    cfg, prefix, alph, tag, depth = item
    dfs(a, cfg, prefix, alph, tag, depth)
    if len(prefix) == 1 and prefix[0] in ("503", "202-notjson"): a.sample({"answers_prefix": prefix, "config": str(cfg[1:])})

def jobs():
    T, P = ("telemetry",), ("position",)
    ALL = list(ANS)
    q = QUICK
    out = []
    def add(kinds, ops, kw, alph, tag, depth=99, split=1):
        cfg = (kinds, ops, kw)
        out.append((cfg, (), [ "200" ], tag, depth))        # the default path; prefixes below cover the rest
        # partition of the tree by first non-default answer
        for x in alph:
            if x != '200': out.append((cfg, (x,), alph, tag, depth))
        for i in range(1, depth if depth < 12 else 12):
            for x in alph:
                if x == "200": continue
                pre = ("200",) * i + (x,)
                w, n = play(cfg, ("200",) * i)
                if n > i: out.append((cfg, pre, alph, tag, depth))
                else: return
    add(T, ["A", "W", "C"], {"upload_retries": 1}, ALL, "one-attempt")
    add(T, ["A", "A", "W", "C"], {"upload_retries": 2}, ALL, "two-attempts")
    add(T, ["A", "A", "W", "C"], {"upload_retries": 3}, ALL, "three-attempts")
    add(T, ["A", "C"], {"upload_retries": 5}, SMALL, "default-attempts")
    add(T, ["A", "W", "A", "A", "W", "C"], {"upload_retries": 2}, SMALL if q else ALL, "two-batches")
    add(T, ["A", "W", "A", "W", "A", "C"], {"upload_retries": 2}, TINY if q else SMALL, "three-batches")
    add(T, ["A", "W", "A", "W", "A", "C"], {"upload_retries": 3}, TINY, "three-batches-3", 6 if q else 9)
    add(T, ["A", "W", "A", "C"], {"upload_retries": 0}, ["200"], "no-attempts")
    PK = {"user_position": (10.0, 20.0, 30.0), "user_position_update_rate": 0.02, "upload_rate": 10}
    add(P, ["A", "W", ("T", 300), "A", "W", "C"], dict(PK, upload_retries=1), TINY if q else SMALL, "position-1", 3 if q else 4)
    add(P, ["W", ("T", 100), "P", ("T", 120), "C"], dict(PK, upload_retries=2), ALL, "position-2", 2)
    add(P, ["W", ("T", 100), "P", ("T", 120), "C"], dict(PK, upload_retries=3), SMALL, "position-3", 4 if q else 6)
    add(P, ["W", ("T", 200), "C"], dict(PK, upload_retries=3, user_position=None), TINY, "position-none", 4)
    add(P + T, ["A", "W", "A", "W", ("T", 90), "A", "W", "C"], dict(PK, upload_retries=2), TINY, "mixed", 5 if q else 7)
    add(T, ["A", "W"] * 6 + ["C"], {"upload_retries": 2}, ["200", "500", "conn"] if q else TINY, "six-rounds", 8 if q else 7)
    for n in (60, 150, 400):                                   # a long backlog goes out as one batch, and is repeated as a whole
        add(T, ["A"] * n + ["W", "C"], {"upload_retries": 3}, TINY if q else SMALL, "backlog")
    add(T, ["A", "W"] + ["A"] * 120 + ["W", "A", "W", "C"], {"upload_retries": 2}, TINY, "backlog-between", 4)
    return out

def run(chk):
    global U, QUICK
    QUICK = chk.quick
    import_repo(ext=False); quiet()
    import horusdemodlib.sondehubamateur as U
    chk.cov["rule"] = f"evaluation = one complete run of the uploader against one sequence of answers (alphabet of {len(ANS)} answers incl. exceptions and malformed 202 bodies); non-trivial = at least one answer is not 200"
    pmap(chk, w_dfs, jobs())

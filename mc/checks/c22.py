"""C22: list loading. Every sequence (to a depth) of good/bad list entries; every short text over a small alphabet; download outcomes x stored-file states x
histories; and every file-system call of the storing step failing, cut short or crashing (LD_PRELOAD shim), against an entry-wise oracle."""
import contextlib, copy, ctypes, itertools, json, os, shutil, struct, subprocess, sys, tempfile, types
from vlib import *
from pymc import *
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["A crash is the end of the process at a file-system call (data already passed to the kernel survives); loss of power is not modelled.",
               "A custom field type with a documented range (times, coordinates) may refuse packets whose custom value is outside that range.",
               "When two entries define the same payload, either definition may be in force. Entries with an empty name, a number with Python-only notation, or a non-JSON type in an optional part are unspecified except that they must not disturb others.",
               "The HTTP status code of a download is not judged, only its text."]
MAGIC = "# HORUS BINARY PAYLOAD ID LIST\n"
# ---- payload list lines: (text, {id: name} it must provide)
PL_LINES = [("5,NAME-5", {5: "NAME-5"}), (" 6 , Spaced Name ", {6: "Spaced Name"}), ("65535, LAST\r", {65535: "LAST"}), ("5, OTHER-5", {5: "OTHER-5"}), ("256, TAKEN-OVER", {256: "TAKEN-OVER"}), ("0007, SEVEN", {7: "SEVEN"}), ("260,A*B/$C", {260: "A*B/$C"}),
            ("", {}), ("# comment, x", {}), ("#", {}), ("   ", {}), ("x,Y", {}), ("8", {}), ("8,A,B", {}), ("9,\u00e9\u00e8", {}), ("-1,NEG", {}), (",", {}), ("10;SEMI", {}), ("1.5,FLOAT", {}), ("\t11,", {}), ("99999999999999999999999,HUGE", {}), ("\ufeff12,BOM", {}), ("\0,\0", {}), ("1_3,X", {}), ("9" * 5000 + ",Z", {})]
DEFAULTS = {0: "4FSKTEST", 1: "HORUSBINARY", 256: "4FSKTEST-V2"}

def probe_ids(a, lst, ids, tag, ctx):
    P.HORUS_PAYLOAD_LIST = lst
    for i in ids:
        for pkt in ([c12.mk22(i, 3), c12.mk16(i, 3)] if i < 256 else [c12.mk32(i, 3)]):
            try:
                r = D.decode_packet(pkt)
                if i in lst and isinstance(i, int) and r["callsign"] != lst[i]: a.bad(f"callsign:{tag}", f"{ctx}: packet of id {i} reported as {r['callsign']!r}")
            except Exception as e: a.bad(f"undecodable:{tag}", f"{ctx}: packet of payload {i} -> {e!r}")

def check_pl(a, text, must, tag, lst=None):
    ctx = f"list text {text[:300]!r}"
    P.HORUS_PAYLOAD_LIST = dict(DEFAULTS)
    if lst is None:
        try: lst = P.parse_payload_list(text)
        except Exception as e: a.bad(f"raised:{tag}", f"{ctx}: {e!r}"); return
    for i, names in must.items():
        if lst.get(i) not in names: a.bad(f"entry-lost:{tag}", f"{ctx}: payload {i} is {lst.get(i)!r}, entry says {sorted(names)}")
    for i in DEFAULTS:
        if i not in lst: a.bad(f"default-lost:{tag}", f"{ctx}: built-in payload {i} missing")
        elif i not in must and lst[i] != DEFAULTS[i] and not re.search(rf"(?m)^[^\n,]*{i}[^\n,]*,", text): a.bad(f"default-changed:{tag}", f"{ctx}: built-in payload {i} became {lst[i]!r}")
    if P.HORUS_PAYLOAD_LIST != DEFAULTS: a.bad(f"defaults-modified:{tag}", ctx)
    extra = set(lst) - set(must) - set(DEFAULTS)
    if extra:
        have = set()                                   # numbers of the lines which have two fields; everything else is malformed
        for l in text.split("\n") + text.splitlines():
            if l.count(",") == 1:
                try: have.add(int(l.split(",")[0]))
                except ValueError: pass
        if extra - have: a.bad(f"malformed-entry-loaded:{tag}", f"{ctx}: payload(s) {sorted(extra - have, key=str)[:5]} defined by no well formed line")
    return lst

def merge(ls):
    m = {}
    for l in ls:
        for i, n in l[1].items(): m.setdefault(i, set()).add(n)
    return m

def w_pl(a, seqs):
    for s in seqs:
        a.add("evaluations"); a.add("distinct_nontrivial", any(not x[1] for x in s))
        text = "\n".join(x[0] for x in s) + ("\n" if len(s) % 2 else "")
        lst = check_pl(a, text, merge(s), "payload-list")
        if lst is not None and len(s) <= 2: probe_ids(a, lst, [i for i in lst if isinstance(i, int) and 0 <= i <= 65535] + [77, 777], "payload-list", f"list text {text[:200]!r}")
        P.HORUS_PAYLOAD_LIST = dict(DEFAULTS)
    a.sample([x[0][:40] for x in s])

ALPHA = "1,A\n# \r\xff\0"
def w_short(a, seqs):
    for t in seqs:
        a.add("evaluations"); text = "".join(t)
        must = {}
        for l in text.split("\n"):
            f = l.split(",")
            if len(f) == 2 and f[0].isascii() and f[0].isdigit() and f[1].strip("A") == "" and f[1]: must.setdefault(int(f[0]), set()).add(f[1])
        for l in text.split("\n"):                     # an entry with an empty or odd name for the same number: unspecified which is in force
            f = l.split(",")
            if len(f) == 2 and not (f[1] and f[1].strip("A") == ""):
                for i in list(must):
                    if str(i) in f[0]: del must[i]
        if must: a.add("distinct_nontrivial")
        check_pl(a, text, must, "short-text")

# ---- custom fields: name -> (JSON value, {payload: (struct, fields)} it must provide)
def cust_entries():
    g1 = {"struct": "<BbBfH", "fields": [["v", "battery_5v_byte"], ["t", "none"], ["c", "none"], ["f", "none"], ["i", "none"]]}
    g2 = {"struct": "<hhBHxx", "fields": [["a", "divide_by_100"], ["b", "divide_by_10"], ["c", None], ["d", "None"]]}
    g3 = {"struct": ">9b", "fields": [[f"b{i}", "none"] for i in range(9)]}
    g4 = {"struct": "9x", "fields": []}
    sp = lambda g: (g["struct"], g["fields"])
    F = lambda **k: dict(g1, **k)
    E = [("GOOD-A", g1, {"GOOD-A": sp(g1)}), ("GOOD-B", dict(g2, comment=[1, {}]), {"GOOD-B": sp(g2)}), ("GOOD-C", g3, {"GOOD-C": sp(g3)}), ("GOOD-D", g4, {"GOOD-D": sp(g4)}),
         ("SHARED", dict(g1, other_payloads=["ALSO-1", "ALSO-2"]), {"SHARED": sp(g1), "ALSO-1": sp(g1), "ALSO-2": sp(g1)}), ("SHARED2", dict(g2, other_payloads=["ALSO-2", "HORUSTEST2"]), {"SHARED2": sp(g2), "ALSO-2": sp(g2), "HORUSTEST2": sp(g2)}),
         ("SHARED3", dict(g2, other_payloads=[7, None, "ALSO-3", ["x"]]), {"SHARED3": sp(g2), "ALSO-3": sp(g2)}), ("SHARED4", dict(g1, other_payloads=[]), {"SHARED4": sp(g1)}), ("GOOD-A", g2, {"GOOD-A": sp(g2)}),
         ("OTHER-INT", F(other_payloads=5), None), ("OTHER-NULL", F(other_payloads=None), None), ("OTHER-STR", F(other_payloads="XY"), None), ("OTHER-DICT", F(other_payloads={"ALSO-9": 1}), None)]
    bad = {"size": F(struct="<BbBf"), "size10": F(struct="<BbBfHB"), "badstruct": F(struct="<Q?!"), "nostruct": {"fields": []}, "nofields": {"struct": "9x"}, "structint": F(struct=9), "structnull": F(struct=None), "structlist": F(struct=["<BbBfH"]), "few": F(fields=g1["fields"][:4]),
           "many": F(fields=g1["fields"] + [["z", "none"]]), "type": F(fields=[["v", "nosuch"]] + g1["fields"][1:]), "typelist": F(fields=[["v", ["none"]]] + g1["fields"][1:]), "typeint": F(fields=[["v", 3]] + g1["fields"][1:]), "notype": F(fields=[["v"]] + g1["fields"][1:]),
           "name": F(fields=[[5, "none"]] + g1["fields"][1:]), "namelist": F(fields=[[["v"], "none"]] + g1["fields"][1:]), "namenull": F(fields=[[None, "none"]] + g1["fields"][1:]), "fieldnull": F(fields=[None] + g1["fields"][1:]), "fieldint": F(fields=[1] + g1["fields"][1:]), "fieldsint": F(fields=5), "fieldsnull": F(fields=None),
           "fieldsstr": F(fields="abcde"), "fieldsdict": F(fields={"a": 1, "b": 2, "c": 3, "d": 4, "e": 5}), "floattype": F(fields=g1["fields"][:3] + [["f", "divide_by_10"], ["i", "none"]]), "floatbatt": F(fields=g1["fields"][:3] + [["f", "battery_5v_byte"], ["i", "none"]]), "bytes": {"struct": "9s", "fields": [["x", "none"]]},
           "chars": {"struct": "9c", "fields": [[f"c{i}", "none"] for i in range(9)]}, "bool": {"struct": "9?", "fields": [[f"c{i}", "none"] for i in range(9)]}, "pidfloat": F(fields=g1["fields"][:3] + [["f", "payload_id"], ["i", "none"]]), "hugestruct": F(struct="9" * 40 + "s"), "string": "x", "list": [], "null": None, "number": 4, "true": True, "empty": {},
           "nulstruct": F(struct="<BbBfH\0"), "unistruct": F(struct="\u00e9"), "emptystruct": F(struct="")}
    E += [("BAD-" + n, v, None) for n, v in bad.items()]
    return E
CDEF = ["HORUSTEST", "HORUSTEST2", "4FSKTEST-V2"]
PATT = [bytes(9), b"\xff" * 9, b"\x80" * 9, bytes(range(1, 10)), b"\0\0\x80\x7f" * 2 + b"\1", b"\0\0\xc0\x7f\xff\0\0\x80\x7f", b"\1\2\3\0\0\xc0\x7f\0\x80"]

def decode_all(a, lst, tag, ctx, only=None):
    P.HORUS_CUSTOM_FIELDS = lst
    P.HORUS_PAYLOAD_LIST = ids = {1000 + i: n for i, n in enumerate(lst)}
    for i, n in ids.items():
        if only is not None and n not in only: continue
        try: sp = (lst[n]["struct"], lst[n]["fields"]); ranged = any(f[1] in ("time_hms", "time_biseconds", "degree_float", "degree_fixed3") for f in sp[1])
        except Exception as e: a.bad(f"entry-broken:{tag}", f"{ctx}: loaded entry {n}: {lst[n]!r}"); continue
        for p in PATT:
            try: r = D.decode_packet(c12.mk32(i, 5, cust=p))
            except Exception as e:
                if not ranged or p == PATT[0] and not isinstance(e, ValueError): a.bad(f"undecodable:{tag}", f"{ctx}: packet of {n} with custom bytes {p.hex()}: {e!r}")
                continue
            vals = struct.unpack(sp[0], p)
            for (nm, ty), v in zip(sp[1], vals):
                if ty in ("none", "None", None) and list(x[0] for x in sp[1]).count(nm) == 1 and not deep_eq(r.get(nm), v): a.bad(f"value:{tag}", f"{ctx}: {n} field {nm}: {r.get(nm)!r} instead of {v!r}")

def check_cf(a, text, must, tag, lst=None, decode=None):
    ctx = f"custom field text {text[:400]!r}"
    if lst is None:
        P.HORUS_CUSTOM_FIELDS = copy.deepcopy(CORIG)
        try: lst = P.parse_custom_field_list(text)
        except Exception as e: a.bad(f"raised:{tag}", f"{ctx}: {e!r}"); return
    for n, sps in must.items():
        if n not in lst or not any(lst[n]["struct"] == s and lst[n]["fields"] == f for s, f in sps): a.bad(f"entry-lost:{tag}", f"{ctx}: {n} is {lst.get(n)!r}")
    for n in CDEF:
        if n not in lst: a.bad(f"default-lost:{tag}", f"{ctx}: {n} missing")
        elif n not in must and lst[n] != CORIG[n]: a.bad(f"default-changed:{tag}", f"{ctx}: {n} became {lst[n]!r}")
    for n in lst:
        if str(n).startswith("BAD-"): a.add("bad_entries_loaded")
    if decode: decode_all(a, lst, tag, ctx, None if decode is True else decode)
    P.HORUS_CUSTOM_FIELDS = copy.deepcopy(CORIG); P.HORUS_PAYLOAD_LIST = dict(DEFAULTS)
    return lst

def cmerge(es):
    m = {}
    seen = {}
    for n, v, must in es:
        seen[n] = (v, must)
    for n, (v, must) in seen.items():
        for k, sp in (must or {}).items(): m.setdefault(k, []).append(sp)
    return m
def ctext(es): return "{" + ", ".join(f"{json.dumps(n)}: {json.dumps(v)}" for n, v, _ in es) + "}"

def w_cf(a, seqs):
    for s in seqs:
        a.add("evaluations"); a.add("distinct_nontrivial", any(not x[2] for x in s))
        m = cmerge(s)
        check_cf(a, ctext(s), m, "custom", decode=True if len(s) == 1 else [x for x in list(m) + [y[0] for y in s if not y[2]]])
    a.sample([x[0] for x in s])

def w_types(a, codes):
    """every field type against every struct code: accepted descriptions must decode every packet"""
    types_ = ["none", "payload_id", "time_hms", "time_biseconds", "degree_float", "degree_fixed3", "battery_5v_byte", "divide_by_10", "divide_by_100", "", "custom"]
    for c in codes:
        for pre in ("<", ">", "=", "@", "!", ""):
            for ty in types_:
                try: n = struct.calcsize(pre + c)
                except struct.error: continue
                if n > 9: continue
                a.add("evaluations"); a.add("distinct_nontrivial")
                e = {"struct": f"{pre}{c}{9 - n}x", "fields": [["q", ty]] * len(struct.unpack(pre + c, bytes(n)))}
                check_cf(a, json.dumps({"T": e}), {}, "field-type", decode=["T"])

def w_jsontext(a, items):
    for t in items:
        a.add("evaluations"); a.add("distinct_nontrivial")
        check_cf(a, t, {}, "json-text", decode=CDEF)
def json_texts():
    out = ["", "null", "[]", "3", "\"x\"", "NaN", "{", "}", "{}", "\ufeff{}", "{\"HORUSTEST\"}", "{\"HORUSTEST\": }", "[" * 100000, "{\"a\":" * 100000, "{\"HORUSTEST\": 1}", "{\"HORUSTEST\": null}", "{\"HORUSTEST\": {\"struct\": \"<BbB\", \"fields\": []}}", "{\"HORUSTEST\": []}", "{\"HORUSTEST2\": {\"struct\": 4, \"fields\": 5}}",
           "{\"4FSKTEST-V2\": {\"struct\": \"<hhBHxx\", \"fields\": [1,2,3,4]}}", "\0", "\udc80"]
    full = ctext(cust_entries()[:5])
    return out + [full[:i] for i in range(0, len(full), 3)] + [full[:i] + "\0" + full[i + 1:] for i in range(0, len(full), 7)]

# ---- downloads, stored files, histories
PL_A, PL_B = MAGIC + "700, OLD\n5, FIVE\nbad line\n", MAGIC + "701, NEW\n6, SIX\n"
PL_BAD = ["", "not a list\n700, EVIL\n", "<html>404</html>", MAGIC[:20], "702, EVIL\n"]
CF_ = lambda n: json.dumps({"HORUSTEST": cust_entries()[0][1], n: cust_entries()[1][1]})
CF_A, CF_B = CF_("OLD-CF"), CF_("NEW-CF")
CF_BAD = ["", "HORUSTEST", "{\"HORUSTEST\": {", "[\"HORUSTEST\"]", "{\"EVIL\": {}}", "\"HORUSTEST\"", CF_A[:-1], "null // HORUSTEST"]
ERR = [OSError("unreachable"), ValueError("bad url"), RuntimeError("x"), KeyError("k")]

class Resp:
    def __init__(s, t): s.text, s.status_code, s.ok, s.headers, s.reason, s.encoding = t, 200, True, {}, "OK", "utf-8"
    @property
    def content(s): return s.text.encode("utf-8", "surrogatepass")
    def json(s): return json.loads(s.text)
    def raise_for_status(s): pass
    def close(s): pass
    def __enter__(s): return s
    def __exit__(s, *a): pass
NEXT, GETS = [None], [0]
def fake_get(url, *a, **k):
    GETS[0] += 1
    if isinstance(NEXT[0], BaseException): raise type(NEXT[0])(*NEXT[0].args)
    return Resp(NEXT[0])
def fake_requests():
    import requests as RQ
    class M(types.ModuleType): pass
    m = M("requests"); m.__dict__.update({k: getattr(RQ, k) for k in dir(RQ) if not k.startswith("__")}); m.get = fake_get
    for k, v in list(P.__dict__.items()):
        if v is RQ: P.__dict__[k] = m
        elif v is RQ.get: P.__dict__[k] = fake_get

def reset():
    P.HORUS_PAYLOAD_LIST, P.HORUS_CUSTOM_FIELDS = dict(DEFAULTS), copy.deepcopy(CORIG)
KINDS = {"ids": dict(init=lambda **k: P.init_payload_id_list(**k), read=lambda **k: P.read_payload_list(**k), dl=lambda **k: P.download_latest_payload_id_list(**k), A=PL_A, B=PL_B, bad=PL_BAD, mark={PL_A: 700, PL_B: 701}),
         "fields": dict(init=lambda **k: P.init_custom_field_list(**k), read=lambda **k: P.read_custom_field_list(**k), dl=lambda **k: P.download_latest_custom_field_list(**k), A=CF_A, B=CF_B, bad=CF_BAD, mark={CF_A: "OLD-CF", CF_B: "NEW-CF"})}
STORED = [None, "A", b"", b"\xff\xfe garbage", b"random text\n, , ,\n", "DIR", "MISSINGDIR"]

def w_history(a, items):
    for kind, st, seq, nod in items:
        K = KINDS[kind]
        with tempfile.TemporaryDirectory(dir=SCR[0]) as d:
            f = os.path.join(d, "list")
            if st == "DIR": os.mkdir(f)
            elif st == "MISSINGDIR": f = os.path.join(d, "no", "list")
            elif st is not None: open(f, "wb").write(K["A"].encode() if st == "A" else st)
            disk = K["A"].encode() if st == "A" else st
            for j, out in enumerate(seq):
                a.add("evaluations"); reset()
                good = isinstance(out, str) and out in K["mark"]
                if not good: a.add("distinct_nontrivial")
                NEXT[0], GETS[0] = out, 0
                ctx = f"{kind}: stored {st!r}, downloads {[str(x)[:60] for x in seq[:j + 1]]}, nodownload {nod}"
                try: lst = K["init"](filename=f, nodownload=nod)
                except Exception as e: a.bad(f"load-raised:{kind}", f"{ctx}: {e!r}"); break
                if nod and GETS[0]: a.bad(f"downloaded:{kind}", ctx)
                if good and not nod and isinstance(disk, (bytes, type(None))): disk = out.encode()
                want = out if good and not nod else disk.decode() if isinstance(disk, bytes) and disk.decode("latin-1") in K["mark"] else None
                for t, m in K["mark"].items():
                    if t == want and m not in lst: a.bad(f"list-not-used:{kind}", f"{ctx}: {m!r} not in the loaded list")
                    if t != want and m in lst: a.bad(f"wrong-list:{kind}", f"{ctx}: {m!r} in the loaded list")
                for n in (DEFAULTS if kind == "ids" else CDEF):
                    if n not in lst: a.bad(f"default-lost:{kind}", f"{ctx}: {n}")
                if any("EVIL" in str(x) for x in lst.items()): a.bad(f"invalid-download-used:{kind}", f"{ctx}: {lst}")
                if isinstance(disk, bytes) or disk is None:
                    now = open(f, "rb").read() if os.path.exists(f) else None
                    if now != disk: a.bad(f"stored-file:{kind}", f"{ctx}: the stored file is {now!r}, expected {disk!r}")
                    if [x for x in os.listdir(d) if x != "list"]: a.add("extra_files_left")
            # the two halves by themselves
            reset(); NEXT[0] = seq[-1]
            try:
                r = K["dl"](filename=None)
                if (r is None) == (isinstance(seq[-1], str) and seq[-1] in K["mark"]): a.bad(f"download-result:{kind}", f"{kind}: download of {str(seq[-1])[:80]!r} returned {str(r)[:100]}")
            except Exception as e: a.bad(f"download-raised:{kind}", f"download of {str(seq[-1])[:80]!r}: {e!r}")
    a.sample((kind, st, [str(x)[:30] for x in seq]))

# ---- faults and crashes while storing (run in a child interpreter with the shim preloaded)
MODES = {1: "crash before", 2: "crash after", 3: "crash half way through", 4: "fails once (ENOSPC)", 5: "fails from here on", 6: "short write", 7: "short write, then failures", 8: "fails once (EIO)", 9: "fails from here on, removals work"}
def child(kind, f, text, k, mode, shim):
    """one download with the k-th file-system call disturbed -> (status, calls)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            reset(); NEXT[0] = text
            K = KINDS[kind]
            shim.shim_arm(os.path.dirname(f).encode(), k, mode)
            try:
                lst = K["init"](filename=f); s = "ok" if K["mark"][text] in lst else f"list without the downloaded entries"
            except BaseException as e: s = f"raised {e!r}"
            n = shim.shim_count()
            shim.shim_name.restype = ctypes.c_char_p
            os.write(w, json.dumps([s, [shim.shim_name(i).decode() for i in range(min(n, 64))]]).encode()[:60000])
        finally: os._exit(0)
    os.close(w)
    data = b""
    while x := os.read(r, 65536): data += x
    os.close(r); st = os.waitpid(pid, 0)[1]
    return json.loads(data) if data else [f"crashed {os.waitstatus_to_exitcode(st)}", []]

def after(a, kind, f, allowed, ctx):
    K = KINDS[kind]
    now = open(f, "rb").read() if os.path.exists(f) else None
    if now not in allowed: a.bad(f"stored-file-damaged:{kind}", f"{ctx}: the stored file is now {now!r:.300}")
    reset(); NEXT[0] = OSError("down")
    try: lst = K["init"](filename=f)
    except Exception as e: a.bad(f"load-raised-after:{kind}", f"{ctx}: {e!r}"); return now
    if now in allowed and now is not None and now.decode() in K["mark"] and K["mark"][now.decode()] not in lst: a.bad(f"stored-not-used:{kind}", f"{ctx}")
    return now

def fault_worker(items, so):
    a = Acc()
    shim = ctypes.CDLL(so)
    pad = lambda kind, t, n: t + ("# " + "x" * n + "\n" if kind == "ids" else " " * n)
    for kind, size, stored, double in items:
        K = KINDS[kind]
        A, B = pad(kind, K["A"], size), pad(kind, K["B"], size)
        K["mark"].update({A: K["mark"][K["A"]], B: K["mark"][K["B"]]})
        def fresh(d):
            f = os.path.join(d, "list")
            if stored: open(f, "w").write(A)
            return f, ({A.encode(), B.encode()} if stored else {None, B.encode()})
        with tempfile.TemporaryDirectory(dir=SCR[0]) as d:
            f, al = fresh(d)
            s, calls = child(kind, f, B, 0, 0, shim)
            if s != "ok" or open(f).read() != B: a.bad(f"store:{kind}", f"undisturbed download: {s}, calls {calls}")
            if len(calls) < 2: raise RuntimeError(f"shim saw only {calls}")
        for k in range(len(calls) + 2):
            for mode in MODES:
                with tempfile.TemporaryDirectory(dir=SCR[0]) as d:
                    f, al = fresh(d)
                    a.add("evaluations"); a.add("distinct_nontrivial"); a.add("fault_points")
                    s, c = child(kind, f, B, k, mode, shim)
                    ctx = f"{kind}, {len(B)} bytes, stored file {'present' if stored else 'absent'}, call {k} of {calls} {MODES[mode]}: {s}"
                    if mode > 3 and s != "ok": a.bad(f"fault:{kind}", ctx)
                    now = after(a, kind, f, al, ctx)
                    if not double: continue
                    # a second download after the disturbed one: undisturbed, and disturbed at every point
                    keep = [(x, open(os.path.join(d, x), "rb").read()) for x in os.listdir(d)]
                    for k2, m2 in [(0, 0)] + [(q, m) for q in range(len(calls) + 1) for m in (1, 3, 5)]:
                        for x in os.listdir(d): os.unlink(os.path.join(d, x))
                        for x, y in keep: open(os.path.join(d, x), "wb").write(y)
                        a.add("evaluations"); a.add("double_faults")
                        s2, c2 = child(kind, f, A, k2, m2, shim)
                        ctx2 = f"{ctx}; then another download with call {k2} {MODES.get(m2, 'undisturbed')}: {s2}"
                        now2 = after(a, kind, f, {now, A.encode()}, ctx2)
                        if m2 == 0 and (s2 != "ok" or now2 != A.encode()): a.bad(f"store-after-fault:{kind}", ctx2)
        a.sample((kind, size, stored, calls))
    return a

SCR = [None]
def imports():
    global P, D, CORIG
    import_repo(ext=False); quiet()
    import horusdemodlib.payloads as P, horusdemodlib.decoder as D
    CORIG = copy.deepcopy(P.HORUS_CUSTOM_FIELDS)
    global c12
    from checks import c12
    fake_requests()

def fault_main(so, scr, items):
    imports(); SCR[0] = scr
    with contextlib.redirect_stdout(sys.stderr):
        try: a = fault_worker(items, so)
        except BaseException as e: import traceback; traceback.print_exc(); raise
    print("RESULT " + json.dumps([a.stat, a.viol, a.samples]))

def run(chk):
    imports()
    q = chk.quick
    chk.cov["rule"] = "evaluation = one load, download or disturbed store; non-trivial = contains a malformed entry, a failing download or a fault. fault_points = (file-system call, disturbance) pairs of the storing step"
    with tempfile.TemporaryDirectory(prefix="c22", ignore_cleanup_errors=True) as d, contextlib.ExitStack() as stack:
        SCR[0] = d
        os.chdir(d); stack.callback(os.chdir, "/")
        # faults in the background
        so = cbuild("fsshim", ["fsshim.c"], [], cflags=["-fPIC"], ldflags=["-shared", "-ldl"])
        items = [(k, n, s, dbl) for k in KINDS for s in (0, 1) for n, dbl in ([(0, True), (20000, False)] if q else [(0, True), (20000, True), (70000, True)])]
        procs = []
        for it in items:
            code = f"import sys; sys.dont_write_bytecode=True; sys.path.insert(0,{os.path.join(VERIF, 'mc')!r}); import checks.c22 as C; C.fault_main({so!r},{d!r},{[it]!r})"
            procs.append((it, subprocess.Popen([PY, "-c", code], env=dict(os.environ, LD_PRELOAD=so, HORUS_REPO=REPO), stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
            stack.callback(procs[-1][1].kill)
        L = PL_LINES
        seqs = [s for n in range(4) for s in itertools.product(L, repeat=n)]
        if not q: seqs += list(itertools.product(L[:1] + L[3:5] + L[7:9] + L[11:17], repeat=4))
        pmap(chk, w_pl, chunks(seqs, 400))
        pmap(chk, w_short, chunks(itertools.chain(*(itertools.product(ALPHA, repeat=n) for n in range(6 if q else 7))), 2000))
        C = cust_entries()
        seqs = [s for n in range(3) for s in itertools.product(C, repeat=n)] + [(x, y, z) for x in (C if not q else C[13:]) for y in C[:9] for z in (C if not q else C[9:20])]
        pmap(chk, w_cf, chunks(seqs, 50))
        pmap(chk, w_types, ["b", "B", "h", "H", "i", "I", "l", "L", "q", "Q", "n", "N", "e", "f", "d", "c", "?", "s", "3s", "9s", "p", "P", "bb", "3b", "xb", "0s", "hb", "9x"])
        pmap(chk, w_jsontext, chunks(json_texts(), 20))
        H = []
        for k, K in KINDS.items():
            outs = [K["A"], K["B"]] + K["bad"] + ERR[:2 if q else 4]
            for st in STORED:
                for n in (1, 2) if q else (1, 2, 3):
                    H += [(k, st, s, nod) for s in itertools.product(outs, repeat=n) for nod in ((False, True) if n == 1 else (False,))]
        pmap(chk, w_history, chunks(H, 30))
        # relative names fall back to the lists shipped with the project
        a = Acc()
        for nm, K in KINDS.items():
            fn = {"ids": "payload_id_list.txt", "fields": "custom_field_list.json"}[nm]
            text = open(os.path.join(REPO, fn), encoding="utf-8").read()
            for out in ERR + K["bad"]:
                reset(); NEXT[0] = out; a.add("evaluations"); a.add("distinct_nontrivial")
                lst = K["init"](filename=fn)
                if nm == "ids":
                    must = {}
                    for l in text.splitlines():
                        m = re.match(r"^\s*(\d+)\s*,\s*([\x21-\x7e][\x20-\x2b\x2d-\x7e]*?)\s*$", l)
                        if m and not l.startswith("#"): must.setdefault(int(m[1]), set()).add(m[2])
                    a.stat["shipped_entries"] = len(must)
                    check_pl(a, "shipped list", must, "shipped", lst)
                else:
                    js = json.loads(text)
                    for n, e in js.items():
                        if n not in lst or lst[n]["struct"] != e["struct"] and n not in [y for x in js.values() for y in x.get("other_payloads", [])]: a.bad("entry-lost:shipped-fields", n)
                    decode_all(a, lst, "shipped", "shipped custom fields")
                if os.listdir(d) and fn in os.listdir(d): a.bad("stored-file:shipped", f"{fn} appeared after a failed download")
        fold(chk, a)
        for it, p in procs:
            o, e = p.communicate(timeout=800)
            r = [l for l in o.decode().splitlines() if l.startswith("RESULT ")]
            if not r: raise RuntimeError(f"fault worker {it}: {e.decode()[-2000:]}")
            a = Acc(); a.stat, a.viol, a.samples = json.loads(r[0][7:])
            fold(chk, a)

"""C15: UKHAS sentences: cartesian products of field texts, every single character edit, truncation and checksum value, against an independent acceptance oracle."""
import itertools
from vlib import *
from pymc import *
LEVEL = "exploration"
ASSUMPTIONS = ["Field texts are classed valid / invalid / unspecified beforehand; Python numeral quirks ('1_0', '+1', ' 1', '1e1', five digit times) and negative sequence numbers are unspecified: either verdict is allowed.",
               "Sentences without a leading '$', or with text after the checksum's end, are unspecified as to acceptance, but if accepted must carry the transmitted values."]
V, I, U = "valid", "invalid", "unspec"
def cls(valid, invalid, unspec=()):
    return [(x, V) for x in valid] + [(x, I) for x in invalid] + [(x, U) for x in unspec]
CALL = cls(["A", "HORUS-1", "a b", "x" * 40, "N0CALL/P", "1", "-"], [], [""])
SEQ = cls(["0", "1", "00012", "65535", "65536", "4294967296"], ["", "x", "1.0", "1e3", "0x10", "--1", "1 2", "nan", "1-", "."], ["-1", "+1", " 1", "1_0"])
TIME = cls(["00:00:00", "23:59:59", "12:34:56", "000000", "235959", "010203", "20:00:09"],
           ["24:00:00", "23:60:00", "23:59:60", "23:59:61", " ", "", "12:34", "12:34:56:78", "240000", "236000", "235960", "-1:00:00", "aa:bb:cc", "12-34-56", "1234567", "12:34:56.5", "12:34:5x",
            "123456.5", ":", "::", "99:99:99", "12:34:56Z", "235961", "123456x"], ["1:2:3", "12345", "12:3456", "1234", "1:02:03", " 12:34:56", "12:34:56 "])
LAT = cls(["0", "-34.5", "90", "-90.0", "90.000", "0.00000", "-0.0", "34.123456789", "89.999999", "-.5", "5."], ["90.00001", "-90.1", "91", "180", "nan", "inf", "-inf", "1e400", "", "x", "34S", "3 4", "NaN", "--1", "1.2.3", "-", "Infinity", "1e2", "0x1", "S34"], ["1e1", " 5", "1_0", "+5"])
LON = cls(["0", "138.5", "180", "-180.0", "180.000", "-0.00001", "179.999999", "90.5", "-120"], ["180.00001", "-180.1", "181", "360", "nan", "inf", "-inf", "1e400", "", "x", "138E", "1 3", "-NaN", "1e3"], ["1e2", " 5", "1_0", "+5"])
ALT = cls(["0", "1", "65535", "00100", "30000"], ["-1", "65536", "1.5", "", "x", "nan", "1e3", "99999999999", "-65535", "100m", "1 0"], ["+1", " 1", "-0", "1_0"])
F = [CALL, SEQ, TIME, LAT, LON, ALT]
BASE = ["HORUS-1", "42", "12:34:56", "-34.5", "138.5", "30000"]

def refcrc(b):
    c = 0xffff
    for x in b:
        c ^= x << 8
        for _ in range(8):
            c = (c << 1 ^ 0x1021) & 0xffff if c & 0x8000 else c << 1 & 0xffff
    return "%04X" % c

_T = [0] * 256
for _i in range(256):
    c = _i << 8
    for _ in range(8): c = (c << 1 ^ 0x1021) & 0xffff if c & 0x8000 else c << 1 & 0xffff
    _T[_i] = c
def fastcrc(b):
    c = 0xffff
    for x in b: c = (c << 8 & 0xffff) ^ _T[c >> 8 ^ x]
    return "%04X" % c

def want(fs):
    t = fs[2]
    t = t if ":" in t else t[:2] + ":" + t[2:4] + ":" + t[4:]
    return dict(callsign=fs[0], sequence_number=int(fs[1]), time=t, latitude=float(fs[3]), longitude=float(fs[4]), altitude=int(fs[5]))

def call(s):
    try:
        return D.parse_ukhas_string(s), None
    except ValueError as e:
        return None, e

def judge(a, s, verdict, fs, tag):
    a.add("evaluations")
    try:
        got, err = call(s)
    except Exception as e:
        a.bad(f"exception:{tag}:{type(e).__name__}", f"{s!r} raised {e!r} instead of a value error"); return
    if verdict == V and got is None:
        a.bad(f"refused:{tag}", f"valid sentence {s!r} refused: {err}")
    elif verdict == I and got is not None:
        a.bad(f"accepted:{tag}", f"invalid sentence {s!r} accepted as {got}")
    elif verdict == V:
        a.add("accepted")
        for k, v in want(fs).items():
            g = got.get(k)
            if g != v or type(g) is not type(v) or (v == 0 and str(g) != str(v)):
                a.bad(f"value:{tag}:{k}", f"{s!r}: {k} sent {v!r}, reported {g!r}")
        if got.get("modulation") != "RTTY":
            a.bad("modulation", got.get("modulation"))
        if got.get("raw") != (s.decode("ascii") if isinstance(s, bytes) else s).strip():
            a.bad("raw", f"{got.get('raw')!r} for {s!r}")
    else:
        a.add("refused" if got is None else "unspecified_accepted")
    if verdict != U: a.add("distinct_nontrivial")

def build(fs, lead="$$", tail="", end=""):
    body = ",".join(fs) + tail
    return f"{lead}{body}*{fastcrc(body.encode('latin1'))}{end}"

def w_product(a, heads):
    vals = [[x for x, c in f if c == V] for f in F]
    for h in heads:
        for rest in itertools.product(*vals[2:]):
            fs = list(h) + list(rest)
            judge(a, build(fs), V, fs, "product")

def verdict(cs):
    return I if I in cs else U if U in cs else V

def w_pairs(a, item):
    i, j = item
    for (x, cx), (y, cy) in itertools.product(F[i], F[j]):
        fs = list(BASE); fs[i], fs[j] = x, y
        judge(a, build(fs), verdict([cx, cy]), fs, "pairs")
        judge(a, build(fs).encode(), verdict([cx, cy]), fs, "pairs-bytes")
    a.sample(build(fs))

LEADS = [("$" * n, V) for n in range(1, 12)] + [("", U), ("$$a$$", U), ("$$A,1,00:00:00,1,1,1*0000$$", U), ("\x00$$", U), ("u$$", U)]
WS = ["", " ", "\t", "\n", "\r\n", "  \t ", "\r", "\x0b\x0c"]
ENDS = [(w, V) for w in WS] + [("*", U), ("*0000", U), ("\r\n*FFFF", U)]
BADENDS = ["0", "A", "x", " x", "\x00", ",5", "\n$$", "$", " F", "\r\nX"]
TAILS = [(x, V) for x in ["", ",", ",5", ",a,b,c", ",-5.0,x,,", ",0" * 30, ",,,", ", ", ",:;!\"#%&'()+/<=>?@[]^_`{|}~"]]
def w_framing(a, item):
    call_ = item
    for (l, cl), w1, (t, ct), (e, ce) in itertools.product(LEADS, WS, TAILS, ENDS):
        fs = [call_] + BASE[1:]
        s = w1 + build(fs, l, t, e)
        v = verdict([cl, ct, ce])
        if not l: v = U
        judge(a, s, v, fs, "framing")
    for e in BADENDS:
        fs = [call_] + BASE[1:]
        judge(a, build(fs, end=e), I, fs, "text-after-checksum")

SENT = [BASE, ["A", "0", "000000", "0", "0", "0"], ["x y", "65535", "23:59:59", "-90.0", "180.000", "65535"], ["N0CALL/P", "7", "010203", "34.123456789", "-0.00001", "1"]]
TAILS2 = ["", ",1,2.5,z", ",", ","+"q"*60]
def ok_ref(s):
    """does the reference see a matching checksum in s?"""
    s = s.strip().split("$")[-1]
    if "*" not in s: return False
    body, crc = s.split("*")[:2]
    try: return fastcrc(body.encode("ascii")) == crc
    except UnicodeError: return False

def w_edit(a, item):
    fs, tail, pos, lead = item
    s = build(fs, lead, tail)
    n0 = len(lead)
    muts = []
    chars = [chr(c) for c in range(256)] + ["\u0660", "\uff11", "\u2028", "\U0001f388", "\ud800"]
    if pos < len(s):
        muts += [("subst", s[:pos] + c + s[pos + 1:]) for c in chars if c != s[pos]]
        muts += [("delete", s[:pos] + s[pos + 1:])]
        if pos + 1 < len(s) and s[pos] != s[pos + 1]: muts += [("swap", s[:pos] + s[pos + 1] + s[pos] + s[pos + 2:])]
        if pos + 2 < len(s): muts += [("delete2", s[:pos] + s[pos + 2:])]
        muts += [("truncate", s[:pos])]
        muts += [("dup", s[:pos] + s[pos] + s[pos:])] if s[pos] != "$" or pos > n0 else []
    muts += [("insert", s[:pos] + c + s[pos:]) for c in chars if not (c == "$" and pos == n0) and not (pos == len(s) and (c == "*" or c.isspace()))]
    for kind, m in muts:
        if ok_ref(m) and kind not in ("subst", "swap"):
            a.add("checksum_coincidence"); continue
        judge(a, m, I, None, "edit-" + kind)
        try: b = m.encode("latin1")
        except UnicodeError: continue
        judge(a, b, I, None, "edit-bytes-" + kind)

def w_crc(a, item):
    fs, lo, hi = item
    body = ",".join(fs); good = fastcrc(body.encode())
    for x in range(lo, hi):
        h = "%04X" % x
        judge(a, f"$${body}*{h}", V if h == good else I, fs, "checksum")
    if lo == 0:
        for bad in (good[1:], good + "0", "0" + good, good[:3], good[:1], "", good[::-1] if good[::-1] != good else "!", "0x" + good, " " + good, good[:2] + " " + good[2:], good + good):
            judge(a, f"$${body}*{bad}", I, fs, "checksum-form")
        judge(a, f"$${body}{good}", I, fs, "no-star"); judge(a, f"$${body}", I, fs, "no-star")

def w_short(a, item):
    n, first = item
    for r in itertools.product(ALPH, repeat=n - 1):
        judge(a, "".join((first,) + r), I, None, "short")
ALPH = "$*,A0\n:F-"

def w_fields(a, _):
    for n in range(0, 6):
        for tail in ("", ","):
            fs = BASE[:n]
            judge(a, build(fs, tail=tail if n < 5 else ""), I, None, "few-fields")
    for s in ("", "$", "$$", "$$*", "*", "$$*FFFF", "$$$*FFFF", "*FFFF", "$$,,,,,*" + fastcrc(b",,,,,"), "\x00", "$$" + "A" * 5000):
        judge(a, s, I, None, "fragments"); judge(a, s.encode(), I, None, "fragments")
    for c in (bytes(range(256)), b"\xff", b"$$\xff*0000"):
        judge(a, c, I, None, "bytes")
    assert fastcrc(b"123456789") == refcrc(b"123456789") == "29B1"

def w_seqs(a, _):
    for h in range(24):
        for m in range(60):
            for s in range(60) if m in (0, 59) or h in (0, 23) else (0, 1, 59):
                for t in ("%02d:%02d:%02d" % (h, m, s), "%02d%02d%02d" % (h, m, s)):
                    fs = list(BASE); fs[2] = t
                    judge(a, build(fs), V, fs, "times")
    for al in list(range(0, 65536, 1 if not QUICK else 7)) + [65535]:
        fs = list(BASE); fs[5] = str(al); fs[1] = str(al)
        judge(a, build(fs), V, fs, "altitudes")
    for al in range(65536, 70000, 3):
        fs = list(BASE); fs[5] = str(al); judge(a, build(fs), I, fs, "altitudes")

def run(chk):
    global D, QUICK
    QUICK = chk.quick
    import_repo(ext=False); quiet()
    import horusdemodlib.decoder as D
    chk.cov["rule"] = "evaluation = one string or byte string given to parse_ukhas_string; non-trivial = its verdict (accept with exact values / refuse with ValueError) is specified"
    heads = list(itertools.product([x for x, c in CALL if c == V], [x for x, c in SEQ if c == V]))
    pmap(chk, w_product, chunks(heads, 2))
    pmap(chk, w_pairs, [(i, j) for i in range(6) for j in range(6) if i < j])
    pmap(chk, w_framing, [x for x, c in CALL if c == V])
    edits = []
    for fs in SENT:
        for tail in (TAILS2 if not QUICK else TAILS2[:2]):
            for lead in ("$$", "$$$$") if not QUICK else ("$$",):
                s = build(fs, lead, tail)
                edits += [(fs, tail, p, lead) for p in range(len(lead), len(s) + 1)]
    pmap(chk, w_edit, edits)
    crcs = [(fs, lo, lo + 4096) for fs in (SENT if not QUICK else SENT[:2]) for lo in range(0, 65536, 4096)]
    pmap(chk, w_crc, crcs)
    pmap(chk, w_short, [(n, c) for n in range(1, 6 if QUICK else 7) for c in ALPH])
    run1(chk, w_fields); run1(chk, w_seqs)

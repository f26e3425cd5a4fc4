"""C14: every history (to a depth) of version 3 packets over payloads x sensor slots x {absent, unnamed, name A, name B}, compared with a last-announcement model."""
import itertools
from vlib import *
from pymc import *
import uper
from checks.v3common import *
LEVEL = "exploration"
ASSUMPTIONS = ["The model is the map (payload, slot) -> last announced name; its every step is executed against decode_packet.",
               "Wide histories (many payloads) and long ones (many packets, clock jumps) are a fixed family: announcements in order, every payload queried.",
               "Each history uses its own payload names, so histories are independent of one another; payload names include a prefix of another and names differing in case only."]
KINDS = [("horusInt", [3, -4]), ("horusStr", "TXT"), ("horusReal", [1.5]), ("horusBool", {f"b{i}": i == 2 for i in range(8)}), None]
NAMES = [None, "a", "bb"]
BADNAME = [40]

def letters(nslots, npay, kinds=True):
    """alphabet of packets: (payload, tuple of per-slot choice); a slot choice is 0 unnamed / 1 name a / 2 name bb; shorter tuples = absent slots"""
    out = []
    for p in range(npay):
        for n in range(nslots + 1):
            for c in itertools.product(range(3), repeat=n):
                out.append((p, c))
    return out

CALLSETS = [[lambda i: "z" + b62(i), lambda i: "z" + b62(i) + "1", lambda i: "Z" + b62(i)],
            [lambda i: "d" + b62(i) + "-1", lambda i: "d" + b62(i) + "-2", lambda i: "d" + b62(i)],
            [lambda i: "1/e" + b62(i), lambda i: "2/e" + b62(i), lambda i: "e" + b62(i) + "/1"],
            [lambda i: "f" + b62(i) + "LONGNAMEA", lambda i: "f" + b62(i) + "LONGNAMEB", lambda i: "F" + b62(i) + "LONGNAMEA"]]
def b62(x):
    s = ""
    for _ in range(5):
        s = uper.CALL[2:][x % 62] + s; x //= 62
    return s

def play(a, hist, uid, kindshift=0):
    a.add("histories")
    model = {}
    for step, (p, c) in enumerate(hist):
        a.add("evaluations")
        call = CALLSETS[uid % len(CALLSETS)][p](uid)
        if c == "refused":
            # damaged announcement: must not be remembered
            pk = bytearray(hcrc(uper.encode(dict(MIN, payloadCallsign=call, extraSensors=[{"name": "evil", "values": KINDS[0]}] * 4))))
            pk[-1] ^= 1
            try: D.decode_packet(bytes(pk)); a.bad("damaged-accepted", "damaged packet accepted")
            except ValueError: pass
            continue
        if c == "violating":
            pk = hcrc(uper.encode(dict(MIN, payloadCallsign=call, humidityPercentage=127, extraSensors=[{"name": "evil", "values": KINDS[0]}] * 4)))
            try: D.decode_packet(pk); a.bad("violating-accepted", "packet violating the schema accepted")
            except Exception: pass
            continue
        ss = []
        for slot, k in enumerate(c):
            s = {}
            if NAMES[k]: s["name"] = NAMES[k]; model.setdefault(p, {})[slot] = NAMES[k]
            v = KINDS[(slot + step + kindshift) % len(KINDS)]
            if k == 3: s = {"name": "cc"}; v = None; model.setdefault(p, {})[slot] = "cc"
            if v: s["values"] = v
            ss.append(s)
        t = dict(MIN, payloadCallsign=call)
        if ss: t["extraSensors"] = ss
        if model and any("name" not in x and "values" in x for x in ss): a.add("distinct_nontrivial")
        got = D.decode_packet(hcrc(uper.encode(t)))
        for k, w in compare(got, t, model.get(p)):
            a.bad(f"{k}:step", f"{w}; step {step} of history {hist} (remembered {model.get(p)})")
            return

NAMES4 = NAMES + ["cc"]
def w_hist(a, item):
    uid, hs, shifts = item
    for h in hs:
        for ks in shifts:
            play(a, h, uid, ks); uid += 1
    a.sample(h)

def pk(call, slots):
    """slots: list of None (unnamed) / name; every one carries a value"""
    return dict(MIN, payloadCallsign=call, extraSensors=[dict(values=KINDS[0], **({"name": n} if n else {})) for n in slots])

def ask(a, call, slots, names, what):
    a.add("evaluations")
    t = pk(call, slots)
    if any(not n for n in slots) and names: a.add("distinct_nontrivial")
    got = D.decode_packet(hcrc(uper.encode(t)))
    d = compare(got, t, names)
    for k, w in d: a.bad(f"{k}:{what}", f"{w}; {what}, payload {call}")
    return not d

def nm(n): return "".join(chr(97 + n // 26 ** k % 26) for k in range(3))

def w_wide(a, item):
    """many payloads: n of them announce (1..4 slots, in turn), with a query of every earlier one after each announcement (n small) or of all at the end (n large), in both orders"""
    n, step, gap = item
    calls = [f"W{n}-{step}-{i}" for i in range(n)]
    known = {}
    for i in range(n):
        k = 1 + i % 4
        ns = [nm(i + j) for j in range(k)]
        if not ask(a, calls[i], ns, None, f"{n} payloads: announcement {i}"): return
        known[i] = dict(enumerate(ns))
        for q in (range(0, i + 1) if step == 1 else [i // 2] if step else []):
            if not ask(a, calls[q], [None] * 4, known[q], f"{n} payloads: query of payload {q} after {i + 1} announcements"): return
    for q in list(range(n)) + list(range(n - 1, -1, -1)):
        if not ask(a, calls[q], [None] * 4, known[q], f"{n} payloads: query at the end"): return
    a.add("histories"); a.sample(item)

def w_long(a, item):
    """one announcement, then many packets without names, from the same payload and from others, while the clocks advance"""
    n, secs = item
    import time, datetime, types
    off = [0.0]
    t0, m0, mod = time.time, time.monotonic, getattr(D, "datetime", None)
    try:
        if secs:
            time.time, time.monotonic = lambda: t0() + off[0], lambda: m0() + off[0]
            if mod is datetime:
                class Later(datetime.datetime):
                    @classmethod
                    def now(cls, tz=None): return datetime.datetime.now(tz) + datetime.timedelta(seconds=off[0])
                D.datetime = types.SimpleNamespace(**{k: getattr(datetime, k) for k in dir(datetime) if not k.startswith("__")})
                D.datetime.datetime = Later
        c, o = f"L{n}-{secs}", f"M{n}-{secs}"
        if not ask(a, c, ["first", "second"], None, "announcement"): return
        for i in range(n):
            off[0] += secs
            if not ask(a, c, [None, None, None], {0: "first", 1: "second"}, f"packet {i + 1} after the announcement, {secs} s apart"): return
            if not ask(a, o, [None, None], None, f"another payload, packet {i + 1}"): return
    finally:
        time.time, time.monotonic = t0, m0
        if mod is not None: D.datetime = mod
    a.add("histories"); a.sample(item)

def run(chk):
    global D, NAMES
    import_repo(ext=False); quiet()
    import horusdemodlib.decoder as D
    NAMES = NAMES4
    uid = 0
    items = []
    def put(hists, shifts):
        nonlocal uid
        for c in chunks(hists, 128):
            items.append((uid, c, shifts)); uid += len(c) * len(shifts)
    one = letters(2, 2)                                   # 2 payloads x (1 + 3 + 9) packets
    put(itertools.product(one, repeat=2), range(5))
    small = [(p, c) for p in range(3) for c in [(), (0,), (1,), (2,), (0, 0), (1, 0), (0, 2), (0, 0, 0, 1), (0, 0, 0, 0)]] + [(0, "refused"), (1, "violating"), (0, (3,)), (0, (0, 3))]
    put(itertools.product(small, repeat=3), range(4) if chk.quick else range(5))
    tiny = [(p, c) for p in (0, 1) for c in [(0,), (1,), (2,), (0, 0), (2, 1)]] + [(0, "violating")]
    put(itertools.product(tiny, repeat=4 if chk.quick else 5), range(4))
    if not chk.quick:
        put(itertools.product(small, repeat=4), (0,))
    chk.cov["rule"] = "evaluation = one packet of one history decoded by the real decoder and compared with the model map; non-trivial = it carries an unnamed value while some announcement has been made in that history"
    chk.cov["bounds"] = f"{len(one)}^2 x 5 value kinds, {len(small)}^3, {len(tiny)}^{4 if chk.quick else 5} histories; up to {1030 if chk.quick else 9000} payloads announcing and each queried; up to {600 if chk.quick else 20000} packets after an announcement, clocks advancing by up to 31 days a packet"
    pmap(chk, w_hist, items)
    q = chk.quick
    pmap(chk, w_wide, [(n, 1, 0) for n in (2, 5, 9, 17, 33, 40 if q else 129)] + [(n, 2, 0) for n in (65, 129, 257)] + [(n, 0, 0) for n in ((520, 1030) if q else (520, 1030, 2100, 4200, 9000))])
    pmap(chk, w_long, [(600 if q else 20000, 0), (60, 61), (60, 3601), (40, 86401), (20, 31 * 86400)] + ([] if q else [(2000, 1), (2000, 7200)]))

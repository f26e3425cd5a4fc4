"""C25: all statistics histories to a depth over time steps around the window length x values x malformed updates, in mean and peak-hold mode, against a list model."""
import itertools, json
from vlib import *
from pymc import *
import clockshim
LEVEL = "exploration"
ASSUMPTIONS = ["The clock does not run backwards; a sample exactly as old as the averaging time is outside the window (as the project's own test fixes).",
               "In JSON text the modem prints unmeasurable eye diagram entries as 'nan'; 'nan' in a required field of a text update is not specified."]
V = [(0.0, 0.0, (1000, 1270)), (10.0, -3.0, (1000, 1270, 1540, 1810)), (-5.5, 12.5, (900.5, 1100.25)), (30.25, 0.5, (0, 0, 0, 1)), (-100, 7, (2000, 1500, 1000, 400))]
def good(v, extra=True):
    e, p, f = v
    d = {"EbNodB": e, "ppm": p, "samp_fft": [1, 2, round(e)]}
    for i, x in enumerate(f): d[f"f{i + 1}_est"] = x
    return d
def minus(d, k):
    d = dict(d); d.pop(k); return d
def malformed():
    g2, g4 = good((50.0, 50.0, (5, 6))), good((60.0, 60.0, (5, 6, 7, 8)))
    out = [minus(g2, k) for k in ("EbNodB", "ppm", "f1_est", "f2_est", "samp_fft")] + [minus(g4, k) for k in ("f1_est", "f2_est", "f3_est", "f4_est", "EbNodB", "samp_fft")]
    for k in ("EbNodB", "ppm", "f1_est", "f4_est"):
        for bad in ("x", None, [], {}, "12", float("nan"), float("inf"), float("-inf")):
            out.append(dict(g4, **{k: bad}))
    out += [{}, None, 5, [], b"{}", [g2], "", "{", "nonsense", "[]", "5", "null", '"x"', "{}", json.dumps(minus(g2, "ppm")), json.dumps(dict(g2, EbNodB="9")), json.dumps(g2)[:-1], json.dumps(g2) + "}", json.dumps([g2]), "nan", "{nan}", json.dumps(g2).replace("samp_fft", "samp_fff"), "{" * 3000, "[" * 100000]
    return out
MAL = malformed()
T = 4.0

class Model:
    def __init__(self, T, peak): self.T, self.peak, self.s, self.f, self.fft = T, peak, [], None, None
    def update(self, t, v):
        e, p, f = v
        self.f = list(f); self.fft = [1, 2, round(e)]
        self.s.append((t, e, p, (f[-1] - f[0]) / (len(f) - 1)))
        self.now = t
    def view(self):
        w = [x for x in self.s if x[0] > self.now - self.T]
        n = len(w)
        return dict(snr=max(x[1] for x in w) if self.peak else sum(x[1] for x in w) / n, ppm=sum(x[2] for x in w) / n, fest_spacing=sum(x[3] for x in w) / n, fest=self.f, fest_mean=sum(self.f) / len(self.f), fft=self.fft)

def snapshot(s):
    return dict(snr=s.snr, ppm=s.ppm, fest_spacing=s.fest_spacing, fest=list(s.fest), fest_mean=s.fest_mean, fft=list(s.fft))

def same(a_, b):
    if isinstance(a_, list): return len(a_) == len(b) and all(same(x, y) for x, y in zip(a_, b))
    return a_ == b or abs(a_ - b) <= 1e-9 * max(1, abs(a_), abs(b))

TONES = [0, 0.0, -250.5, 5.859375, 1000, 1270.25, -24000, 65000]
def w_tones(a, first):
    """every pair and quadruple of tones out of a set (zero, negative, equal, descending ones too), every SNR and clock offset at each magnitude"""
    for n in (2, 4):
        for rest in itertools.product(TONES, repeat=n - 1):
            f = (first,) + rest
            for form in ("dict", "text"): play(a, [(0.0, (3.5, -2, f))], T, False, form)
            play(a, [(0.0, 1), (1.0, (-7, 2, f)), (1.0, 0)], T, True, "dict")
    for e in [s * x for s in (1, -1) for x in (0, 0.25, 1, 7, 20, 99.5, 100, 999, 1000, 1e6)]:
        for p in [s * x for s in (1, -1) for x in (0, 0.5, 1, 45, 200, 1001, 65536, 1e7)]:
            for peak in (False, True): play(a, [(0.0, (e, p, (first, 1500))), (1.0, (p, e, (first, 2, 3, 4))), (1.0, 0)], T, peak, "dict")

def play(a, hist, Tw, peak, form):
    """hist: list of (dt, value index or ('m', malformed index))"""
    a.add("evaluations")
    s = S.FSKDemodStats(averaging_time=Tw, peak_hold=peak)
    m = Model(Tw, peak)
    t = 1000000.0
    valid = 0
    for i, (dt, v) in enumerate(hist):
        t += dt
        NOW[0] = t
        before = snapshot(s)
        if isinstance(v, tuple) and v[0] == "m":
            try: s.update(MAL[v[1]])
            except Exception as e: a.bad(f"raised:{type(e).__name__}", f"malformed update {str(MAL[v[1]])[:200]} raised {e!r}"); return
            if not deep_eq(snapshot(s), before): a.bad("malformed-changes", f"malformed update {str(MAL[v[1]])[:200]} changed {before} to {snapshot(s)}"); return
            continue
        v = v if isinstance(v, tuple) else V[v]
        d = good(v)
        if form == "text":
            d["eye_diagram"] = [[0.5, 0.25]]; d = json.dumps(d)
        elif form == "nan":
            d = json.dumps(d)[:-1] + ', "eye_diagram": [[nan, 0.25],[-nan,nan]]}\n'
        try: s.update(d)
        except Exception as e: a.bad(f"raised:{type(e).__name__}", f"valid update {d} raised {e!r}"); return
        m.update(t, v); valid += 1
        got, exp = snapshot(s), m.view()
        for k in exp:
            if not same(exp[k], got[k]):
                a.bad(f"value:{k}", f"after {hist[:i + 1]} (window {Tw} s, peak hold {peak}): {k} is {got[k]}, samples in the window give {exp[k]}"); return
    if valid > 1: a.add("distinct_nontrivial")

NOW = [0.0]
DT = [0.0, 0.5, T - 0.25, T, T + 0.25]
def w_hist(a, item):
    first, depth, dts, vals, forms = item
    for rest in itertools.product(itertools.product(dts, vals), repeat=depth - 1):
        h = [first] + list(rest)
        for peak in (False, True):
            for f in forms: play(a, h, T, peak, f)
    a.sample(h)

def w_mal(a, idx):
    for i in idx:
        for pre in ([], [(0, 0)], [(0, 1)], [(0, 4), (1.0, 1)]):
            for post in ([], [(0.5, 2)], [(T, 3)], [(0.25, 0), (T - 0.25, 1)]):
                for peak in (False, True):
                    play(a, pre + [(1.0, ("m", i))] + post, T, peak, "dict")
                    play(a, pre + [(1.0, ("m", i)), (T, ("m", (i + 7) % len(MAL)))] + post, T, peak, "text")

def w_long(a, item):
    """regular long histories: every interval against the window"""
    step, Tw = item
    for peak in (False, True):
        play(a, [(step, i % len(V)) for i in range(60)], Tw, peak, "dict")
        play(a, [(step if i % 7 else Tw * 1.5, (i * i) % len(V)) for i in range(60)], Tw, peak, "nan")

def w_two(a, _):
    """instances do not share state"""
    NOW[0] = 1e6
    x, y = S.FSKDemodStats(averaging_time=4), S.FSKDemodStats(averaging_time=4)
    y0 = snapshot(y)
    x.update(good(V[1]))
    a.add("evaluations")
    if snapshot(y) != y0: a.bad("shared-state", f"{y0} -> {snapshot(y)}")
    y.update(good(V[2]))
    if abs(x.snr - 10) > 1e-9 or abs(y.snr + 5.5) > 1e-9: a.bad("shared-state", f"{x.snr} {y.snr}")

def w_default(a, _):
    """without settings: a mean, not a peak hold; and the settings given by position"""
    NOW[0] = 1e6
    for s, peak in ((S.FSKDemodStats(), False), (S.FSKDemodStats(100.0), False), (S.FSKDemodStats(100.0, True), True), (S.FSKDemodStats(averaging_time="100", peak_hold=True, decoder_id=5), True)):
        a.add("evaluations")
        for i in (1, 2, 0):
            s.update(good(V[i])); NOW[0] += 0.25
        if abs(s.snr - (10 if peak else 1.5)) > 1e-9: a.bad("default-settings", f"SNR {s.snr} for 10, -5.5, 0 (peak hold {peak})")

def run(chk):
    global S
    import_repo(ext=False); quiet()
    import horusdemodlib.demodstats as S
    import types, time as _t
    class FT(types.ModuleType): pass
    ft = FT("time"); ft.__dict__.update({k: getattr(_t, k) for k in dir(_t) if not k.startswith("__")})
    ft.time = ft.monotonic = ft.perf_counter = lambda: NOW[0]
    for k, v in list(S.__dict__.items()):
        if v is _t: S.__dict__[k] = ft
        elif v in (_t.time, _t.monotonic): S.__dict__[k] = ft.time
    chk.cov["rule"] = "evaluation = one history of updates replayed into FSKDemodStats and compared after every update with the list model; non-trivial = at least two valid updates"
    d = 4 if chk.quick else 5
    firsts = list(itertools.product([0.0], range(len(V))))
    pmap(chk, w_hist, [(f, d, DT if chk.quick else DT, [0, 1, 2] if chk.quick else [0, 1, 4], ["dict"]) for f in firsts] + [((0.0, v), 3, DT + [2 * T, 0.25, 1e6], range(len(V)), ["text", "nan", "dict"]) for v in range(len(V))])
    pmap(chk, w_hist, [((0.0, v), 6 if chk.quick else 7, [0.0, 2.0, T], [0, 1], ["dict"]) for v in (0, 1)])
    pmap(chk, w_mal, chunks(range(len(MAL)), 2))
    pmap(chk, w_long, [(s, w) for s in (0.125, 0.25, 0.5, 1.0, 2.0, 3.75, 4.0, 4.25) for w in (0.5, 1.0, 2.0, 4.0, 10.0)])
    pmap(chk, w_tones, TONES)
    run1(chk, w_two); run1(chk, w_default)

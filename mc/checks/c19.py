"""C19: every schedule (every source line of the uploader a preemption point, deviation bounded) of add/close/status against the upload thread."""
import itertools
from vlib import *
from pymc import *
import world
from checks.upcommon import *
LEVEL = "exploration"
ASSUMPTIONS = ["Interleavings are explored at source-line granularity of sondehubamateur.py (opcode granularity for the smallest scenarios at the thorough tier), with at most 2 (thorough 3) deviations from run-to-block scheduling; queue operations are atomic.",
               "Sleeping uses a virtual clock; 'promptly' means within 3 seconds of virtual time and 3 sleeps after close() with a responsive server."]

def fmt(w, name):
    return f"scenario {name}, schedule {w.schedule}: accepted {w.accepted}, uploaded {[frames(r) for r in batches(w)]}, requests {[(r['kind'], r.get('answer')) for r in w.requests]}, problem {w.problem}, errors {w.errors}"

def check(a, w, name, inhibit=False, lossy=False):
    a.add("evaluations"); a.add("scheduling_decisions", len(w.decisions))
    if w.schedule and w.requests: a.add("distinct_nontrivial")
    if w.problem: a.bad(f"schedule:{w.problem.split(' (')[0].replace(' ', '-')}", fmt(w, name))
    for n, e, tb in w.errors: a.bad(f"thread-died:{n}", f"{tb}; {fmt(w, name)}")
    if w.problem or w.errors: return
    ok = [f for r in batches(w) if r.get("answer") == 200 for f in frames(r)]
    att = [frames(r) for r in batches(w)]
    if inhibit:
        if w.requests: a.bad("inhibited-uploads", fmt(w, name))
        if len(w.threads) != 1: a.bad("inhibited-thread", fmt(w, name))
        if any(w.state): a.bad("inhibited-running", fmt(w, name))
        return
    if any(f in w.after for b in att for f in b): a.bad("uploaded-after-close", fmt(w, name))
    if ok != w.accepted and not lossy: a.bad("not-exactly-once-in-order", fmt(w, name))
    if lossy:
        flat = [f for b in att for f in b]
        firsts = list(dict.fromkeys(flat))
        if firsts != w.accepted: a.bad("not-offered-in-order", fmt(w, name))
        if len(set(ok)) != len(ok): a.bad("uploaded-twice", fmt(w, name))
    if w.closed_at is not None:
        if any(not t.done for t in w.threads): a.bad("thread-left-running", fmt(w, name))
        if w.clock - w.closed_at > 3 or sum(w.sleeps.values()) - w.sleeps_at_close > 3: a.bad("slow-close", f"{w.clock - w.closed_at} s, {sum(w.sleeps.values()) - w.sleeps_at_close} sleeps after close; {fmt(w, name)}")

def retry(w, kind, i):
    return 500 if kind == "telemetry" and i in (0, 2) else 200
def fails(w, kind, i):
    return OSError("no network") if kind == "telemetry" and i == 0 else 200
def retry0(w, kind, i):
    return 503 if i % 2 == 0 else 200
SC = {
    "close": (["C"], {}), "add-close": (["A", "C"], {}), "add2-close": (["A", "A", "C"], {}), "add3-close": (["A", "A", "A", "C"], {}),
    "add-wait-add-close": (["A", "W", "A", "C"], {}), "add-close-add": (["A", "C", "A"], {}), "wait-add-wait-add2-close": (["W", "A", "W", "A", "A", "C"], {}),
    "double-close": (["A", "C", "R", "C", "A"], {}), "status": (["R", "A", "R", "C", "R"], {}), "rejected-add": (["B", "A", "B", "C"], {}),
    "rate2": (["A", "W", "A", "W", "A", "C"], {"upload_rate": 2}), "rate0": (["A", "A", "C"], {"upload_rate": 1}),
    "position": (["A", "P", "A", "C"], {"user_position": (1, 2, 3), "user_position_update_rate": 0.0001}),
    "retry": (["A", "A", "C"], {"answer": retry, "upload_retries": 4}), "lost": (["A", "W", "A", "C"], {"answer": fails, "lossy": True}),
    "retry-all": (["A", "W", "A", "C"], {"answer": retry0, "upload_retries": 3}),
    "inhibit": (["A", "R", "P", "A", "C", "R", "A"], {"inhibit": True}), "inhibit-noclose": (["A", "R"], {"inhibit": True}),
}

for n in (40, 120, 300):                                       # backlogs while the worker is busy or asleep
    SC[f"backlog{n}"] = (["A"] * n + ["C"], {"big": True}); SC[f"wait-backlog{n}"] = (["A", "W"] + ["A"] * n + ["C"], {"big": True}); SC[f"backlog{n}-wait-add-close"] = (["A"] * n + ["W", "A", "C"], {"big": True})
    SC[f"backlog{n}-retry"] = (["A"] * n + ["W"] + ["A"] * 5 + ["C"], {"big": True, "answer": retry, "upload_retries": 4})

def go(name, sch, trace="line"):
    ops, kw = SC[name]
    kw = dict(kw); kw.pop("lossy", None)
    if kw.pop("big", False): kw["max_steps"] = 400000; trace = None
    kw.setdefault("upload_rate", 30)
    return scenario(U, ops, sch, trace, kw.pop("answer", None), **kw)

def w_explore(a, item):
    name, firsts, bound, trace = item
    for w in world.explore(lambda s: go(name, s, trace), bound, firsts):
        check(a, w, name, SC[name][1].get("inhibit", False), SC[name][1].get("lossy", False))
    if firsts and firsts[0]: a.sample({"scenario": name, "schedule": w.schedule, "uploaded": [frames(r) for r in batches(w)]})

def run(chk):
    global U
    import_repo(ext=False); quiet()
    import horusdemodlib.sondehubamateur as U
    chk.cov["rule"] = "evaluation = one schedule of one scenario executed on the real uploader; non-trivial = it deviates from run-to-block order and reaches the network"
    items = []
    for name in SC:
        for trace in ("line", "opcode"):
            if trace == "opcode" and (name not in ("add-close", "close", "add2-close", "status") or chk.quick): continue
            w = go(name, {}, trace)
            run1(chk, lambda a, _: check(a, w, name, SC[name][1].get("inhibit", False), SC[name][1].get("lossy", False)))
            firsts = [{s: x} for s, en, ch in w.decisions for x in en if x != ch]
            small = name in ("close", "add-close", "add-close-add", "status", "add2-close")
            bound = (2 if chk.quick else 3 if small and trace == "line" else 2)
            items += [(name, c, bound, trace) for c in chunks(firsts, 3)]
            chk.add("scenarios")
    pmap(chk, w_explore, items)

"""A controlled world for the two-threaded Python uploader: one thread runs at a time, every source line (or opcode) of the module
under test is a scheduling point, sleeping and waiting use a virtual clock, HTTP goes to an answer function. Deviation-bounded
exploration enumerates every schedule that differs from the default one in at most `bound` scheduling decisions."""
import _thread, collections, queue as _rq, sys, threading as _th, types
import time as _rt, requests as _rr

class Stop(BaseException):
    pass

class T:
    def __init__(self, tid, name):
        self.tid, self.name = tid, name
        self.lock = _thread.allocate_lock(); self.lock.acquire()
        self.cond, self.deadline, self.done = None, None, False

class World:
    cur_world = None

    def __init__(self, mod, schedule=None, trace="line", max_steps=6000, max_clock=1e12, answer=None, start=1.7e9, extra=()):
        self.extra = tuple(extra)
        self.mod, self.schedule, self.trace = mod, dict(schedule or {}), trace
        self.max_steps, self.max_clock = max_steps, max_clock
        self.clock, self.step, self.threads, self.log = start, 0, [], []
        self.decisions, self.problem, self.abort = [], None, False
        self.sleeps = collections.Counter(); self.requests = []
        self.answer = answer or (lambda w, kind, i: 200)
        self.over = _thread.allocate_lock(); self.over.acquire()
        self.errors = []

    # ---- scheduling
    def now_enabled(self):
        return [t for t in self.threads if not t.done and (t.cond is None or t.deadline is not None or t.cond())]

    def fail(self, what):
        if not self.problem: self.problem = what
        self.abort = True

    def pick(self, me, free):
        en = self.now_enabled()
        if not en:
            return None
        ids = [t.tid for t in en]
        want = self.schedule.get(self.step)
        awake = [t for t in en if t.cond is None or t.cond()]
        if want in ids:
            ch = next(t for t in en if t.tid == want)
        elif me is not None and not me.done and me in awake and not free:
            ch = me
        else:
            others = [t for t in awake if t is not me] or awake
            ch = others[0] if others else min(en, key=lambda t: t.deadline)
        self.decisions.append((self.step, ids, ch.tid))
        self.step += 1
        if ch.deadline is not None and not (ch.cond and ch.cond()):
            self.clock = max(self.clock, ch.deadline)
        ch.cond = ch.deadline = None
        if self.step > self.max_steps: self.fail("never ends (step bound)")
        if self.clock > self.max_clock: self.fail("never ends (clock bound)")
        return ch

    def point(self, cond=None, deadline=None, free=False):
        if self.abort: raise Stop()
        me = self.me()
        if me is None: return
        me.cond, me.deadline = cond, deadline
        if cond is None and deadline is not None: me.cond = lambda: self.clock >= deadline
        ch = self.pick(me, free)
        if ch is None:
            self.fail("deadlock"); self.wake_all(); raise Stop()
        if self.abort:
            self.wake_all(); raise Stop()
        if ch is not me:
            ch.lock.release(); me.lock.acquire()
        if self.abort: raise Stop()

    def wake_all(self):
        for t in self.threads:
            try: t.lock.release()
            except RuntimeError: pass

    def me(self):
        return getattr(_loc, "t", None)

    def finish(self, t):
        t.done = True
        if all(x.done for x in self.threads):
            try: self.over.release()
            except RuntimeError: pass
            return
        if self.abort:
            self.wake_all(); return
        ch = self.pick(t, True)
        if ch is None:
            self.fail("deadlock"); self.wake_all(); return
        if self.abort: self.wake_all(); return
        ch.lock.release()

    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename != self.mod.__file__ or frame.f_code.co_name.startswith("log_"):
            return None
        if self.trace == "opcode":
            frame.f_trace_opcodes = True; frame.f_trace_lines = False
        return self.local
    def local(self, frame, event, arg):
        if event in ("line", "opcode"): self.point()
        return self.local

    def spawn(self, fn, name):
        t = T(len(self.threads), name); self.threads.append(t)
        def body():
            _loc.t = t
            t.lock.acquire()
            try:
                if self.abort: return
                if self.trace: sys.settrace(self.tracer)
                fn()
            except Stop:
                pass
            except BaseException as e:
                import traceback
                self.errors.append((name, e, traceback.format_exc()[-900:]))
            finally:
                sys.settrace(None)
                self.finish(t)
        _thread.start_new_thread(body, ())
        return t

    def run(self, main):
        mods = (self.mod,) + self.extra
        saved = [dict(m.__dict__) for m in mods]
        self.install()
        try:
            self.main = self.spawn(main, "main")
            ch = self.threads[0]; ch.lock.release()
            if not self.over.acquire(timeout=60):
                self.fail("harness: threads did not finish"); self.wake_all()
        finally:
            for m, d in zip(mods, saved):
                m.__dict__.clear(); m.__dict__.update(d)
        return self

    # ---- the substituted environment
    def install(self):
        w = self
        class Time(types.ModuleType): pass
        ft = Time("time"); ft.__dict__.update({k: getattr(_rt, k) for k in dir(_rt) if not k.startswith("__")})
        def sleep(d=0):
            me = w.me(); w.sleeps[me.tid if me else -1] += 1
            w.log.append(("sleep", me.tid if me else -1, d))
            w.point(deadline=w.clock + max(0, d), free=True)
        ft.sleep, ft.time, ft.monotonic, ft.perf_counter = sleep, lambda: w.clock, lambda: w.clock, lambda: w.clock
        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
                self.target, self.args, self.kw, self.t = target, args, kwargs or {}, None
                self.daemon, self.name = daemon, name or "worker"
            def run(self): self.target and self.target(*self.args, **self.kw)
            def start(self):
                if self.t: raise RuntimeError("threads can only be started once")
                self.t = w.spawn(self.run, self.name); w.point()
            def is_alive(self): return bool(self.t) and not self.t.done
            def setDaemon(self, d): self.daemon = d
            def join(self, timeout=None):
                if self.t is None: raise RuntimeError("cannot join thread before it is started")
                w.point(cond=lambda: self.t.done, deadline=None if timeout is None else w.clock + timeout, free=True)
        class Event:
            def __init__(self): self.f = False
            def set(self): self.f = True
            def clear(self): self.f = False
            def is_set(self): return self.f
            isSet = is_set
            def wait(self, timeout=None):
                me = w.me(); w.sleeps[me.tid if me else -1] += 1
                if not self.f: w.point(cond=lambda: self.f, deadline=None if timeout is None else w.clock + timeout, free=True)
                return self.f
        class Lock:
            def __init__(self): self.o, self.n = None, 0
            def acquire(self, blocking=True, timeout=-1):
                me = w.me()
                if self.o not in (None, me) or (self.o is me and not self.re):
                    if not blocking: return False
                    w.point(cond=lambda: self.o is None, deadline=None if timeout in (-1, None) else w.clock + timeout, free=True)
                    if self.o is not None: return False
                self.o = me; self.n += 1; return True
            def release(self):
                self.n -= 1
                if self.n == 0: self.o = None
            def locked(self): return self.o is not None
            __enter__ = acquire
            def __exit__(self, *a): self.release()
            re = False
        class RLock(Lock): re = True
        class Queue(_rq.Queue):
            def get(self, block=True, timeout=None):
                if not block or len(self.queue): return super().get(False)
                w.point(cond=lambda: len(self.queue) > 0, deadline=None if timeout is None else w.clock + timeout, free=True)
                return super().get(False)
            def put(self, x, block=True, timeout=None):
                if self.maxsize > 0 and len(self.queue) >= self.maxsize and block:
                    w.point(cond=lambda: len(self.queue) < self.maxsize, deadline=None if timeout is None else w.clock + timeout, free=True)
                return super().put(x, False)
            def get_nowait(self): return self.get(False)
            def put_nowait(self, x): return self.put(x, False)
        def http_put(url, data=None, **kw):
            return w.http("PUT", url, data, kw)
        class Req(types.ModuleType): pass
        fr = Req("requests"); fr.__dict__.update({k: getattr(_rr, k) for k in dir(_rr) if not k.startswith("__")})
        fr.put = http_put
        fr.get = lambda url, params=None, **kw: w.http("GET", url, None, kw)
        fr.request = lambda method, url, **kw: w.http(method.upper(), url, kw.pop("data", None), kw)
        fr.post = lambda url, data=None, **kw: w.http("POST", url, data, kw)
        class Session:
            headers = {}
            def __enter__(self): return self
            def __exit__(self, *a): pass
            def close(self): pass
            put = staticmethod(http_put)
            request = staticmethod(fr.request)
        fr.Session = fr.session = Session
        sub = {id(_th.Thread): Thread, id(_th.Event): Event, id(_th.Lock): Lock, id(_th.RLock): RLock, id(_rq.Queue): Queue, id(_rt): ft, id(_rt.sleep): sleep, id(_rt.time): ft.time, id(_rt.monotonic): ft.monotonic, id(_rr): fr, id(_rr.put): http_put}
        class Th(types.ModuleType): pass
        fth = Th("threading"); fth.__dict__.update({k: getattr(_th, k) for k in dir(_th) if not k.startswith("__")})
        fth.Thread, fth.Event, fth.Lock, fth.RLock = Thread, Event, Lock, RLock
        class Qm(types.ModuleType): pass
        fq = Qm("queue"); fq.__dict__.update({k: getattr(_rq, k) for k in dir(_rq) if not k.startswith("__")}); fq.Queue = Queue
        sub[id(_th)] = fth; sub[id(_rq)] = fq
        for m in (self.mod,) + self.extra:
            for k, v in list(m.__dict__.items()):
                if id(v) in sub: m.__dict__[k] = sub[id(v)]

    def http(self, method, url, data, kw):
        kind = "position" if "listeners" in url else "telemetry" if "telemetry" in url else "idlist" if "payload_id_list" in url else "fields" if "custom_field_list" in url else url
        i = sum(1 for r in self.requests if r["kind"] == kind)
        rec = {"kind": kind, "method": method, "url": url, "data": data, "kw": kw, "t": self.clock, "step": self.step}
        self.requests.append(rec)
        self.point(free=False)
        ans = self.answer(self, kind, i)
        rec["answer"] = ans
        if isinstance(ans, BaseException): raise ans
        if isinstance(ans, int): ans = (ans, "text")
        return Resp(*ans)

class Resp:
    def __init__(self, status_code, text):
        self.status_code, self.text = status_code, text
        self.ok = status_code < 400; self.reason = "r"; self.headers = {}
    @property
    def content(self): return self.text.encode()
    def json(self):
        import json
        return json.loads(self.text)
    def raise_for_status(self):
        if self.status_code >= 400: raise _rr.exceptions.HTTPError(str(self.status_code))
    def close(self): pass

_loc = _th.local()

def explore(run, bound, first=None):
    """run(schedule) -> World. Yields every world whose schedule deviates from the default in at most `bound` decisions.
    first: restrict to schedules whose first deviation is in this list (for sharding); None = include the default."""
    if first is None:
        w = run({}); yield w
        todo = [] if bound == 0 else [{s: a} for s, en, ch in w.decisions for a in en if a != ch]
    else:
        todo = list(first)
    while todo:
        sch = todo.pop()
        w = run(sch); yield w
        if len(sch) < bound:
            last = max(sch)
            for s, en, ch in w.decisions:
                if s > last:
                    todo += [dict(sch, **{}) | {s: a} for a in en if a != ch]

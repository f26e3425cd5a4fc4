"""Helpers for explorers that run the project's Python in-process: parallel exhaustive enumeration, comparison, packets."""
import itertools, logging, math, multiprocessing, multiprocessing.pool, os, random, signal, struct, sys, time, traceback
import vlib
from pyref import crc16

class Acc:
    """Per-worker accumulator returned by an enumeration function."""
    def __init__(self):
        self.stat, self.viol, self.samples = {}, [], []
    def add(self, k, n=1):
        self.stat[k] = self.stat.get(k, 0) + n
    def bad(self, key, what):
        if len(self.viol) < 40:
            self.viol.append((key, str(what)[:900]))
        else:
            self.add("more_violations")
    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:300])

class Hang(BaseException):
    pass
def _alarm(*a):
    raise Hang("no end in sight")

_FN = None; LIMIT = 0
_STOP = multiprocessing.get_context("fork").Value("b", 0, lock=False)      # set when the rest need not be enumerated
_SINCE = multiprocessing.get_context("fork").Array("d", 256, lock=False)      # when each worker began its current item
def _call(item):
    a = Acc()
    if _STOP.value: return a
    try:
        if LIMIT:
            signal.signal(signal.SIGALRM, _alarm); signal.alarm(LIMIT)
        try: _FN(a, item)
        finally:
            if LIMIT: signal.alarm(0)
    except (Exception, Hang) as e:
        if isinstance(e, Hang): _STOP.value = 1          # one endless loop says enough: do not wait for the next
        tb = traceback.extract_tb(e.__traceback__)
        txt = traceback.format_exc()[-1200:]
        last = [f for f in tb if os.path.abspath(f.filename).startswith(os.path.join(vlib.REPO, ""))]
        if not last and isinstance(e, AttributeError) and str(getattr(type(getattr(e, "obj", None)), "__module__", "")).startswith("horusdemodlib"):
            a.bad(f"missing:{e.name}", f"item {str(item)[:300]}\n{txt}")       # a public attribute of the code under test is not there when it is needed
        elif last:
            a.bad(f"exception:{type(e).__name__}:{last[-1].name}", f"item {str(item)[:300]}\n{txt}")
        elif isinstance(e, (TypeError, AttributeError, KeyError, IndexError, ValueError, struct.error)):
            a.bad(f"malformed-result:{type(e).__name__}", f"what the code under test returned has not the shape it must have; item {str(item)[:300]}\n{txt}")
        elif not a.viol:
            return ("ERR", f"item {str(item)[:300]}\n{txt}")
    return a

def _calls(items):
    slot = multiprocessing.current_process()._identity[0] % len(_SINCE)
    r = []
    for i in items:
        _SINCE[slot] = time.monotonic(); r.append(_call(i))
    _SINCE[slot] = 0
    return r

def pmap(chk, fn, items, procs=None):
    """Run fn(acc, item) over all items in forked workers and fold the results into chk."""
    global _FN, LIMIT
    _FN = fn; LIMIT = 300 if chk.quick else 0            # an item takes seconds; only endless loops get there
    items = list(items)
    sys.stdout.flush(); sys.stderr.flush()
    n = procs or vlib.JOBS
    for i in range(len(_SINCE)): _SINCE[i] = 0
    pool = multiprocessing.get_context("fork").Pool(n)
    it = pool.imap_unordered(_calls, chunks(items, max(1, len(items) // (n * 16))))
    while True:
        try: accs = it.next(timeout=10)
        except StopIteration: break
        except multiprocessing.TimeoutError:
            if LIMIT and any(t and time.monotonic() - t > LIMIT + 60 for t in _SINCE):     # not even the alarm is heard: native code that does not return
                pool._worker_handler._state = multiprocessing.pool.TERMINATE       # no new workers
                for p in list(pool._pool): p.kill()
                chk.violation("native-hang", f"native code called from {fn.__module__}.{fn.__name__} does not return")
                chk.cov["exhaustive"] = False
                raise vlib.EarlyStop("native code does not return")
            continue
        for a in accs: fold(chk, a)
        if len(chk.viol) > 1500:                # broken beyond doubt: no need to enumerate the rest
            chk.cov["stopped_early"] = True
            _STOP.value = 1
    pool.close(); pool.join()
    if _STOP.value and chk.viol: raise vlib.EarlyStop("enough seen")

def run1(chk, fn, item=None):
    global _FN
    _FN = fn
    fold(chk, _call(item))

def fold(chk, a):
    if isinstance(a, tuple):
        raise RuntimeError("explorer failed: " + a[1])
    for k, v in a.stat.items():
        chk.add(k, v)
    for k, w in a.viol:
        chk.violation(k, w)
    for s in a.samples:
        chk.sample(s)

def chunks(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]

def quiet():
    logging.disable(logging.CRITICAL)
    logging.getLogger().addHandler(logging.NullHandler())

def num_eq(a, b, tol=1e-9):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        return a == b or abs(a - b) <= tol * max(1.0, abs(b))
    return a == b

def deep_eq(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(deep_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b

def tail_crc(b):
    return b + struct.pack("<H", crc16(b))

def head_crc(b):
    return struct.pack("<H", crc16(b)) + b

_T = []
for _i in range(256):
    c = _i << 8
    for _ in range(8):
        c = ((c << 1) ^ 0x1021) & 0xFFFF if c & 0x8000 else c << 1
    _T.append(c & 0xFFFF)
def fcrc(data, c=0xFFFF):
    for b in data:
        c = ((c << 8) & 0xFFFF) ^ _T[(c >> 8) ^ b]
    return c
def tcrc(b):
    return b + struct.pack("<H", fcrc(b))
def hcrc(b):
    return struct.pack("<H", fcrc(b)) + b

def sentence(body):
    return f"$${body}*{fcrc(body.encode()):04X}"

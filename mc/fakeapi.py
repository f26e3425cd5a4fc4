"""Stand-in for the modem library under horusdemodlib.demod: the real extension's handles and types, but request sizes, packets and statistics
are scripted, every sample handed over is recorded, and each hand-over is checked to lie inside a live allocation of at least the requested size."""
import sys, types, weakref

class State:
    pass
S = State()

def reset(nins, ch=1, out=None, mode="bin"):
    """nins: list of request sizes (frames), the last one repeats; out: {block index: (payload bytes|text, crc_ok, snr)}"""
    S.nins, S.ch, S.out, S.k = nins, ch, out or {}, 0
    S.fed, S.bad, S.opened, S.closed, S.blocks = bytearray(), [], 0, 0, []
    S.limits = None; S.verbose = None; S.cfg = None; S.allocs = []

def _nin(k):
    return S.nins[k] if k < len(S.nins) else S.nins[-1]

class FFI:
    def __init__(self, ffi):
        self._f = ffi
        self.NULL = ffi.NULL
    def _reg(self, c, size=None):
        f = self._f
        try:
            size = f.sizeof(c) if f.typeof(c).kind == "array" else f.sizeof(f.typeof(c).item)
            S.allocs.append((weakref.ref(c), int(f.cast("uintptr_t", c)), size))
        except Exception:
            S.allocs.append((lambda: True, int(f.cast("uintptr_t", c)), size or 0))
        if len(S.allocs) > 64: S.allocs = [a for a in S.allocs if a[0]() is not None]
        return c
    def new(self, *a, **k):
        return self._reg(self._f.new(*a, **k))
    def new_allocator(self, *a, **k):
        n = self._f.new_allocator(*a, **k)
        return lambda *b: self._reg(n(*b))
    def from_buffer(self, *a, **k):
        return self._reg(self._f.from_buffer(*a, **k))
    def __getattr__(self, n):
        return getattr(self._f, n)

def room(ffi, p, need):
    a = int(ffi.cast("uintptr_t", p))
    return any(r() is not None and b <= a and a + need <= b + n for r, b, n in S.allocs)

class Lib:
    def __init__(self, lib, ffi):
        self._l, self._f, self._h = lib, ffi, {}
    def __getattr__(self, n):
        return getattr(self._l, n)
    def _open(self, mode, *a):
        S.opened += 1; S.cfg = (mode,) + a
        S.handle = self._h.get(mode) or self._h.setdefault(mode, self._l.horus_open_advanced(mode, -1, -1))
        return S.handle
    def horus_open(self, mode): return self._open(mode, -1, -1)
    def horus_open_advanced(self, mode, rs, sp): return self._open(mode, rs, sp)
    def horus_open_advanced_sample_rate(self, mode, rs, sp, fs, p): return self._open(mode, rs, sp, fs, p)
    def horus_close(self, h):
        S.closed += 1
        if S.closed > S.opened: S.bad.append(("double-close", f"horus_close called {S.closed} times for {S.opened} opened"))
    def horus_nin(self, h):
        return _nin(S.k)
    def horus_set_verbose(self, h, v): S.verbose = v
    def horus_set_freq_est_limits(self, h, lo, hi): S.limits = (lo, hi)
    def horus_rx(self, h, out, p, quad):
        f = self._f
        if S.k > 200000: raise RuntimeError("the wrapper feeds the modem without end")
        n = _nin(S.k) * 2 * (2 if quad else 1)
        if bool(quad) != (S.ch == 2): S.bad.append(("wrong-channels", f"quadrature flag {quad} for a {S.ch} channel stream"))
        if S.closed: S.bad.append(("use-after-close", "horus_rx on a closed receiver"))
        if isinstance(p, (list, tuple)):
            ok = len(p) * 2 >= n; raw = b"".join(int(x).to_bytes(2, "little", signed=True) for x in p[:n // 2])
        elif isinstance(p, (bytes, bytearray)):
            ok = len(p) >= n; raw = bytes(p[:n])
        else:
            ok = room(f, p, n)
            raw = bytes(f.buffer(f.cast("char *", p), n)) if ok else b""
        if not ok: S.bad.append(("short-buffer", f"block {S.k}: the modem reads {n} bytes but the buffer handed over is smaller"))
        m = self._l.horus_get_max_ascii_out_len(S.handle)
        if not room(f, out, m): S.bad.append(("short-output", f"output buffer smaller than the advertised {m} bytes"))
        S.fed += raw; S.blocks.append(len(raw))
        d = S.out.get(S.k)
        S.last = d
        S.k += 1
        if S.k > 20000: raise RuntimeError("the modem is called without end")
        if not d: return 0
        txt = d[0].hex().upper().encode() if isinstance(d[0], bytes) else d[0].encode()
        f.buffer(out, m)[0:len(txt) + 1] = txt + b"\0"
        return 1
    def horus_crc_ok(self, h):
        d = S.last
        return int(d[1]) if d else 0
    def _stats(self): return (S.last[2] if S.last else float(S.k))
    def horus_get_modem_stats(self, h, sync, snr):
        sync[0] = 1 if S.last else 0; snr[0] = self._stats()
    def horus_get_modem_extended_stats(self, h, st):
        st.snr_est = self._stats(); st.sync = 1 if S.last else 0; st.nr = S.k

def install():
    """Import horusdemodlib.demod on top of the stand-in and return the module (call after vlib.import_repo)."""
    import _horus_api_cffi as real
    m = types.ModuleType("_horus_api_cffi")
    m.ffi = FFI(real.ffi); m.lib = Lib(real.lib, real.ffi)
    sys.modules["_horus_api_cffi"] = m
    import horusdemodlib.demod as DM
    sys.modules["_horus_api_cffi"] = real
    return DM

def fresh():
    """A second copy of horusdemodlib.demod on the real library."""
    import importlib
    sys.modules.pop("horusdemodlib.demod", None)
    import horusdemodlib.demod as R
    return R

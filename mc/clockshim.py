"""A settable receiver clock for the project's Python modules (datetime.now/utcnow/today, time.time)."""
import datetime as _dt, time as _t, types
NOW = [None]          # aware datetime (UTC)

class FDT(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        n = NOW[0]
        if tz is None:
            return n.replace(tzinfo=None)
        return n.astimezone(tz)
    @classmethod
    def utcnow(cls):
        return NOW[0].replace(tzinfo=None)
    @classmethod
    def today(cls):
        return NOW[0].replace(tzinfo=None)

class _M(types.ModuleType): pass
fdt = _M("datetime"); fdt.__dict__.update({k: getattr(_dt, k) for k in dir(_dt) if not k.startswith("__")}); fdt.datetime = FDT
ft = _M("time"); ft.__dict__.update({k: getattr(_t, k) for k in dir(_t) if not k.startswith("__")})
ft.time = lambda: NOW[0].timestamp()
ft.gmtime = lambda s=None: _t.gmtime(NOW[0].timestamp() if s is None else s)

def install(*mods):
    for m in mods:
        for k, v in list(m.__dict__.items()):
            if v is _dt: m.__dict__[k] = fdt
            elif v is _dt.datetime: m.__dict__[k] = FDT
            elif v is _t: m.__dict__[k] = ft
            elif v is _t.time: m.__dict__[k] = ft.time

def utc(*a):
    return _dt.datetime(*a, tzinfo=_dt.timezone.utc)

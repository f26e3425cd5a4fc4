"""C27: date resolution of a time of day, for every payload second / receiver clock around boundary instants, against real timestamps."""
import datetime, itertools
from vlib import *
from pymc import *
import clockshim
from clockshim import utc
LEVEL = "exploration"
ASSUMPTIONS = ["Times are 'HH:MM:SS', the only form the decoders hand on.", "Clock skew is below one hour in magnitude (the statement's bound): payload time = receiver time + skew, |skew| <= 3599 s."]
DAYS = [(2024, 6, 15), (2024, 2, 28), (2024, 2, 29), (2023, 2, 28), (2023, 12, 31), (2024, 12, 31), (2000, 2, 28), (2000, 2, 29), (2100, 2, 28), (2024, 4, 30), (2024, 3, 31), (2024, 10, 27), (2024, 11, 3), (2024, 1, 1), (2024, 9, 30), (2038, 1, 18)]

def one(a, now, true, tag, via="clock"):
    a.add("evaluations")
    if true.date() != now.date(): a.add("distinct_nontrivial")
    for s in (true.strftime("%H:%M:%S"),):
        if via == "clock":
            clockshim.NOW[0] = now
            got = G.fix_datetime(s)
        else:
            got = G.fix_datetime(s, via)
        if got is None or got.replace(microsecond=0) != true.replace(microsecond=0) or got.second != true.second:
            a.bad(f"date:{tag}", f"payload sent {s} at {true}, receiver clock {via if via != 'clock' else now}: resolved to {got}")
        elif got.utcoffset() != now.utcoffset():
            a.bad(f"zone:{tag}", f"{s} with receiver clock {now}: result {got!r} not in the receiver's time zone")
        elif got.microsecond:
            a.bad(f"microseconds:{tag}", f"{s} with receiver clock {now}: {got!r}")

def skews(step):
    return sorted(set(range(-3599, 3600, step)) | {-3599, -3598, -1801, -1800, -61, -60, -59, -2, -1, 0, 1, 2, 59, 60, 61, 1799, 1800, 3598, 3599})

def w_day(a, item):
    day, secs, step, tag = item
    for sec in secs:
        for us in ((0,) if sec % 11 else (0, 1, 999999)):
            now = utc(*day) + datetime.timedelta(seconds=sec, microseconds=us)
            for k in skews(step):
                true = (now + datetime.timedelta(seconds=k)).replace(microsecond=0)
                one(a, now, true, tag)
    a.sample(f"receiver {now}, skews +-3599 step {step}")

def w_str(a, item):
    """explicitly supplied receiver time, in several spellings and zones"""
    day, sec = item
    for tz in (0, 9.5, -8, 13):
        z = datetime.timezone(datetime.timedelta(hours=tz))
        now = datetime.datetime(*day, tzinfo=z) + datetime.timedelta(seconds=sec)
        for k in skews(599):
            true = now + datetime.timedelta(seconds=k)
            one(a, now, true, "local-string", via=now.isoformat())
            if tz == 0:
                one(a, now, true, "local-string", via=now.strftime("%Y-%m-%d %H:%M:%SZ"))
    for fmt in ("%Y-%m-%d %H:%M:%S", "%Y%m%dT%H%M%S"):
        now = datetime.datetime(*day) + datetime.timedelta(seconds=sec)
        for k in (-3599, -1, 0, 1, 3599):
            one(a, now, now + datetime.timedelta(seconds=k), "naive-string", via=now.strftime(fmt))

def run(chk):
    global G
    import_repo(ext=False); quiet()
    import horusdemodlib.delegates as G
    clockshim.install(G)
    chk.cov["rule"] = "evaluation = one (receiver clock, payload time) pair; non-trivial = the two fall on different dates"
    near = sorted({s % 86400 for s in list(range(-60, 61)) + list(range(-3600, 3601, 97 if chk.quick else 17)) + list(range(-7260, -7140)) + list(range(3540, 3660)) + [7199, 7200]})
    items = [(d, c, 601 if chk.quick else 61, "midnight") for d in DAYS for c in chunks(near, 24)]
    items += [(d, c, 1201, "fast") for d in DAYS[:4 if chk.quick else 16] for c in chunks(range(0, 86400, 60 if chk.quick else 7), 180)]
    items += [((2024, 2, 29), [s % 86400], 1 if chk.quick else 1, "every-skew") for s in (-3599, -1800, -2, -1, 0, 1, 2, 1800, 3599, 43200)]
    if not chk.quick:
        items += [((2023, 12, 31), [s % 86400], 1, "every-skew") for s in range(-3600, 3601, 8)]
    pmap(chk, w_day, items)
    pmap(chk, w_str, [(d, s) for d in DAYS for s in (0, 1, 59, 1799, 1800, 3599, 3600, 43200, 82799, 82800, 84600, 86399)])

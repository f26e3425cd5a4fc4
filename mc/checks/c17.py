"""C17: every truncation, bit flip and byte substitution of a message corpus, and every tiny input, fed to the generated C decoder under ASan/UBSan/LSan in exact-size blocks."""
import itertools, os, tempfile
import uper, vlib
from checks import c16
from checks.v3common import MIN
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["Memory errors and leaks are what AddressSanitizer, UBSan and LeakSanitizer report on the enumerated inputs; a hang is a decoder call longer than 20 s."]

def nbits(t):
    w, n = uper.Bits, []
    class B(w):
        def bytes(self):
            n.append(len(self.b)); return w.bytes(self)
    uper.Bits = B
    try:
        m = uper.encode(t, ascii_text=True)
    finally:
        uper.Bits = w
    return n[0], m

def corpus(quick):
    F0, F1 = c16.full(0), c16.full(1)
    bits = {f"b{i}": i % 3 == 0 for i in range(8)}
    yield MIN
    yield F0
    yield F1
    yield dict(MIN, extraSensors=[{"name": "abc", "values": ("horusReal", [0.1, -1.5e300, float("inf")])}])
    yield dict(MIN, extraSensors=[{"values": ("horusStr", "Text 1.0")}, {"values": ("horusBool", bits)}, {"name": "n"}, {}])
    yield dict(MIN, extraSensors=[{"name": "x", "values": ("horusInt", [1, -300, 2 ** 40, -2 ** 63])}], counts=[2 ** 62, 0, -1])
    yield dict(MIN, customData=bytes(range(40)), via="nohub")
    yield dict(MIN, via="sondehub", humidityPercentage=3)
    yield dict(MIN, **{"temperatureCelsius-x10": {"internal": 1, "external": -2, "custom1": 3, "custom2": -4}, "milliVolts": {"battery": 1, "solar": 2, "custom1": 3, "custom2": 4}}, gnssPowerSaveState="optimised")
    yield dict(F0, via="nohub")
    if not quick:
        for k in c16.OPTV:
            for p in (0, 1):
                yield dict(MIN, **{k: c16.OPTV[k][p]})
        for v in (0.0, 5e-324, 1e308, float("nan"), float("-inf"), 255.0, 33.0):
            yield dict(MIN, extraSensors=[{"values": ("horusReal", [v])}])
        for v in (0, -1, 127, 128, 2 ** 31, -2 ** 63):
            yield dict(MIN, extraSensors=[{"values": ("horusInt", [v] * 4)}], counts=[v] * 8)
        yield dict(MIN, customData=bytes(200)); yield dict(MIN, extraSensors=[{"values": ("horusStr", "z" * 255)}])
        yield dict(MIN, extraSensors=[{"name": "abcdefghijklmnopqrst", "values": ("horusInt", [1, 2, 3, 4])}] * 4)

def frag(data, first=None):
    """PER length + octets with 16K fragmentation; first = fragment sizes to start with (in 16K units), also when fewer octets are left than a single length could say"""
    o, i = b"", 0
    for m in first or []:
        o += bytes([0xc0 | m]) + data[i:i + m * 16384].ljust(m * 16384, b"\0"); i += m * 16384
    while len(data) - i >= 16384:
        m = min(4, (len(data) - i) // 16384)
        o += bytes([0xc0 | m]) + data[i:i + m * 16384]; i += m * 16384
    r = data[i:]
    return o + (bytes([len(r)]) if len(r) < 128 else bytes([0x80 | len(r) >> 8, len(r) & 255])) + r

def ob(b): return [x >> i & 1 for x in b for i in range(7, -1, -1)]
def num(v, n): return [v >> i & 1 for i in range(n - 1, -1, -1)]

def structures(quick):
    """legal and illegal forms of every length determinant and extension part, fragments included: what no small change of an ordinary message reaches"""
    R = uper.Raw
    ints = [R(b"\x00"), R(b"\x80\x01\x05"), R(b"\x80\x00"), R(b"\x09" + b"\0" * 8 + b"\x07"), R(b"\x09" + b"\xff" * 8 + b"\x85"), R(b"\x09\x01" + b"\0" * 8), R(b"\x7f" + b"\0" * 126 + b"\x11"),
            R(b"\x80\x80" + b"\xff" * 127 + b"\x91"), R(b"\xbf\xff" + b"\0" * 16383), R(b"\xc0"), R(b"\xc5"), R(b"\xff")]
    big = [(16384, None), (16385, None), (16384 + 127, None), (16384 + 128, None), (3 * 16384 + 2, None), (5 * 16384 + 1, None), (32768 + 5, [1, 1])] + ([] if quick else [(2 * 16384, None), (4 * 16384, None), (4 * 16384 + 9, [1, 1, 1, 1]), (4 * 16384, [1, 3]), (9 * 16384 + 3, [4, 4, 1])])
    for n, f in big:
        ints.append(R(frag(b"\0" * (n - 1) + b"\x05", f)))
        if not quick: ints.append(R(frag(b"\xff" * (n - 1) + b"\x85", f)))
        ints.append(R(frag(b"\x12" * n, f)))
    for x in ints:
        yield dict(MIN, counts=[x]); yield dict(MIN, counts=[1, x, -1], customData=b"xy")
        yield dict(MIN, extraSensors=[{"name": "a", "values": ("horusInt", [x, 3])}, {}])
    reals = [R(b"\x01\x43"), R(b"\x01\x44"), R(b"\x01\x00"), R(b"\x02\x80\x00"), R(b"\x03\x80\x00\x00"), R(b"\x03\x80\x00\x01"), R(b"\x03\xa0\x00\x01"), R(b"\x03\x90\x01\x03"), R(b"\x03\xb0\x00\x01"), R(b"\x05\x83\x02\x00\x00\x01"), R(b"\x08\x83\x05\x00\x00\x00\x00\x00\x01"),
             R(b"\x06\x82\x00\x00\x00\x01\x01"), R(b"\x04\x81\x7f\xff\x01"), R(b"\x04\x81\x80\x00\x01"), R(b"\x03\x8c\x00\x01"), R(b"\x04\x01 1."), R(b"\x07\x03+1.5E2"), R(b"\x03\x02-1"), R(b"\x81\x00" + b"\x03" + b"1" * 255), R(b"\x21\x80\x00" + b"\xff" * 31),
             R(b"\x80\x82\x80\x10" + b"\x01" * 128), R(frag(b"\x80\x00" + b"\x00" * 16390 + b"\x03")), R(frag(b"\x80\x00" + b"\x77" * 16390)), R(frag(b"\x03" + b"0" * 16390)), R(frag(b"\x83\xff" + b"\x00" * 16390)), R(frag(b"\x40" * 32769, [1, 1]))]
    for x in reals:
        yield dict(MIN, extraSensors=[{"name": "r", "values": ("horusReal", [x])}]); yield dict(MIN, extraSensors=[{"values": ("horusReal", [1.5, x])}, {"name": "z"}], humidityPercentage=1)
    if not quick:
        for a in range(256):
            for b in (0, 1, 0x7f, 0x80, 0xff):
                for c in (0, 1, 0x80): yield dict(MIN, extraSensors=[{"values": ("horusReal", [R(bytes([3, a, b, c]))])}])
    opens = [b"\x00", b"\x01\x20", b"\x01\x21", b"\x02\x20\x00", b"\x7f" + b"a" * 127, b"\x80\x80" + b"b" * 128, b"\xbf\xff" + b"c" * 16383, frag(b"\x20" + b"\0" * 16383), frag(b"d" * (16384 + 3)), frag(b"e" * (16384 * 3 + 200)), frag(b"f" * (32768 + 1), [1, 1]), frag(b"", []), b"\xc0", b"\xc5", b"\x80\x01\x20"]
    for o in opens:
        yield dict(MIN, via=num(0, 7) + [1] + ob(o)); yield dict(MIN, via=num(1, 7) + [1, 1] + ob(o) + ob(b"\x01\x40")); yield dict(MIN, via=num(1, 7) + [0, 1] + ob(o), humidityPercentage=9)
    for n in list(range(1, 65)):                              # every small bitmap length, none / first / last / all present
        for pat in ([0] * n, [1] + [0] * (n - 1), [0] * (n - 1) + [1], [1] * n):
            yield dict(MIN, via=num(n - 1, 7) + pat + ob(b"\x01\x20") * sum(pat))
    for n in [0, 1, 7, 8, 9, 64, 65, 127, 128, 200, 16383] + ([] if quick else [2, 63, 66, 129, 4095]):   # the long form
        l = ob(bytes([n])) if n < 128 else ob(bytes([0x80 | n >> 8, n & 255]))
        for pat in ([0] * n, [0] * (n - 1) + [1] if n else []): yield dict(MIN, via=[1] + l + pat + ob(b"\x01\x20") * sum(pat))
    for m in (1, 4): yield dict(MIN, via=[1] + ob(bytes([0xc0 | m])) + [0] * (m * 16384) + ob(b"\0"))

def run(chk):
    exe = c16.v3_build("v3cs", flags=("-DMC_SAN", "-fsanitize=address,bounds,null,alignment,object-size,return,unreachable,vla-bound", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fsanitize-address-use-after-return=never"), cc="clang")
    d = tempfile.mkdtemp(prefix="c17-", dir=vlib.BUILD)
    try:
        p = os.path.join(d, "corpus")
        with open(p, "w") as f:
            for t in corpus(chk.quick):
                n, m = nbits(t)
                f.write(f"{n} {m.hex()}\n")
            k = 0
            for t in structures(chk.quick):
                n, m = nbits(t); k += 1
                f.write(f"L {n} {m.hex()}\n")
            chk.cov["structure_messages"] = k
        chk.cov["rule"] = "evaluation = one input decoded in an exact-size heap block; accepted values inside the constraints are encoded again, decoded and compared; truncations of a message must never be accepted; nontrivial = inputs accepted as a message"
        tot = vlib.run_shards(chk, exe, ["--corpus", p, "--subst", 1, "--two", -1, "--tiny", 2 if chk.quick else 3, "--thorough", int(not chk.quick)], label="v3")
        chk.cov["evaluations"] = chk.cov.pop("inputs_decoded", 0)
        chk.cov["distinct_nontrivial"] = chk.cov.pop("accepted", 0)
        if chk.cov["evaluations"] and not (chk.cov["distinct_nontrivial"] and chk.cov.get("asked_for_more")) and not chk.viol:
            raise RuntimeError("vacuous: nothing accepted or nothing truncated")
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)

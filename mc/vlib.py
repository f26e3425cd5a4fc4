"""Shared machinery: building from /repo, running C explorers in shards, evidence, findings, violations."""
import hashlib, json, os, re, subprocess, sys, time, shutil, tempfile, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HORUS_REPO", "/repo")          # overridden only while developing against scratch copies
BUILD = os.path.join(VERIF, "build")
MC = os.path.join(VERIF, "mc")
PY = "/opt/horus-venv/bin/python"
JOBS = max(1, min(8, os.cpu_count() or 1))
DEFS = ["-DHORUS_L2_RX", "-DINTERLEAVER", "-DSCRAMBLER", "-DRUN_TIME_TABLES"]
HORUS_SRCS = ["fsk.c", "kiss_fft.c", "kiss_fftr.c", "mpdecode_core.c", "H_256_768_22.c", "H_128_384_23.c",
              "golay23.c", "phi0.c", "horus_api.c", "horus_l2.c"]


class BuildError(Exception):
    pass


def horus_srcs():
    """The library's source list as the project's own build defines it (so an added source file is followed)."""
    out = []
    try:
        txt = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
        m = re.search(r"set\(horus_srcs(.*?)\)", txt, re.S)
        out = re.findall(r"[\w./]+\.c\b", m.group(1)) if m else []
    except OSError:
        pass
    return out or HORUS_SRCS


def _hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _walk(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("_build", "build", ".git", "__pycache__")]
        out += [os.path.join(r, f) for f in fs if f.endswith(exts)]
    return out


def sh(cmd, timeout=900, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def _prune():
    try:
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime)
    except OSError:
        return
    for d in ds[:-60]:
        shutil.rmtree(d, ignore_errors=True)


def cbuild(name, harness, repo_srcs, cflags=(), ldflags=(), cc="gcc", defs=None, incs=("src",), opt="-O2"):
    """Compile harness sources (under mc/c) with repo sources into an executable; returns its path."""
    defs = DEFS if defs is None else defs
    hs = [os.path.join(MC, "c", h) for h in harness]
    rs = [os.path.join(REPO, s) for s in repo_srcs]
    deps = hs + [os.path.join(MC, "c", x) for x in os.listdir(os.path.join(MC, "c")) if x.endswith((".h", ".c"))]
    for i in incs:
        deps += _walk(os.path.join(REPO, i), (".h", ".c"))
    key = _hash_files(deps, json.dumps([name, harness, repo_srcs, list(cflags), list(ldflags), cc, defs, opt, REPO]))
    out = os.path.join(BUILD, f"{name}-{key}")
    exe = os.path.join(out, name)
    if os.path.exists(exe):
        os.utime(out)
        return exe
    os.makedirs(BUILD, exist_ok=True)
    _prune()
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    flags = [opt, "-g1", "-w", "-fno-strict-aliasing"] + list(defs) + list(cflags) + [f"-I{os.path.join(REPO, i)}" for i in incs] + [f"-I{MC}/c"]
    def one(a):
        i, s = a
        o = os.path.join(tmp, f"{i}.o")
        extra = ["-DASN_DISABLE_OER_SUPPORT=1"]
        return o, sh([cc] + flags + extra + ["-c", s, "-o", o])
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, enumerate(hs + rs)))
        for o, r in res:
            if r.returncode:
                raise BuildError(r.stderr.decode(errors="replace")[-4000:])
        r = sh([cc] + flags + [o for o, _ in res] + list(ldflags) + ["-lm", "-o", os.path.join(tmp, name)])
        if r.returncode:
            raise BuildError(r.stderr.decode(errors="replace")[-4000:])
        for o, _ in res:
            os.unlink(o)
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(exe):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
        return exe
    finally:
        shutil.rmtree(tmp, ignore_errors=True) if os.path.isdir(tmp) else None


def hsrcs():
    return ["src/" + s for s in horus_srcs()]


def ext_build(cflags=()):
    """Build the cffi extension from /repo's current sources with the project's own definition; returns its directory."""
    deps = _walk(os.path.join(REPO, "src"), (".c", ".h")) + [os.path.join(REPO, "horusdemodlib/horus_api_build.py")]
    key = _hash_files(deps, "ext" + REPO + " ".join(cflags))
    out = os.path.join(BUILD, f"ext-{key}")
    if os.path.isdir(out):
        os.utime(out)
        return out
    os.makedirs(BUILD, exist_ok=True)
    _prune()
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    code = f"""
import sys,os
sys.dont_write_bytecode=True
os.chdir({REPO!r})
import importlib.util
s=importlib.util.spec_from_file_location('hab',os.path.join({REPO!r},'horusdemodlib/horus_api_build.py'))
m=importlib.util.module_from_spec(s); s.loader.exec_module(m)
from setuptools import setup
e=m.ffibuilder.distutils_extension(tmpdir={tmp!r}+'/c')
e.sources=[os.path.abspath(x) for x in e.sources]
e.extra_compile_args=list(e.extra_compile_args or [])+{list(cflags)!r}
e.include_dirs=[os.path.abspath(x) for x in e.include_dirs]
os.chdir({tmp!r})
setup(name='x',version='0',packages=[],py_modules=[],ext_modules=[e],script_name='x',script_args=['-q','build_ext','--force','--build-lib',{tmp!r}+'/out','--build-temp',{tmp!r}+'/tmp'])
"""
    env = dict(os.environ, CC="gcc", CXX="g++", PYTHONDONTWRITEBYTECODE="1", HOME="/root")
    env.pop("PYTHONPATH", None)
    r = sh([PY, "-c", code], env=env)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError((r.stdout + r.stderr).decode(errors="replace")[-4000:])
    try:
        os.rename(tmp + "/out", out)
    except OSError:
        if not os.path.isdir(out):
            raise
    shutil.rmtree(tmp, ignore_errors=True)
    return out


def import_repo(ext=True):
    """Make `import horusdemodlib` come from /repo and the extension from our own build."""
    sys.dont_write_bytecode = True
    if ext:
        sys.path.insert(0, ext_build())
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")


# ---------------------------------------------------------------- findings / violations / evidence
class Check:
    def __init__(self, pid, tier, level, assumptions=()):
        self.id, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.viol = []
        self.known_hit = {}
        self.assumptions = list(assumptions)
        self.known = []
        try:
            for line in open(os.path.join(VERIF, "known_findings.txt")):
                m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
                if m and m.group(1) == pid:
                    self.known.append((m.group(2), m.group(3)))
        except OSError:
            pass

    @property
    def quick(self):
        return self.tier == "quick"

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s if isinstance(s, (dict, list)) else str(s)[:400])

    def violation(self, key, what, replay=None):
        """key: stable identification of the failing input / call site / history."""
        for k, text in self.known:
            if re.fullmatch(k, key):
                self.known_hit[k] = text
                return
        self.viol.append({"key": key, "what": what, "replay": replay})

    def finish(self):
        if self.samples:
            self.cov["samples"] = self.samples
        cov = self.cov
        cov.setdefault("exhaustive", True)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, text in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.id} {text}")
        nums = {k: v for k, v in cov.items() if isinstance(v, (int, float)) and not isinstance(v, bool)}
        print(f"{self.id} {self.tier}: " + " ".join(f"{k}={v}" for k, v in nums.items()) + f" wall={ev['wall_s']}s")
        if self.viol:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", f"{self.id}.json")
            with open(rp, "w") as f:
                json.dump({"property": self.id, "tier": self.tier, "violations": self.viol[:50]}, f, indent=1, default=str)
            for v in self.viol[:8]:
                print(f"  {v['key']}: {str(v['what'])[:600]}")
            if len(self.viol) > 8:
                print(f"  ... {len(self.viol)} violations in all")
            print(f"VIOLATION property={self.id} replay={rp}")
            return 1
        return 0


# ---------------------------------------------------------------- sharded C explorers
ASAN_ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1:print_legend=0",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
            "LSAN_OPTIONS": "exitcode=77",
            "MSAN_OPTIONS": "exitcode=77"}


class EarlyStop(Exception):
    """What was found (an endless loop, thousands of violations) makes the rest of the enumeration pointless."""

def run_shards(chk, exe, args, shards=JOBS, timeout=700, label="", env=None):
    """Run `exe --shard i/n args...`; the harness prints STAT k v | SAMPLE t | VIOL key|text | CASE idx lines.
    A crash (signal, sanitizer report, timeout) is a violation of the case the harness last announced."""
    e = dict(os.environ, **ASAN_ENV)
    if env:
        e.update(env)
    args = [str(a) for a in args]
    def one(i):
        try:
            return i, sh([exe, "--shard", f"{i}/{shards}"] + args, timeout=timeout, env=e)
        except subprocess.TimeoutExpired as ex:
            return i, ex
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, range(shards)))
    tot = {}; late = None
    for i, r in res:
        if isinstance(r, subprocess.TimeoutExpired):
            chk.cov["exhaustive"] = False; late = i
        out = (r.stdout or b"").decode(errors="replace")
        done = False
        for line in out.splitlines():
            if isinstance(r, subprocess.TimeoutExpired) and not line.startswith("VIOL "): continue
            if line.startswith("STAT "):
                _, k, v = line.split()
                tot[k] = tot.get(k, 0) + int(v)
            elif line.startswith("MAX "):
                _, k, v = line.split()
                tot[k] = max(tot.get(k, 0), int(v))
            elif line.startswith("SAMPLE "):
                chk.sample(line[7:])
            elif line.startswith("VIOL "):
                key, _, text = line[5:].partition("|")
                chk.violation(key, text, replay=[exe] + args)
            elif line == "DONE":
                done = True
        if isinstance(r, subprocess.TimeoutExpired): continue
        if r.returncode != 0 or not done:
            err = r.stderr.decode(errors="replace")
            m = re.findall(r"CASE (.*)", err)
            case = m[-1].strip() if m else "?"
            summ = re.search(r"(SUMMARY: .*|runtime error: .*|Assertion.*)", err)
            kind = summ.group(1) if summ else f"exit {r.returncode}"
            kind_key = re.sub(r"[^A-Za-z0-9_.-]+", "_", re.sub(r"0x[0-9a-f]+", "", kind))[:80]
            chk.violation(f"crash:{label}:{kind_key}", f"case {case}: {kind}\n{err[-1500:]}", replay=[exe, "--shard", f"{i}/{shards}"] + args)
    for k, v in tot.items():
        chk.cov[k] = chk.cov.get(k, 0) + v
    if late is not None and not chk.viol: raise RuntimeError(f"{label} shard {late}: harness ran out of time")
    if late is not None or any(v["key"].endswith("hang") for v in chk.viol):
        chk.cov["exhaustive"] = False
        raise EarlyStop("a case does not end")
    return tot

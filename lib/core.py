"""Property-based-testing engine for the spasm-ng checks.

* Src        choice-sequence source: every random decision of a generator is one bounded integer
             drawn here, so a case is exactly its list of choices (replayable and shrinkable).
* Runner     compiles /repo's current sources and runs the assembler in a private scratch directory.
* run_check  distributes seeded cases over worker processes, shrinks the first failure, replays it
             three times, writes the replay file and the evidence file.
"""
import atexit, base64, fcntl, hashlib, json, os, random, re, resource, select, shutil, signal, subprocess, sys
import time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPASM_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    """The property does not hold on this case."""
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Discard(Exception):
    """The generator produced nothing usable; counted, never silently dropped."""


class Inconclusive(Exception):
    """Infrastructure trouble (no memory, no disk, ...): neither pass nor violation."""


# ---------------------------------------------------------------- choices
class Src:
    MAXLEN = 200000

    def __init__(self, rng=None, choices=None, prefix=None):
        self.rng = rng
        self.fixed = choices
        self.prefix = prefix    # one forced first choice (sweep parts), logged like any other
        self.pos = 0
        self.log = []

    def draw(self, n):
        """An integer in [0, n); 0 is the simplest."""
        if n <= 1:
            return 0
        if self.prefix is not None:
            v = self.prefix % n
            self.prefix = None
        elif self.fixed is not None:
            if self.pos < len(self.fixed):
                v = self.fixed[self.pos]
                self.pos += 1
                if v >= n:
                    v = n - 1
            else:
                v = 0
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        if len(self.log) > self.MAXLEN:
            raise Discard("case too large")
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def bool(self, p=0.5):
        """True with probability p; False is simplest."""
        return self.draw(1000) >= 1000 - int(p * 1000)

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: (weight, value); earlier entries are simpler."""
        tot = sum(w for w, _ in pairs)
        r = self.draw(tot)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        return pairs[-1][1]

    def many(self, lo, avg, hi):
        """Iterates between lo and hi times, avg on average; stopping early is simplest."""
        n = 0
        p = 1 - 1.0 / (max(avg - lo, 0.01) + 1)
        while n < lo or (n < hi and self.bool(p)):
            yield n
            n += 1

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def bytes(self, n):
        return bytes(self.draw(256) for _ in range(n))

    # numbers biased to boundaries
    def edgy(self, lo, hi, extra=()):
        edges = [v for v in (lo, lo + 1, hi - 1, hi, 0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768,
                             65535, 65536, -32768) + tuple(extra) if lo <= v <= hi]
        if edges and self.bool(0.4):
            return self.choice(edges)
        k = self.draw(3)
        if k == 0:
            return self.int(max(lo, min(0, hi)), min(hi, max(lo, 0) + 300))
        if k == 1:
            return self.int(max(lo, -300 if hi >= 0 else hi - 300), min(hi, 0) if lo < 0 else hi)
        return self.int(lo, hi)


# ---------------------------------------------------------------- building
DEPS_MK = """
vpath %.cpp {repo}
vpath Makefile {repo}
$(OBJ): CPPFLAGS_UNUSED=1
"""

BUILD_KINDS = {
    "plain": {"CXXFLAGS": "-w", "LDFLAGS": ""},
    "asan": {"CXXFLAGS": "-w -g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=pointer-overflow "
                         "-fno-sanitize=signed-integer-overflow,shift,alignment,vptr,enum,bool,float-cast-overflow,null",
             "LDFLAGS": "-fsanitize=address,undefined"},
}


def tree_hash():
    h = hashlib.sha256()
    h.update(REPO.encode())
    names = []
    for n in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, n)
        if os.path.isfile(p) and (n.endswith((".cpp", ".h", ".hpp", ".c", ".inl")) or n in ("Makefile", "version.sh")):
            names.append(n)
    for n in names:
        h.update(n.encode() + b"\0")
        with open(os.path.join(REPO, n), "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def build(kind="plain"):
    """Compile /repo's current working tree with its own Makefile, outside /repo. Returns the executable."""
    base = os.path.join(VERIF, ".build")
    os.makedirs(base, exist_ok=True)
    d = os.path.join(base, tree_hash() + "-" + kind)
    exe = os.path.join(d, "spasm")
    with open(os.path.join(base, kind + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "ok")):
            olds = sorted((x for x in os.listdir(base) if x.endswith("-" + kind)),
                          key=lambda x: os.path.getmtime(os.path.join(base, x)))
            for old in olds[:-6]:
                shutil.rmtree(os.path.join(base, old), ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, "deps.mk"), "w") as f:
                f.write("vpath %%.cpp %s\nvpath Makefile %s\n" % (REPO, REPO))
            env = dict(os.environ)
            for k in ("MAKEFLAGS", "CPATH", "CROSS_COMPILE", "NO_APPSIGN", "OS"):
                env.pop(k, None)
            env.update(BUILD_KINDS[kind], FORCE_NO_GIT="1", LC_ALL="C.UTF-8")
            cmd = ["make", "-j8", "-f", os.path.join(REPO, "Makefile"), "-f", os.path.join(d, "deps.mk"), "spasm"]
            if kind != "plain":
                cmd.append("STRIP=true")
            r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0 or not os.path.exists(exe):
                sys.stdout.write(r.stdout.decode("utf-8", "replace")[-4000:])
                raise SystemExit("build of %s failed" % REPO)
            for n in os.listdir(d):
                if n.endswith(".o"):
                    os.unlink(os.path.join(d, n))
            open(os.path.join(d, "ok"), "w").close()
    return exe


# ---------------------------------------------------------------- running
ANSI = re.compile(rb"\x1b\[[0-9;]*m")


class Result:
    __slots__ = ("rc", "raw", "out", "files", "timeout", "dir")

    def text(self):
        return self.out.decode("latin-1")

    def lines(self):
        return self.text().split("\n")


DIAG = re.compile(r"^(.*?):(-?\d+): (error|warning)(?: (S[EW][0-9A-F]{3}))?: (.*)$")


class Diag:
    __slots__ = ("file", "line", "kind", "code", "msg")

    def __init__(self, m):
        self.file, self.line, self.kind, self.code, self.msg = m.group(1), int(m.group(2)), m.group(3), m.group(4), m.group(5)

    def __repr__(self):
        return "%s:%d:%s:%s:%s" % (self.file, self.line, self.kind, self.code, self.msg)


def diags(res):
    out = []
    for l in res.lines():
        m = DIAG.match(l)
        if m:
            out.append(Diag(m))
    return out


CPU_LIMIT = 20

# for checks with arbitrary inputs: the assembler runs as nobody, who can write only to the scratch directory
LAUNCHER = """
#include <grp.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>
int main (int argc, char **argv) {
	if (geteuid () == 0) {
		setgroups (0, NULL);
		if (setgid (65534) != 0 || setuid (65534) != 0)
			return 98;
	}
	if (strstr (argv[1], "asan") != NULL) {
		struct rlimit r = {RLIM_INFINITY, RLIM_INFINITY};
		if (setrlimit (RLIMIT_STACK, &r) != 0) {
			getrlimit (RLIMIT_STACK, &r);
			r.rlim_cur = r.rlim_max;
			setrlimit (RLIMIT_STACK, &r);
		}
	}
	execv (argv[1], argv + 1);
	return 97;
}
"""


def launcher(scratch):
    src = os.path.join(scratch, "launch.c")
    with open(src, "w") as f:
        f.write(LAUNCHER)
    exe = os.path.join(scratch, "launch")
    subprocess.run(["gcc", "-O1", "-w", "-o", exe, src], check=True)
    os.chmod(exe, 0o755)
    return exe


class Runner:
    def __init__(self, exe, scratch, env=None):
        self.pre = []
        if isinstance(exe, tuple):
            exe, self.pre = exe[0], list(exe[1])
        self.exe = exe
        self.dir = scratch
        self.env = {"LC_ALL": "C", "PATH": "/usr/bin:/bin"}
        if env:
            self.env.update(env)
        self.runs = 0
        self.cpu = CPU_LIMIT
        os.makedirs(scratch, exist_ok=True)
        if self.pre:
            os.chmod(scratch, 0o777)

    def clean(self):
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)

    def run(self, files, args, want=(), keep=False, wall=120):
        """files: name -> bytes/str, written to an emptied scratch dir. want: output names to collect."""
        if not keep:
            self.clean()
        for n, data in files.items():
            p = os.path.join(self.dir, n)
            if "/" in n:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data.encode("latin-1") if isinstance(data, str) else data)
        r = self._spawn(args, wall)
        r.files = {}
        for n in want:
            p = os.path.join(self.dir, n)
            try:
                with open(p, "rb") as f:
                    r.files[n] = f.read()
            except OSError:
                r.files[n] = None
        return r

    def _spawn(self, args, wall):
        self.runs += 1
        rd, wr = os.pipe()
        os.set_inheritable(wr, True)
        cwd = os.getcwd()
        try:
            os.chdir(self.dir)
            fa = [(os.POSIX_SPAWN_OPEN, 0, "/dev/null", os.O_RDONLY, 0), (os.POSIX_SPAWN_DUP2, wr, 1),
                  (os.POSIX_SPAWN_DUP2, wr, 2), (os.POSIX_SPAWN_CLOSE, wr)]
            pid = os.posix_spawn(self.exe, (["launch"] + self.pre if self.pre else ["spasm"]) + [a.encode("latin-1", "surrogateescape") if isinstance(a, str) else a for a in args], self.env, file_actions=fa)
        except OSError as e:
            os.close(rd)
            os.close(wr)
            raise Inconclusive("spawn: %s" % e)
        finally:
            os.chdir(cwd)
        os.close(wr)
        try:
            resource.prlimit(pid, resource.RLIMIT_CPU, (self.cpu, self.cpu + 5))
        except (OSError, ValueError):
            pass
        buf = []
        size = 0
        end = time.monotonic() + wall
        timeout = False
        while True:
            left = end - time.monotonic()
            if left <= 0:
                timeout = True
                os.kill(pid, signal.SIGKILL)
                break
            rl, _, _ = select.select([rd], [], [], left)
            if not rl:
                continue
            b = os.read(rd, 1 << 16)
            if not b:
                break
            size += len(b)
            if size < (8 << 20):
                buf.append(b)
        os.close(rd)
        _, st, = os.waitpid(pid, 0)
        r = Result()
        r.rc = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        if timeout:
            raise Inconclusive("wall-clock limit without CPU limit reached")
        r.timeout = r.rc in (-signal.SIGXCPU, -signal.SIGKILL)
        r.raw = b"".join(buf)
        r.out = ANSI.sub(b"", r.raw)
        r.dir = self.dir
        return r


class Tester:
    """What a property function sees besides its Src."""
    def __init__(self, prop, scratch, kinds, tier):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.runners = {k: Runner(e, os.path.join(scratch, k), env) for k, (e, env) in kinds.items()}
        self.main = self.runners[next(iter(self.runners))]
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.evals = 0
        self.discards = 0
        self.last = None       # last (files, args) for the replay file

    def run(self, files, args, want=(), kind=None, **kw):
        self.last = (files, list(args), kind)
        r = (self.runners[kind] if kind else self.main).run(files, args, want, **kw)
        return r

    def asm(self, src, args=(), out="out.bin", files=None, kind=None, check_alive=True):
        """Assemble src; returns Result with .files[out]."""
        fs = {"in.asm": src}
        if files:
            fs.update(files)
        r = self.run(fs, ["-N"] + list(args) + ["in.asm", out], want=(out,), kind=kind)
        if check_alive:
            alive(r)
        return r

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, key):
        if not isinstance(key, (bytes, str)):
            key = repr(key)
        if isinstance(key, str):
            key = key.encode("utf-8", "surrogateescape")
        self.keys.add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s[:1500])


def alive(r):
    if r.rc < 0:
        raise Violation("assembler died with signal %d%s" % (-r.rc, " (CPU limit: no termination)" if r.timeout else ""),
                        output=r.text()[-800:])
    if r.rc not in (0, 1, 2, 3):
        raise Violation("assembler ended with unexpected status %d" % r.rc, output=r.text()[-800:])


def ok_output(r, out="out.bin"):
    """A faultless run: exit 0, no diagnostics, output present."""
    if r.rc != 0 or diags(r) or r.files[out] is None:
        raise Violation("valid program rejected or diagnosed: exit %d" % r.rc, output=r.text()[:1500])
    return r.files[out]


def hexdiff(exp, got):
    n = min(len(exp), len(got))
    i = next((k for k in range(n) if exp[k] != got[k]), n)
    return "first difference at offset %d (expected %s, got %s); lengths %d/%d" % (
        i, exp[max(0, i - 2):i + 8].hex(" "), got[max(0, i - 2):i + 8].hex(" "), len(exp), len(got))


def expect_bytes(exp, got, what="output bytes"):
    if exp != got:
        raise Violation("%s differ: %s" % (what, hexdiff(exp, got)))


# ---------------------------------------------------------------- case execution
def run_case(fn, src, t):
    """Returns None or a Violation."""
    t.last = None
    try:
        fn(src, t)
        return None
    except (Violation, Discard, Inconclusive):
        raise
    except RecursionError:
        raise Discard("generator too deep")
    except (MemoryError, OSError) as e:
        raise Inconclusive("%s: %s" % (type(e).__name__, e))
    except Exception as e:          # the oracle could not make sense of what the assembler produced
        raise Violation("unparseable result: %s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-1500:])


def fails(fn, choices, t):
    """(Violation, used choices) or None."""
    s = Src(choices=choices)
    try:
        run_case(fn, s, t)
    except Violation as v:
        return v, s.log
    except (Discard, Inconclusive):
        return None
    return None


def again(fn, choices, t, need, tries):
    """The last of `need` failures within `tries` runs, or None."""
    for _ in range(tries):
        r = fails(fn, choices, t)
        need -= r is not None
        if need == 0:
            return r
    return None


def shrink(fn, choices, t, budget_s=60, max_tries=3000):
    end = time.monotonic() + budget_s
    tries = 0
    best = again(fn, choices, t, 1, 10)
    if best is None:
        return None
    v, cur = best

    def attempt(c):
        nonlocal v, cur, tries
        tries += 1
        if c == cur or len(c) > len(cur):
            return False
        r = fails(fn, c, t)
        if r is None:
            return False
        nv, used = r
        if (len(used), used) < (len(cur), cur):
            v, cur = nv, used
            return True
        return False

    improved = True
    while improved and time.monotonic() < end and tries < max_tries:
        improved = False
        size = max(1, len(cur) // 2)
        while size >= 1:
            i = len(cur) - size
            while i >= 0 and time.monotonic() < end and tries < max_tries:
                if attempt(cur[:i] + cur[i + size:]):
                    improved = True
                    i = min(i, len(cur) - size)
                else:
                    # dropping a counted element: lower the preceding choice as well
                    i -= max(1, size // 2) if size > 2 else 1
            size //= 2
        for size in (8, 4, 2, 1):
            i = 0
            while i + size <= len(cur) and time.monotonic() < end and tries < max_tries:
                if any(cur[i:i + size]):
                    if attempt(cur[:i] + [0] * size + cur[i + size:]):
                        improved = True
                i += size
        i = 0
        while i < len(cur) and time.monotonic() < end and tries < max_tries:
            x = cur[i]
            lo, hi = 0, x
            while lo < hi and i < len(cur):
                mid = (lo + hi) // 2
                if attempt(cur[:i] + [mid] + cur[i + 1:]):
                    improved = True
                    hi = mid
                else:
                    lo = mid + 1
                if time.monotonic() > end:
                    break
            i += 1
    return v, cur


# ---------------------------------------------------------------- workers
def scratch_root():
    for b in ("/dev/shm", "/tmp"):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            try:
                st = os.statvfs(b)
                if st.f_bavail * st.f_frsize > (256 << 20):
                    return b
            except OSError:
                pass
    return "/tmp"


def seed_for(seed, prop, part, i):
    return int.from_bytes(hashlib.blake2b(("%d:%s:%s:%d" % (seed, prop, part, i)).encode(), digest_size=8).digest(), "big")


def worker(w, conf, kinds, parts, scratch, wfd, stop_path):
    os.setpgid(0, 0) if False else None
    prop, seed, tier, deadline = conf
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
    except (OSError, ValueError):
        pass
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    t = Tester(prop, scratch, kinds, tier)
    done = {}
    fail = None
    incon = []
    unsure = []
    for pname, fn, n in parts:
        done[pname] = 0
        for i in range(w, n, NPROC):
            if time.monotonic() > deadline or os.path.exists(stop_path):
                break
            src = Src(rng=random.Random(seed_for(seed, prop, pname, i)), prefix=i if pname.startswith("sweep") else None)
            try:
                run_case(fn, src, t)
                t.evals += 1
            except Discard:
                t.discards += 1
            except Inconclusive as e:
                incon.append(str(e))
                if len(incon) > 20:
                    break
            except Violation as v:
                t.evals += 1
                # a failure counts once it has been seen twice, on this input or (if the code is not deterministic) on several
                if any(fails(fn, src.log, t) for _ in range(4)) or len(unsure) >= 3:
                    fail = (pname, i, src.log, v.msg)
                    open(stop_path, "w").close()
                    break
                unsure.append("%s case %d failed once: %s" % (pname, i, v.msg[:200]))
            done[pname] += 1
        if fail:
            break
    out = {"w": w, "evals": t.evals, "discards": t.discards, "labels": t.labels, "samples": t.samples,
           "keys": base64.b64encode(b"".join(sorted(t.keys))).decode(), "done": done, "fail": fail,
           "incon": (unsure + incon)[:3], "nincon": len(incon) + len(unsure), "runs": sum(r.runs for r in t.runners.values())}
    data = json.dumps(out).encode()
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def load_known(prop):
    """Lines of known_findings.txt: 'finding: property=<id> key=<key> <text>' / 'fixed: property=<id> <commit> <text>'."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def run_check(mod, argv):
    prop = mod.PROP
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    i = 0
    while i < len(argv):
        a = argv[i]
        if a == "--tier":
            tier = argv[i + 1]
            i += 1
        elif a == "--seed":
            seed = int(argv[i + 1])
            i += 1
        elif a == "--replay":
            replay = argv[i + 1]
            i += 1
        elif a == "--scale":
            scale = float(argv[i + 1])
            i += 1
        i += 1
    t0 = time.monotonic()
    kinds = {k: (build(k), env) for k, env in getattr(mod, "BUILDS", [("plain", None)])}
    scratch = os.path.join(scratch_root(), "spasmv.%s.%d" % (prop, os.getpid()))
    os.makedirs(scratch)
    os.chmod(scratch, 0o755)
    if getattr(mod, "UNPRIVILEGED", False):
        for base in (scratch, "/tmp/" + os.path.basename(scratch) + ".bin", os.path.join(VERIF, ".build")):
            try:
                os.makedirs(base, exist_ok=True)
                la = launcher(base)
                if subprocess.run([la, "/bin/true"]).returncode == 0:
                    break
            except OSError:
                pass
        else:
            raise SystemExit("no directory to run programs from")
        if base.startswith("/tmp/") and base != scratch:
            atexit.register(shutil.rmtree, base, True)
        for k, (e, env) in list(kinds.items()):
            mine = os.path.join(base, "spasm-" + k)
            shutil.copy(e, mine)
            os.chmod(mine, 0o755)
            kinds[k] = ((la, [mine]), env)
    try:
        if replay:
            return do_replay(mod, replay, kinds, scratch, tier)
        return do_run(mod, prop, tier, seed, scale, kinds, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(mod, path, kinds, scratch, tier):
    rp = json.load(open(path))
    fn = dict((p[0], p[1]) for p in mod.parts("thorough"))[rp["part"]]
    t = Tester(mod.PROP, os.path.join(scratch, "replay"), kinds, tier)
    r = fails(fn, rp["choices"], t)
    if r is None:
        print("replay: property %s holds on this case" % mod.PROP)
        return 0
    print(r[0].msg)
    for k, v in r[0].detail.items():
        print("--- %s:\n%s" % (k, v))
    print("VIOLATION property=%s replay=%s" % (mod.PROP, path))
    return 1


def do_run(mod, prop, tier, seed, scale, kinds, scratch, t0):
    limit = 480 if tier == "quick" else 3600
    limit = float(os.environ.get("VERIF_LIMIT_S", limit))
    deadline = t0 + limit
    parts = [(n, f, max(NPROC, int(c * scale))) for n, f, c in mod.parts(tier)]
    known = load_known(prop)
    kt = Tester(prop, os.path.join(scratch, "known"), kinds, tier)
    for key, text in known:
        fn = getattr(mod, "FINDINGS", {}).get(key)
        try:
            still = fn(kt) if fn else True
        except Exception:
            still = True
        if still:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    stop = os.path.join(scratch, "stop")
    sys.stdout.flush()
    procs = []
    for w in range(NPROC):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rd)
                worker(w, (prop, seed, tier, deadline), kinds, parts, os.path.join(scratch, "w%d" % w), wr, stop)
            except BaseException:
                traceback.print_exc()
                code = 70
            finally:
                sys.stdout.flush()
                os._exit(code)
        os.close(wr)
        procs.append((pid, rd))
    outs = []
    for pid, rd in procs:
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            outs.append(json.loads(data))
    keys = set()
    labels = {}
    samples = []
    done = {}
    evals = discards = runs = nincon = 0
    incon = []
    failures = []
    for o in sorted(outs, key=lambda o: o["w"]):
        b = base64.b64decode(o["keys"])
        keys.update(b[k:k + 8] for k in range(0, len(b), 8))
        for k, v in o["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += o["samples"]
        evals += o["evals"]
        discards += o["discards"]
        runs += o["runs"]
        nincon += o["nincon"]
        incon += o["incon"]
        for k, v in o["done"].items():
            done[k] = done.get(k, 0) + v
        if o["fail"]:
            failures.append(o["fail"])
    viol = 0
    if failures:
        order = {n: k for k, (n, _, _) in enumerate(parts)}
        failures.sort(key=lambda f: (order[f[0]], f[1]))
        fns = {n: f for n, f, _ in parts}
        t = Tester(prop, os.path.join(scratch, "shrink"), kinds, tier)
        for pname, idx, choices, msg in failures:
            sh = shrink(fns[pname], choices, t, budget_s=40 if tier == "quick" else 120)
            if sh is None:
                print("note: %s case %d (%s) did not fail again on replay; not reported" % (pname, idx, msg[:200]))
                nincon += 1
                continue
            v, ch = sh
            # the shrunk case, or else the case as it was found, has to fail twice more
            for ch in (ch, choices):
                rep = again(fns[pname], ch, t, 2, 10)
                if rep is not None:
                    break
            else:
                print("note: %s case %d did not reproduce; not reported" % (pname, idx))
                nincon += 1
                continue
            v = rep[0]
            d = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d-%d.json" % (prop, pname, seed, idx))
            files = {}
            args = []
            if t.last:
                files = {k: (x if isinstance(x, str) else x.decode("latin-1")) for k, x in t.last[0].items()}
                args = t.last[1]
            json.dump({"property": prop, "part": pname, "seed": seed, "index": idx, "choices": ch, "message": v.msg,
                       "detail": {k: str(x) for k, x in v.detail.items()}, "files": files, "args": args}, open(path, "w"), indent=1)
            print("%s/%s: %s" % (prop, pname, v.msg[:1500]))
            for k, x in v.detail.items():
                print("--- %s:\n%s" % (k, str(x)[:2500]))
            for k, x in list(files.items())[:4]:
                print("--- %s (args %s):\n%s" % (k, " ".join(args)[:300], x[:2500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            viol += 1
            break
    wall = time.monotonic() - t0
    want = {n: c for n, _, c in parts}
    cov = {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": mod.RULE,
           "samples": samples[:6] or ["(none)"], "assembler_runs": runs, "cases_per_part": done, "cases_planned": want,
           "labels": dict(sorted(labels.items())), "discarded": discards, "inconclusive": nincon,
           "inconclusive_examples": incon[:3]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": viol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d assembler runs, %d inconclusive, %.1fs%s" % (
        prop, tier, seed, evals, len(keys), runs, nincon, wall, "" if not viol else " VIOLATED"))
    if os.environ.get("VERIF_LABELS"):
        print(json.dumps(cov["labels"], indent=1))
    if viol:
        return 1
    if len(outs) < NPROC:
        print("a worker process ended without a result")
        return 2
    if evals == 0:
        print("no case was evaluated")
        return 2
    return 0

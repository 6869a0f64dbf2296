"""Generated-input search engine: choice-sequence generators, parallel driver,
shrinking, replay files and evidence.

A case is produced by a generator from a sequence of integer choices (Draw).
Shrinking edits that sequence, so every shrunk case is again one the generator
can make.  Every random choice derives from VERIF_SEED.
"""
import errno, hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NOBODY = 65534


# ------------------------------------------------------------------ choices
class Overrun(Exception):
    pass


class Draw:
    """Source of choices.  Simplest value of every choice is 0."""

    def __init__(self, rng=None, prefix=None, limit=20000):
        self.rng = rng
        self.prefix = prefix
        self.out = []
        self.limit = limit

    def _pick(self, n):
        """integer in [0, n)"""
        i = len(self.out)
        if i >= self.limit:
            raise Overrun()
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v >= n:
                v = v % n
        else:
            v = self.rng.randrange(n)
        self.out.append(v)
        return v

    def int(self, lo, hi):
        return lo + self._pick(hi - lo + 1)

    def bool(self, p=0.5):
        """True with probability about p; False is the simple value"""
        if self.prefix is not None:
            return self._pick(100) >= 100 - int(round(p * 100))
        return self._pick(100) >= 100 - int(round(p * 100))

    def choice(self, seq):
        return seq[self._pick(len(seq))]

    def weighted(self, pairs):
        """pairs of (weight, value); the first is the simple one"""
        tot = sum(w for w, _ in pairs)
        v = self._pick(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def listof(self, lo, hi, f):
        n = self.int(lo, hi)
        return [f() for _ in range(n)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self._pick(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def text(self, alphabet, lo, hi):
        n = self.int(lo, hi)
        return "".join(self.choice(alphabet) for _ in range(n))


class Skip(Exception):
    """case outside the property's domain"""


class Fail(Exception):
    """the property does not hold on this case"""

    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ building
class Build:
    pass


_SRC_SKIP = (".o", ".a", ".obj")


def copy_sources(dst):
    """Copy what the build takes from /repo's working tree."""
    def ign(d, names):
        return [n for n in names if n.endswith(_SRC_SKIP)]
    os.makedirs(dst)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(dst, "src"), ignore=ign)
    shutil.copy(os.path.join(REPO, "Makefile"), os.path.join(dst, "Makefile"))
    os.makedirs(os.path.join(dst, "bin"), exist_ok=True)
    os.makedirs(os.path.join(dst, "src", "obj"), exist_ok=True)


ENV_BUILD = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             "HOME": "/tmp", "LC_ALL": "C", "TZ": "UTC"}

ASAN_FLAGS = "-g -O1 -ftrivial-auto-var-init=pattern -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment,shift,signed-integer-overflow,nonnull-attribute -w"


def build(root, variants):
    """Build /repo's current tree in root/<variant>.  Returns {variant: bindir}"""
    out = {}
    procs = []
    for v in variants:
        d = os.path.join(root, v)
        copy_sources(d)
        cmd = ["make", "linux"]
        if v == "asan":
            cmd += ["CFLAGS=" + ASAN_FLAGS, "STRIP=true"]
        else:
            # uninitialised variables (and, with MALLOC_PERTURB_, memory) hold the same nonsense in every run
            cmd += ["CPPFLAGS=-ftrivial-auto-var-init=pattern"]
        log = open(os.path.join(root, v + ".log"), "wb")
        procs.append((v, d, subprocess.Popen(cmd, cwd=d, env=ENV_BUILD, stdout=log, stderr=log,
                                             stdin=subprocess.DEVNULL)))
    for v, d, p in procs:
        rc = p.wait()
        if rc != 0:
            sys.stderr.write(open(os.path.join(root, v + ".log"), errors="replace").read()[-3000:])
            raise HarnessError("build of variant %s failed" % v)
        out[v] = os.path.join(d, "bin")
        for t in ("crashmail", "crashwrite", "crashlist", "crashmaint", "crashgetnode",
                  "crashstats", "crashexport", "crashlistout"):
            if not os.path.exists(os.path.join(out[v], t)):
                raise HarnessError("missing binary %s" % t)
    return out


def build_helpers(root):
    shim = os.path.join(root, "shim.so")
    pk = os.path.join(root, "pk")
    c = os.path.join(VERIF, "csrc")
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", shim, c + "/shim.c", "-ldl"], check=True, env=ENV_BUILD)
    subprocess.run(["gcc", "-O1", "-w", "-o", pk, c + "/pk.c"], check=True, env=ENV_BUILD)
    return shim, pk


# ------------------------------------------------------------------ engine
class Env:
    """What a check gets: binaries, helpers, a private scratch directory."""

    def __init__(self, bins, shim, pk, scratch, tier):
        self.bins, self.shim, self.pk, self.scratch, self.tier = bins, shim, pk, scratch, tier
        self.n = 0
        self.stats = {}

    def bin(self, tool, variant="plain"):
        return os.path.join(self.bins[variant], tool)

    def fresh(self):
        d = os.path.join(self.scratch, "w")
        if os.path.lexists(d):
            subprocess.run(["chmod", "-R", "u+rwx", d], stderr=subprocess.DEVNULL)
            shutil.rmtree(d, ignore_errors=True)
            if os.path.lexists(d):
                self.n += 1
                d = os.path.join(self.scratch, "w%d" % self.n)
        os.mkdir(d)
        return d

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


def case_seed(seed, prop, i):
    h = hashlib.sha256(("%s|%s|%s" % (seed, prop, i)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def gen_case(mod, choices=None, rng=None):
    d = Draw(rng=rng, prefix=choices)
    case = mod.gen(d)
    return case, d.out


def eval_case(mod, case, env):
    """None if it holds, else message.  Also returns the non-triviality key."""
    try:
        key = mod.check(case, env)
        return None, key
    except Fail as f:
        return f.msg, None
    except (Skip, HarnessError, KeyboardInterrupt):
        raise
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN, errno.EDQUOT):
            raise
        return "output could not be examined: %s" % traceback.format_exc()[-900:], None
    except Exception:
        # what the programs left behind is not even well-formed enough to compare
        return "output could not be interpreted: %s" % traceback.format_exc()[-900:], None


def _worker(wid, nworkers, mod, seed, total, deadline, bins, shim, pk, base, tier, q, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        scratch = os.path.join(base, "s%d" % wid)
        os.mkdir(scratch)
        if os.getuid() == 0:
            os.chown(scratch, NOBODY, NOBODY)
            try:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
            except OSError:
                pass
        os.umask(0o022)
        os.environ["HOME"] = scratch
        env = Env(bins, shim, pk, scratch, tier)
        keys = set()
        samples = []
        n = skipped = 0
        for i in range(wid, total, nworkers):
            if stop.is_set() or time.time() > deadline:
                break
            rng = random.Random(case_seed(seed, mod.ID, i))
            try:
                case, choices = gen_case(mod, rng=rng)
            except Overrun:
                skipped += 1
                continue
            try:
                msg, key = eval_case(mod, case, env)
            except Skip:
                skipped += 1
                continue
            n += 1
            if msg is None:
                if key is not None:
                    hk = hashlib.sha1(json.dumps(key, sort_keys=True, default=repr).encode()).digest()[:10]
                    if hk not in keys:
                        keys.add(hk)
                        if len(samples) < 2:
                            samples.append(describe(mod, case))
            else:
                # a failure must reproduce before it counts
                again = 0
                for _ in range(getattr(mod, "TRIES", 6)):
                    try:
                        m2, _ = eval_case(mod, case, env)
                        again += m2 is not None
                    except Skip:
                        pass
                    if again:
                        break
                if not again:
                    env.count("unreproducible")
                    q.put(("flaky", i, again, msg))
                    continue
                q.put(("fail", i, choices, msg))
                stop.set()
                break
        q.put(("done", wid, n, skipped, keys, samples, env.stats))
    except Exception:
        q.put(("error", traceback.format_exc()))


def describe(mod, case):
    if hasattr(mod, "describe"):
        return mod.describe(case)
    s = repr(case)
    return s if len(s) < 1500 else s[:1500] + "..."


def shrink(mod, choices, env, budget):
    """Greedy choice-sequence shrinking: delete blocks, zero blocks, lower values."""
    t_end = time.time() + budget
    best = list(choices)
    tries = 0

    def fails(c):
        nonlocal tries
        tries += 1
        try:
            case, out = gen_case(mod, choices=c)
            msg, _ = eval_case(mod, case, env)
        except (Skip, Overrun):
            return None
        except Exception:
            return None
        if msg is None:
            return None
        while out and out[-1] == 0:
            out.pop()
        return out, msg

    r = fails(best)
    if r is None:
        return choices, None, tries
    best, msg = r
    # cut the tail: everything after a point becomes the simplest choice
    lo, hi = 0, len(best)
    while lo < hi and time.time() < t_end:
        mid = (lo + hi) // 2
        r = fails(best[:mid])
        if r:
            best, msg = r
            hi = min(mid, len(best))
        else:
            lo = mid + 1
    improved = True
    while improved and time.time() < t_end:
        improved = False
        big = [z for z in (4096, 2048, 1024, 512, 256, 128) if z < len(best)]
        for size in big + [64, 32, 16, 8, 4, 2, 1]:
            i = len(best) - size
            while i >= 0 and time.time() < t_end:
                cand = best[:i] + best[i + size:]
                r = fails(cand)
                if r and (len(r[0]), r[0]) < (len(best), best):
                    best, msg = r
                    improved = True
                i -= size
        for size in big + [64, 16, 4, 1]:
            i = 0
            while i < len(best) and time.time() < t_end:
                if any(best[i:i + size]):
                    cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    r = fails(cand)
                    if r and (len(r[0]), r[0]) < (len(best), best):
                        best, msg = r
                        improved = True
                i += size
        i = 0
        while i < len(best) and time.time() < t_end:
            v = best[i]
            for nv in (v // 2, v - 1):
                if 0 < nv < v:
                    cand = best[:i] + [nv] + best[i + 1:]
                    r = fails(cand)
                    if r and (len(r[0]), r[0]) < (len(best), best):
                        best, msg = r
                        improved = True
                        break
            i += 1
    return best, msg, tries


def setup_base(variants):
    base = tempfile.mkdtemp(prefix="cm")
    os.chmod(base, 0o755)
    bins = build(base, variants)
    shim, pk = build_helpers(base)
    return base, bins, shim, pk


def main(mod, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    base = None
    try:
        base, bins, shim, pk = setup_base(getattr(mod, "VARIANTS", ["plain"]))
        if "--replay" in argv:
            return replay(mod, argv[argv.index("--replay") + 1], base, bins, shim, pk, tier)
        return search(mod, tier, seed, t0, base, bins, shim, pk)
    except HarnessError as e:
        sys.stderr.write("harness error: %s\n" % e)
        return 2
    finally:
        if base and os.environ.get("VERIF_KEEP"):
            print("kept %s" % base)
        elif base:
            subprocess.run(["chmod", "-R", "u+rwx", base], stderr=subprocess.DEVNULL)
            shutil.rmtree(base, ignore_errors=True)


def solo_env(base, bins, shim, pk, tier):
    d = os.path.join(base, "solo")
    os.makedirs(d, exist_ok=True)
    if os.getuid() == 0:
        os.chown(d, NOBODY, NOBODY)
    return Env(bins, shim, pk, d, tier)


def in_child(fn, *args):
    """Run fn in a forked, unprivileged child and return its result."""
    r, w = mp.Pipe(False)

    def run():
        try:
            if os.getuid() == 0:
                try:
                    os.setgroups([])
                    os.setgid(NOBODY)
                    os.setuid(NOBODY)
                except OSError:
                    pass
            w.send(("ok", fn(*args)))
        except Exception:
            w.send(("error", traceback.format_exc()))
    p = mp.get_context("fork").Process(target=run)
    p.start()
    w.close()
    try:
        kind, v = r.recv()
    except EOFError:
        raise HarnessError("child died")
    p.join()
    if kind == "error":
        raise HarnessError(v)
    return v


def replay(mod, path, base, bins, shim, pk, tier):
    rec = json.load(open(path))
    env = solo_env(base, bins, shim, pk, tier)

    def go():
        case, _ = gen_case(mod, choices=rec["choices"])
        print(describe(mod, case))
        return eval_case(mod, case, env)[0]
    msg = in_child(go)
    if msg:
        print(msg)
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    print("holds on the replayed case")
    return 0


def search(mod, tier, seed, t0, base, bins, shim, pk):
    total = mod.BUDGET[tier]
    cap = getattr(mod, "CAP", {"quick": 240, "thorough": 700})[tier]
    deadline = time.time() + cap
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    stop = ctx.Event()
    nw = min(os.cpu_count() or 4, getattr(mod, "WORKERS", 8))
    procs = [ctx.Process(target=_worker, args=(w, nw, mod, seed, total, deadline, bins, shim, pk, base, tier, q, stop))
             for w in range(nw)]
    for p in procs:
        p.start()
    fails, keys, samples, n, skipped, stats, errors = [], set(), [], 0, 0, {}, []
    flaky = []
    live = nw
    while live:
        try:
            m = q.get(timeout=1)
        except Exception:
            if not any(p.is_alive() for p in procs) and q.empty():
                break
            continue
        if m[0] == "fail":
            fails.append(m)
        elif m[0] == "flaky":
            flaky.append(m[1:])
        elif m[0] == "error":
            errors.append(m[1])
            stop.set()
            live -= 1
        else:
            live -= 1
            _, _, a, b, k, s, st = m
            n += a
            skipped += b
            keys |= k
            samples += s
            for kk, vv in st.items():
                stats[kk] = stats.get(kk, 0) + vv
    for p in procs:
        p.join()
    if errors and not fails:
        sys.stderr.write(errors[0])
        raise HarnessError("worker failed")
    if live and not fails:
        raise HarnessError("a worker died")
    if n == 0 and not fails:
        raise HarnessError("no case was evaluated")

    extra_fail = None
    extra_cov = {}
    if hasattr(mod, "extra") and not fails:
        env = solo_env(base, bins, shim, pk, tier)
        extra_cov, extra_fail = in_child(mod.extra, env, seed, tier)

    rc = 0
    lines = []
    if fails:
        fails.sort(key=lambda m: m[1])
        _, i, choices, msg = fails[0]
        env = solo_env(base, bins, shim, pk, tier)
        small, smsg, tries = in_child(shrink, mod, choices, env, 40 if tier == "quick" else 120)
        rep = os.path.join(VERIF, "replays")
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, "%s-%d.json" % (mod.ID, i))
        case, _ = gen_case(mod, choices=small)
        json.dump({"property": mod.ID, "seed": seed, "index": i, "choices": small,
                   "original_choices": choices, "failure": smsg or msg, "original_failure": msg,
                   "case": describe(mod, case), "shrink_tries": tries,
                   "rerun": "./check %s --replay %s" % (mod.ID, path)}, open(path, "w"), indent=1)
        print("case (shrunk): %s" % describe(mod, case))
        print("failure: %s" % (smsg or msg))
        lines.append("VIOLATION property=%s replay=%s" % (mod.ID, path))
        rc = 1
    elif extra_fail:
        rep = os.path.join(VERIF, "replays")
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, "%s-extra.json" % mod.ID)
        json.dump({"property": mod.ID, "seed": seed, "failure": extra_fail}, open(path, "w"), indent=1, default=repr)
        print("failure: %s" % (extra_fail,))
        lines.append("VIOLATION property=%s replay=%s" % (mod.ID, path))
        rc = 1
    cov = {"evaluations": n, "distinct_nontrivial": len(keys), "rule": mod.RULE,
           "samples": samples[:6], "outside_domain": skipped, "planned": total}
    if flaky:
        cov["unreproducible"] = [list(x) for x in flaky[:5]]
        sys.stderr.write("unreproducible: %s\n" % (flaky[:3],))
    if stats:
        cov["counters"] = stats
    cov.update(extra_cov)
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if rc else 0}
    if not os.environ.get("VERIF_NOEVIDENCE"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w"), indent=1, default=repr)
    for l in known_lines(mod.ID):
        if rc == 0:
            print(l)
    print("%s tier=%s seed=%d cases=%d nontrivial=%d skipped=%d wall=%.1fs %s" % (
        mod.ID, tier, seed, n, len(keys), skipped, time.time() - t0, stats or ""))
    for l in lines:
        print(l)
    return rc


def known_lines(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(l)
    except OSError:
        pass
    return out

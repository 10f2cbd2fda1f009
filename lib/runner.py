"""Runs driver shards, folds their event logs into a verdict and evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
import threading
from concurrent.futures import ThreadPoolExecutor
from . import build as B

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Harness(Exception):
    """Something in the machinery (not the code under test) went wrong."""


def load_known():
    known = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r"property=(\S+) key=(\S+) (.*)", line)
            if m:
                known.append(m.groups())
    return known


def san_env(flavor, extra=None):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=77:detect_leaks=0:"
                           "detect_stack_use_after_return=1:"
                           "allocator_may_return_null=0:"
                           "max_allocation_size_mb=4096:"
                           "handle_abort=1:symbolize=1:"
                           "quarantine_size_mb=32")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:second_deadlock_stack=1"
    # chunks parked in the thread cache would count as live memory
    env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["OMP_NUM_THREADS"] = "1"
    env["LC_ALL"] = "C"
    if extra:
        env.update(extra)
    return env


def crash_key(rc, err):
    """A short, stable name for an abnormal end."""
    kind = None
    vg = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|"
                   r"Invalid write|Invalid free|Syscall param|Mismatched free|"
                   r"Source and dest|Process terminating)[^\n]*\n((?:==\d+== .*\n)*)",
                   err)
    if vg:
        fr = [f for f in re.findall(r"(?:at|by) 0x[0-9A-F]+: ([^(\n]+)", vg.group(2))]
        fr = [f.strip() for f in fr if not re.match(r"(operator|malloc|free|mem|str|std::)", f)]
        return "valgrind:%s:%s" % (vg.group(1).replace(" ", "-"),
                                   re.sub(r"[^\w:~]+", "_", fr[0])[:60] if fr else "?")
    m = re.search(r"(ERROR|WARNING): (\w+Sanitizer):? ([\w-]+(?: [\w-]+)?)", err)
    if m:
        kind = m.group(3).replace(" ", "-")
        if "on-unknown" in kind or kind.startswith("SEGV"):
            kind = "SEGV"
    m2 = re.search(r"([\w./-]+):(\d+):\d+: runtime error: ([a-z -]+)", err)
    if m2:
        kind = "ub-" + m2.group(3).strip().replace(" ", "-")[:40]
    m3 = re.search(r"([\w.]+): (.*): Assertion `(.*)' failed", err)
    if m3:
        kind = "assert"
    if kind is None:
        if "terminate called" in err:
            kind = "exception"
        elif rc < 0:
            try:
                kind = signal.Signals(-rc).name
            except ValueError:
                kind = "signal%d" % -rc
        else:
            kind = "exit%d" % rc
    frame = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)", err):
        if "/src/" in m.group(2) and "/verif/" not in m.group(2):
            frame = re.sub(r"[^\w:~]+", "_", m.group(1).split("(")[0])[:60]
            break
    if m3 and frame == "?":
        fn = re.search(r"([\w~]+)\s*\(", m3.group(2).split(": ", 1)[-1])
        frame = fn.group(1) if fn else "?"
    return "crash:%s:%s" % (kind, frame)


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.sigs = set()
        self.nontrivial_total = 0
        self.counters = {}
        self.samples = []
        self.violations = []     # (key, message, replay dict)
        self.problems = []       # harness failures
        self.notes = {}
        self.lock = threading.Lock()

    def violation(self, key, msg, replay=None):
        with self.lock:
            self.violations.append((key, msg, replay or {}))

    def count(self, k, n=1):
        with self.lock:
            if k.startswith("max_"):
                self.counters[k] = max(self.counters.get(k, 0), n)
            else:
                self.counters[k] = self.counters.get(k, 0) + n

    def case(self, sig, nontrivial=True):
        with self.lock:
            self.evaluations += 1
            if nontrivial:
                self.nontrivial_total += 1
                self.sigs.add(sig)

    def sample(self, s, limit=8):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)


def run_cmd(cmd, env, timeout, cwd=None, stdin=None):
    """rc None = timed out."""
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL if stdin is None else
                         subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env, cwd=cwd,
                         start_new_session=True)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o.decode(errors="replace"), e.decode(errors="replace")


def run_shards(res, exe, run, seed, tier, tmp):
    """run: {mode, flavor, quick, thorough, shards, timeout, env}"""
    total = run["thorough"] if tier == "thorough" else run["quick"]
    shards = min(run.get("shards", B.JOBS), max(1, total))
    timeout = run.get("timeout", 240 if tier == "quick" else 1800)
    env = san_env(run["flavor"], run.get("env"))
    for k, name in run.get("exe_env", {}).items():
        env[k] = run["exes"][name]

    def shard(i):
        start = i
        restarts = 0
        tdir = os.path.join(tmp, "%s-%s-%d" % (run["mode"], run["flavor"], i))
        os.makedirs(tdir, exist_ok=True)
        while start < total:
            out = os.path.join(tdir, "log%d" % restarts)
            args = [exe, "--mode", run["mode"], "--seed", str(seed),
                    "--from", str(start), "--to", str(total),
                    "--step", str(shards), "--tier", tier, "--out", out,
                    "--tmp", tdir, "--prop", res.prop, "--flavor", run["flavor"]]
            rc, so, se = run_cmd(run.get("wrap", []) + args, env, timeout,
                                 cwd=tdir)
            cur, done = fold(res, out, args, run, seed, tier)
            if rc == 98 or rc == 97:
                with res.lock:
                    res.problems.append("driver I/O failure: %s %s" %
                                        (args, se[-500:]))
                return
            tsan = "WARNING: ThreadSanitizer" in se
            if rc == 0 and done and not tsan:
                return
            rep = replay_of(args, cur, run, seed, tier)
            if tsan:
                for blk in se.split("WARNING: ThreadSanitizer")[1:]:
                    fr = re.findall(r"#\d+ (\S+).* (/\S*/src/\S+)", blk)
                    fr = [f for f in fr if "/verif/" not in f[1]]
                    key = "race:%s" % (re.sub(r"[^\w:~]+", "_", fr[0][0].split("(")[0])
                                       if fr else "?")
                    res.violation(key, "ThreadSanitizer" + blk[:1800], rep)
                if done or rc == 66:
                    return
            if cur is None and not tsan:
                if rc is not None and rc != 0 and ("Sanitizer" in se or rc < 0):
                    res.violation(crash_key(rc, se), "before any case / at exit: "
                                  + se[-1500:], rep)
                else:
                    with res.lock:
                        res.problems.append("driver gave no case: rc=%s %s" %
                                            (rc, se[-800:]))
                return
            if rc is None:
                # hang?  re-run that one case alone with the full allowance
                rc2, so2, se2 = run_cmd(rep["cmd"], env, timeout, cwd=tdir)
                if rc2 is None:
                    res.violation("hang:" + run["mode"], "case %s did not end in "
                                  "2x%d s (alone)" % (cur, timeout), rep)
                else:
                    with res.lock:
                        res.problems.append(
                            "shard of mode %s timed out at case %s, which ends "
                            "when run alone (rc=%s): inconclusive" %
                            (run["mode"], cur, rc2))
                return
            key = crash_key(rc, se + so[-2000:])
            res.violation(key, "case %s ended abnormally (rc=%s): %s" %
                          (cur, rc, se[-2500:]), rep)
            restarts += 1
            if restarts >= 3:
                return
            start = cur + shards
        return

    with ThreadPoolExecutor(shards) as ex:
        list(ex.map(shard, range(shards)))


def replay_of(args, cur, run, seed, tier):
    a = list(args)
    if cur is not None:
        a[a.index("--from") + 1] = str(cur)
        a[a.index("--to") + 1] = str(cur + 1)
    a[a.index("--out") + 1] = "/dev/stderr"
    return {"cmd": run.get("wrap", []) + a, "mode": run["mode"], "flavor": run["flavor"],
            "seed": seed, "tier": tier, "case": cur,
            "driver": run["driver"]}


def fold(res, out, args, run, seed, tier):
    cur, done = None, False
    if not os.path.exists(out):
        return None, False
    ended = set()
    for line in open(out, errors="replace"):
        line = line.rstrip("\n")
        t = line[:1]
        if t == "B":
            cur = int(line[2:])
        elif t == "E":
            p = line.split()
            ended.add(int(p[1]))
            res.case(run["mode"] + p[2], p[3] == "1")
        elif t == "V":
            _, c, key, msg = line.split(" ", 3)
            res.violation(key, msg, replay_of(args, int(c), run, seed, tier))
        elif t == "S":
            _, c, msg = line.split(" ", 2)
            res.sample({"mode": run["mode"], "flavor": run["flavor"],
                        "case": int(c), "what": msg})
        elif t == "C":
            _, k, v = line.split()
            res.count(k, int(v))
        elif t == "D":
            done = True
    return cur, done


def finish(res, spec, seed, tier, t0):
    known = load_known()
    for s in spec.get("require", []):
        # a run that observed nothing decides nothing
        name, minimum = s
        if res.counters.get(name, 0) < minimum and not res.violations:
            res.problems.append("monitor observed too little: %s=%d < %d" %
                                (name, res.counters.get(name, 0), minimum))
    if res.nontrivial_total < spec.get("min_nontrivial", 2) and not res.violations:
        res.problems.append("only %d non-trivial cases" % res.nontrivial_total)
    fresh, hit = {}, {}
    for key, msg, rep in res.violations:
        k = [x for x in known if x[0] == res.prop and x[1] == key]
        if k:
            hit.setdefault(key, k[0][2])
        else:
            fresh.setdefault(key, []).append((msg, rep))
    ev = {
        "property": res.prop, "tier": tier, "seed": seed,
        "level": spec["level"],
        "coverage": {
            "evaluations": res.evaluations,
            "distinct_nontrivial": len(res.sigs),
            "rule": spec["rule"],
            "samples": res.samples or [{"note": "none"}],
            "observed": dict(sorted(res.counters.items())),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(len(v) for v in fresh.values()),
    }
    if res.notes:
        ev["coverage"]["notes"] = res.notes
    if res.problems:
        ev["coverage"]["problems"] = res.problems[:10]
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", res.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for key, what in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (res.prop, what, key))
    n = 0
    for key, lst in sorted(fresh.items()):
        msg, rep = lst[0]
        path = os.path.join(VERIF, "evidence", "replay",
                            "%s-%d.json" % (res.prop, n))
        n += 1
        with open(path, "w") as f:
            json.dump({"property": res.prop, "key": key, "message": msg,
                       "occurrences": len(lst), "replay": rep}, f, indent=1)
        print("[%s] %s (%d times): %s" % (res.prop, key, len(lst), msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (res.prop, path))
    for p in res.problems[:5]:
        print("INCONCLUSIVE: " + p)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation "
          "kinds, %.1f s" % (res.prop, tier, seed, res.evaluations,
                             len(res.sigs), len(fresh), time.time() - t0))
    sys.stdout.flush()
    if fresh:
        return 1
    if res.problems:
        return 2
    return 0


def main(prop, spec):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    res = Result(prop)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        specs, names = [], {}
        for r in spec.get("runs", []):
            nm = r["driver"] + "-" + r["flavor"] + r.get("suffix", "")
            if nm in names:
                continue
            names[nm] = 1
            s = {"name": nm, "flavor": r["flavor"],
                 "sources": [r["driver"] + ".cc"] + r.get("more", [])}
            for k in ("full_gemm", "libs", "defs"):
                if k in r:
                    s[k] = r[k]
            specs.append(s)
        for s in spec.get("builds", []):
            specs.append(s)
        try:
            exes = B.build(specs)
        except B.BuildError as e:
            print("BUILD FAILED: %s" % e)
            return 2
        res.notes["build_s"] = round(time.time() - t0, 1)
        for r in spec.get("runs", []):
            r = dict(r, exes=exes)
            run_shards(res, exes[r["driver"] + "-" + r["flavor"] +
                                 r.get("suffix", "")], r, seed, tier, tmp)
        if "func" in spec:
            spec["func"](res, exes, seed, tier, tmp)
        return finish(res, spec, seed, tier, t0)
    except Harness as e:
        print("HARNESS: %s" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    rep = d["replay"]
    print("key:", d["key"], "\n", d["message"])
    if "cmd" not in rep:
        print(json.dumps(rep, indent=1))
        return 0
    spec_run = {"driver": rep["driver"], "flavor": rep["flavor"]}
    from . import specs as S
    full = [r for r in S.PROPS[d["property"]]["runs"]
            if r["driver"] == rep["driver"] and r["flavor"] == rep["flavor"]][0]
    s = {"name": rep["driver"] + "-" + rep["flavor"] + full.get("suffix", ""),
         "flavor": rep["flavor"],
         "sources": [rep["driver"] + ".cc"] + full.get("more", [])}
    for k in ("full_gemm", "libs", "defs"):
        if k in full:
            s[k] = full[k]
    exes = B.build([s] + S.PROPS[d["property"]].get("builds", []))
    exe = exes[s["name"]]
    env = san_env(rep["flavor"], full.get("env"))
    for k, name in full.get("exe_env", {}).items():
        env[k] = exes[name]
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        cmd = list(rep["cmd"])
        cmd[len(full.get("wrap", []))] = exe
        cmd[cmd.index("--tmp") + 1] = tmp
        rc, so, se = run_cmd(cmd, env, 900, cwd=tmp)
        print(so[-4000:])
        print(se[-int(os.environ.get("VERIF_TAIL", "8000")):])
        print("rc:", rc)
        return 0 if rc == 0 and "\nV " not in "\n" + se else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

#!/usr/bin/env python3
"""check.py <property>   decide one property of /repo (quick or thorough tier).

Stages of a property (table PROPS in tools/props.py):
  mc     model-check a design model exhaustively with TLC
  gen    let TLC enumerate behaviours of a model, replay each of them into the
         real code and compare with the outcome the model prescribes
  trace  run the drivers of a suite on the real code, record every event, and
         let TLC decide whether the trace is a behaviour of the specification
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself could not run.
"""
import collections, concurrent.futures as cf, fcntl, hashlib, json, os, re, resource
import shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "harness", "target")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
DEADLINE = time.time() + (820 if TIER == "quick" else 6 * 3600)


class Broken(Exception):
    """the check could not be carried out"""


class Violation(Exception):
    def __init__(self, stage, what, detail):
        self.stage, self.what, self.detail = stage, what, detail


# --------------------------------------------------------------------- build
def cargo_env():
    env = dict(os.environ)
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                       capture_output=True, cwd=ROOT)
    for kv in p.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode().split("=", 1)
            if k not in ("PWD", "OLDPWD", "SHLVL", "_"):
                env[k] = v
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    env["CARGO_INCREMENTAL"] = "0"
    return env


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith((".rs", ".toml")) and os.path.isfile(p):
                h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()


def build():
    """(Re)build the harness from /repo's working tree."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env, stamp, h = cargo_env(), os.path.join(TARGET, ".tree"), tree_hash()
        base = ["--offline", "--target-dir", TARGET]
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old and old != h:    # never trust time stamps alone
            subprocess.run(["cargo", "clean", "-p", "reCTBN"] + base, env=env,
                           cwd=os.path.join(ROOT, "harness"), capture_output=True)
        p = subprocess.run(["cargo", "build"] + base, env=env, text=True,
                           cwd=os.path.join(ROOT, "harness"), capture_output=True)
        if p.returncode != 0:
            raise Broken("the harness does not build:\n" + p.stderr[-4000:])
        open(stamp, "w").write(h)


def harness(args, timeout=None, env=None):
    """Run the harness; the code under test hanging, crashing or exhausting
    memory is a violation, not an error of the check."""
    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run([os.path.join(TARGET, "debug", "harness")] + args, text=True,
                           capture_output=True, preexec_fn=limits,
                           timeout=timeout or max(30, DEADLINE - time.time()),
                           env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        raise Broken("harness %s timed out" % args[:2])
    if p.returncode == 97:
        raise Violation("harness", "an operation did not terminate", p.stderr[-2000:])
    if p.returncode < 0:
        raise Violation("harness", "the process was killed by signal %d" % -p.returncode,
                        p.stderr[-2000:])
    if p.returncode != 0:
        raise Violation("harness", "the library refused valid use by the driver (exit %d)"
                        % p.returncode, p.stdout[-1000:] + p.stderr[-2000:])
    return p.stdout


# ----------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, rc, out, secs):
        self.rc, self.out, self.secs = rc, out, secs
        m = re.findall(r"(\d+) states generated, (\d+) distinct states", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r'<<"REACHED", (\d+), (\d+)>>', out)
        self.reached = int(m.group(1)) if m else None
        if self.reached is None:
            ls = re.findall(r"^/\\ l = (\d+)$|^l = (\d+)$", out, re.M)
            self.reached = max([int(a or b) for a, b in ls], default=1) - 1

    def msg(self):
        i = self.out.find("Error:")
        return self.out[i:i + 3000] if i >= 0 else self.out[-3000:]


def tlc(module, cfg, meta, workers=1, heap="3g", env=None, extra=(), timeout=None):
    os.makedirs(meta, exist_ok=True)
    t = time.time()
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
           "-XX:ParallelGCThreads=%d" % max(2, min(4, workers)),
           "-cp", TLA, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", meta, "-config", os.path.join(SPEC, cfg)] + list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, text=True, capture_output=True,
                           env=dict(os.environ, **(env or {})),
                           timeout=timeout or max(30, DEADLINE - time.time()))
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on %s %s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(p.returncode, p.stdout + p.stderr, time.time() - t)


# -------------------------------------------------------------------- stages
class Run:
    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.out = os.path.join(ROOT, "out", prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes = [], collections.OrderedDict()
        self.known = collections.Counter()

    def path(self, n):
        return os.path.join(self.out, n)

    # -- exhaustive model checking of a design model
    def mc(self, module, cfg, workers=6, heap="8g", min_states=2, env=None):
        r = tlc(module, cfg, self.path("md"), workers, heap, env=env)
        if r.rc != 0 or "No error has been found" not in r.out:
            raise Broken("model %s %s: %s" % (module, cfg, r.msg()))
        if r.distinct < min_states:
            raise Broken("model %s %s is vacuous" % (module, cfg))
        self.states += r.distinct
        self.transitions += r.generated
        self.notes["mc %s %s" % (module, cfg)] = {
            "distinct_states": r.distinct, "transitions": r.generated, "s": round(r.secs, 1)}
        return r

    # -- behaviours generated by TLC, replayed into the code
    def generate(self, module, cfg, workers=4, heap="8g", env=None, extra=(), simulate=False):
        r = tlc(module, cfg, self.path("md"), workers, heap, env=env, extra=extra)
        if r.rc != 0:
            raise Broken("generator %s %s: %s" % (module, cfg, r.msg()))
        tests = []
        for line in r.out.splitlines():
            if line.startswith('"@@'):
                tests.append(json.loads(json.loads(line)[2:]))
        if not tests:
            raise Broken("generator %s %s produced nothing" % (module, cfg))
        self.states += r.distinct
        self.transitions += r.generated
        self.notes["gen %s %s" % (module, cfg)] = {
            "distinct_states": r.distinct, "transitions": r.generated,
            "tests": len(tests), "s": round(r.secs, 1)}
        return tests

    def gen(self, module, cfg, suite, compare, workers=4, env=None, extra=(), limit=None):
        tests = self.generate(module, cfg, workers, env=env, extra=extra)
        if limit and len(tests) > limit:
            step = len(tests) / float(limit)
            tests = [tests[int(i * step)] for i in range(limit)]
        inp, outp = self.path("tests_%s.json" % cfg), self.path("replayed_%s.ndjson" % cfg)
        with open(inp, "w") as f:
            for t in tests:
                f.write(json.dumps(t) + "\n")
        harness(["replay", suite, inp, outp])
        got = [json.loads(x) for x in open(outp)]
        if len(got) != len(tests):
            raise Broken("replay lost tests: %d of %d" % (len(got), len(tests)))
        for t, o in zip(tests, got):
            why = "the code panicked: %s" % o["panic"] if "panic" in o else compare(t, o)
            if why:
                raise Violation("gen %s %s" % (module, cfg), why,
                                json.dumps({"test": t, "observed": o}))
        self.traces += len(tests)
        self.samples.append({"generated_behaviour": tests[len(tests) // 2],
                             "replayed": got[len(tests) // 2]})
        os.remove(inp), os.remove(outp)

    # -- behaviours generated by TLC, run in the code, every step validated by TLC
    def gen_trace(self, module, cfg, suite, tmodule, tcfg, starts, limit=None, workers=4, env=None,
                  need=None, known=(), shards=8, filt=None):
        tests = self.generate(module, cfg, workers, env=env)
        if limit and len(tests) > limit:
            step = len(tests) / float(limit)
            tests = [tests[int((i + (SEED % 97) / 97.0) * step)] for i in range(limit)]
        inp, outp = self.path("tests_%s.json" % cfg), self.path("gen_%s.ndjson" % cfg)
        with open(inp, "w") as f:
            for t in tests:
                f.write(json.dumps(t) + "\n")
        out = harness(["replay", suite, inp, outp])
        counts = json.loads(re.search(r"^COUNTS (.*)$", out, re.M).group(1))
        os.remove(inp)
        self.trace(suite, tmodule, tcfg, starts, need, shards, known, file=outp, counts=counts, filt=filt,
                   name="generated by " + cfg)

    # -- recorded traces, validated by TLC
    def record(self, suite, name=None, args=(), env=None):
        p = self.path((name or suite) + ".ndjson")
        out = harness(["record", suite, str(SEED), TIER, p] + list(args), env=env)
        m = re.search(r"^COUNTS (.*)$", out, re.M)
        return p, json.loads(m.group(1))

    def trace(self, suite, module, cfg, starts=None, need=None, shards=6, known=(), env=None,
              name=None, args=(), file=None, counts=None, heap="3g", filt=None):
        if file is None:
            file, counts = self.record(suite, name, args, env)
        for k, n in (need or {}).items():
            if counts.get(k, 0) < n:
                raise Violation("trace " + module, "only %d %r events were observed (expected at least %d)"
                                % (counts.get(k, 0), k, n), json.dumps(counts))
        # split into episodes
        eps, cur = [], None
        for line in open(file):
            ev = None
            if starts is None:
                first = True
            else:
                m = re.search(r'"e":"([^"]*)"', line)
                kind = json.loads(line)["e"] if m is None else None
                ev = json.loads(line)
                first = ev["e"] in starts
            if known or filt:
                ev = ev or json.loads(line)
                hit = next((k for k in known if k.match(ev)), None)
                if hit:
                    self.known[hit.line] += 1
                    continue
                if filt and not filt(ev):
                    continue
            if first or cur is None:
                cur = []
                eps.append(cur)
            cur.append(line)
        if not eps:
            raise Broken("empty trace for " + module)
        sizes = [sum(len(x) for x in e) for e in eps]
        n = max(1, min(shards, len(eps), sum(sizes) // 60000 + 1))
        bins, load = [[] for _ in range(n)], [0] * n
        for i in sorted(range(len(eps)), key=lambda i: -sizes[i]):
            b = load.index(min(load))
            bins[b].append(i)
            load[b] += sizes[i] + 400 * len(eps[i])
        jobs = []
        for b, idx in enumerate(bins):
            p = self.path("%s_%s_%d.ndjson" % (module, cfg, b))
            lines = [x for i in sorted(idx) for x in eps[i]]
            with open(p, "w") as f:
                f.writelines(lines)
            jobs.append((b, p, lines))

        def one(j):
            b, p, lines = j
            e = dict(env or {}, TRACE=p)
            return j, tlc(module, cfg, self.path("md_%s_%d" % (cfg, b)), 1, heap, env=e)
        total = 0
        with cf.ThreadPoolExecutor(8) as ex:
            for (b, p, lines), r in ex.map(one, jobs):
                self.states += r.distinct
                self.transitions += r.generated
                if r.rc == 0 and r.reached == len(lines):
                    total += len(lines)
                    os.remove(p)
                    continue
                if r.rc not in (0, 10, 11, 12, 13, 75, 76, 77) or "OutOfMemory" in r.out \
                        or "StackOverflow" in r.out:
                    raise Broken("TLC failed (%d) on %s: %s" % (r.rc, p, r.msg()))
                k = min(r.reached, len(lines) - 1)
                lo = k
                while lo > 0 and starts is not None and json.loads(lines[lo])["e"] not in starts:
                    lo -= 1
                raise Violation(
                    "trace %s %s" % (module, cfg),
                    "the specification does not allow event %d of the recorded trace" % k,
                    json.dumps({"rejected": json.loads(lines[k]),
                                "episode": [json.loads(x) for x in lines[lo:k][-200:]],
                                "tlc": r.msg()}))
        self.traces += len(eps)
        key = "trace %s %s%s" % (module, cfg, " " + name if name else "")
        self.notes[key] = {"events": total, "episodes": len(eps), "kinds": counts}
        s = [x for x in eps if len(x) < 400] or eps
        mid = s[len(s) // 2][:3]
        self.samples.append({"trace_excerpt": [x[:1500].strip() for x in mid]})
        if file and os.path.exists(file):
            os.remove(file)


def evidence(run, nviol, spec):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": run.prop, "tier": TIER, "seed": SEED, "level": "model_checking",
          "coverage": {"states": run.states, "transitions": run.transitions,
                       "traces_validated_against_impl": run.traces,
                       "samples": run.samples[:6], "stages": run.notes},
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - run.t0, 2), "violations": nviol}
    with open(os.path.join(ROOT, "evidence", run.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    if sys.argv[1] == "--build":
        build()
        return 0
    import props
    prop = sys.argv[1]
    spec = props.PROPS[prop]
    run = Run(prop)
    try:
        build()
        spec["run"](run, TIER == "thorough")
    except Violation as v:
        rp = run.path("violation.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "stage": v.stage, "what": v.what, "seed": SEED, "tier": TIER,
                       "detail": v.detail, "rerun": "VERIF_SEED=%d VERIF_TIER=%s ./check.py %s"
                       % (SEED, TIER, prop)}, f, indent=1)
        print("%s: %s: %s" % (prop, v.stage, v.what))
        print(v.detail[:2500])
        for k, n in run.known.items():
            print(k)
        evidence(run, 1, spec)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    except Broken as b:
        print("ERROR in check %s: %s" % (prop, b))
        return 2
    for k, n in run.known.items():
        print("%s [%d times in this run]" % (k, n))
    evidence(run, 0, spec)
    print("%s held: %d states, %d transitions, %d traces validated, %.1fs"
          % (prop, run.states, run.transitions, run.traces, time.time() - run.t0))
    shutil.rmtree(run.out, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""How tightly the specification holds the implementation: recorded events are
corrupted one value at a time and must be rejected.  Prints, per kind of event
and field, how many of the corruptions were rejected; DESIGN.md section 7 says
why the fields at less than 100 % are free.  Not a registered check.

selftest.py [property ...] [-n corruptions per field] [-j jobs]"""
import collections, concurrent.futures as cf, copy, json, os, random, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE), HERE]
import check, props
args = sys.argv[1:]
def opt(o, d):
    return int(args[args.index(o) + 1]) if o in args else d
N, J = opt("-n", 4), opt("-j", 6)
ids = [a for a in args if a in props.PROPS] or sorted(props.PROPS)
rng = random.Random(1)


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        if not v:
            yield path
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    else:
        yield path


def corrupt(ev, field):
    """one value below ev[field] changed"""
    ev = copy.deepcopy(ev)
    ps = list(leaves(ev[field], (field,)))
    p = rng.choice(ps)
    o = ev
    for k in p[:-1]:
        o = o[k]
    x = o[p[-1]]
    if isinstance(x, bool):
        o[p[-1]] = not x
    elif isinstance(x, int):
        o[p[-1]] = x + rng.choice([1, -1, 2] if abs(x) < 10 else [1, -1, x // 3 + 1, -(x // 3)])
    elif isinstance(x, str):
        o[p[-1]] = x + "'"
    elif isinstance(x, list):
        o[p[-1]] = [0]
    else:
        return None
    return ev


class Probe(check.Run):
    def mc(self, *a, **k): pass
    def gen(self, *a, **k): pass
    def gen_trace(self, *a, **k): pass

    def trace(self, suite, module, cfg, starts=None, need=None, shards=6, known=(), env=None, name=None,
              args=(), file=None, counts=None, heap="3g", filt=None):
        file, counts = self.record(suite, name, args, env)
        evs, ep, first = collections.defaultdict(list), [], True
        for line in open(file):
            ev = json.loads(line)
            if any(k.match(ev) for k in known) or (filt and not filt(ev)):
                continue
            if starts is None or ev["e"] in starts:
                ep = []
            if len(line) < 60000 and len(ep) < 300:
                evs[ev["e"]].append((list(ep), ev))
            ep.append(ev)
        os.remove(file)
        jobs = []
        for kind, l in sorted(evs.items()):
            for f in sorted({f for _, e in l[:200] for f in e} - {"e"}):
                have = [x for x in l if f in x[1]]
                for k in range(N):
                    ep, ev = rng.choice(have)
                    c = corrupt(ev, f)
                    if c and c != ev:
                        jobs.append((kind, f, ep + [c]))

        def one(j):
            i, (kind, f, lines) = j
            p = self.path("probe%d.ndjson" % i)
            with open(p, "w") as h:
                h.writelines(json.dumps(x) + "\n" for x in lines)
            r = check.tlc(module, cfg, self.path("md%d" % i), 1, "1g", env={"TRACE": p})
            os.remove(p)
            ok = r.rc == 0 and r.reached == len(lines)
            return kind, f, not ok, lines[-1]
        tab, shown = collections.defaultdict(lambda: [0, 0]), {}
        with cf.ThreadPoolExecutor(J) as ex:
            for kind, f, rejected, ev in ex.map(one, enumerate(jobs)):
                tab[kind, f][0] += rejected
                tab[kind, f][1] += 1
                if not rejected:
                    shown[kind, f] = ev
        for (kind, f), (a, b) in sorted(tab.items()):
            print("%s %-10s %-9s %d/%d%s" % (self.prop, kind, f, a, b,
                  "" if a == b else "   e.g. " + json.dumps(shown[kind, f])[:300]), flush=True)


check.build()
check.DEADLINE = check.time.time() + 36000
for p in ids:
    props.PROPS[p]["run"](Probe("selftest_" + p), False)

"""What each property's check consists of."""
from findings import known

PROPS = {}


def prop(pid, assumptions=()):
    def deco(f):
        PROPS[pid] = {"run": f, "assumptions": list(assumptions)}
        return f
    return deco


# ------------------------------------------------------------------ networks
def cmp_net(struct, params):
    def compare(t, o):
        x = t["expect"]
        if struct:
            edges = sorted(x["edges"])
            if o["cards"] != x["cards"]:
                return "cardinalities %s, expected %s" % (o["cards"], x["cards"])
            if x["init"] and (o["pedges"] != edges or o["cedges"] != edges):
                return "parents %s, children %s, expected edges %s" % (o["pedges"], o["cedges"], edges)
        if params:
            if not o["rets"]:
                return "a valid matrix was refused, or an invalid one accepted"
            for k in ("cim", "tr", "rt"):
                if o[k] != x[k]:
                    return "%s held: %s, expected %s" % (k, o[k], x[k])
    return compare


NET_STARTS = {"new", "netis"}
INDEX = lambda e: e["e"] in ("netis", "index", "bigindex", "cover")
NOT_INDEX = lambda e: not INDEX(e)


@prop("C01")
def c01(r, deep):
    c = cmp_net(True, False)
    r.gen("NetGen", "NetGen_3self.cfg", "net", c)
    r.gen("NetGen", "NetGen_4.cfg", "net", c)
    if deep:
        r.gen("NetGen", "NetGen_4cim.cfg", "net", c)
    r.trace("net", "NetTrace", "NetTrace_C01.cfg", NET_STARTS, filt=NOT_INDEX,
            need={"addnode": 200, "addedge": 800, "init": 6, "setcim": 300, "replace": 40, "many": 3})


@prop("C02")
def c02(r, deep):
    c = cmp_net(False, True)
    r.gen("NetGen", "NetGen_2full.cfg", "net", c)
    r.gen("NetGen", "NetGen_3cim.cfg", "net", c)
    if deep:
        r.gen("NetGen", "NetGen_4cim.cfg", "net", c)
        r.gen("NetGen", "NetGen_3full.cfg", "net", c)
    r.trace("net", "NetTrace", "NetTrace_C02.cfg", NET_STARTS, filt=NOT_INDEX,
            need={"addnode": 200, "addedge": 800, "init": 6, "setcim": 300, "replace": 40, "genparams": 15,
                  "rejectcim": 100, "settr": 100, "setrt": 100, "resetparams": 50, "manyp": 20})


@prop("C03")
def c03(r, deep):
    r.mc("IndexMC", "IndexMC_deep.cfg" if deep else "IndexMC.cfg", min_states=200)
    r.trace("net", "NetTrace", "NetTrace_C03.cfg", NET_STARTS, filt=INDEX,
            need={"index": 500, "cover": 100, "bigindex": 150})


# ---------------------------------------------------------------------- ctmp
@prop("C22")
def c22(r, deep):
    r.gen_trace("CtmpGen", "CtmpGen_deep.cfg" if deep else "CtmpGen.cfg", "ctmp",
                "CtmpTrace", "CtmpTrace.cfg", {"new"}, need={"refuse": 1000, "add": 1000})
    r.trace("ctmp", "CtmpTrace", "CtmpTrace.cfg", {"new"},
            need={"refuse": 300, "add": 200, "setcim": 100})


# ---------------------------------------------------------------------- cims
def cmp_cim(t, o):
    if o["pre"] != "ok":
        return "a valid array was refused"
    want = {"valid": [("ok", 1, "ok", "ok")], "invalid": [("invalid", 0, "notinit", "invalid")],
            "either": [("ok", 1, "ok", "ok"), ("invalid", 0, "notinit", "invalid")]}[t["verdict"]]
    if o["tok3"] != 1:
        return "the unchecked setter did not store the array"
    for w in want:
        if (o["out"], o["tok"], o["val"], o["val3"]) == w and (o["out2"], o["tok2"], o["val2"]) == w[:3]:
            return None
    return "array should be %s" % t["verdict"]


@prop("C04")
def c04(r, deep):
    for c in ["q2", "q22", "q3", "q4"] + (["d4"] if deep else []):
        r.gen("CimGen", "CimGen_%s.cfg" % c, "cim", cmp_cim)
    r.trace("cim", "CimTrace", "CimTrace.cfg", {"new"}, need={"set": 1000, "unchecked": 500, "reset": 100})


@prop("C05")
def c05(r, deep):
    for c in ("AmalgMC", "AmalgMC_23", "AmalgMC_222"):
        r.mc("AmalgMC", c + ".cfg")
    r.trace("amalg", "AmalgTrace", "AmalgTrace.cfg", None, need={"amalg": 100, "reals": 50}, shards=8)


# ------------------------------------------------------------------ sampling
def sampler_suite(r, deep, pid, kinds, need):
    for c in ("SamplerMC_3", "SamplerMC") if deep else ("SamplerMC_3",):
        r.mc("SamplerMC", c + ".cfg")
    r.trace("sampler", "SamplerTrace", "SamplerTrace_%s.cfg" % pid, {"net"}, need=need, shards=8,
            known=known(pid), filt=lambda e: e["e"] in kinds or e["e"] in ("net", "new", "reset", "panic"))


@prop("C06")
def c06(r, deep):
    sampler_suite(r, deep, "C06", ("s", "data", "poisson", "long", "huge", "cut"), {"cut": 8, "s": 5000, "data": 50, "reset": 300, "poisson": 4, "long": 3, "huge": 1})


@prop("C07")
def c07(r, deep):
    sampler_suite(r, deep, "C07", ("s", "data", "stat", "draw", "ctmp", "rare"),
                  {"s": 5000, "data": 50, "stat": 200, "draw": 300, "ctmp": 40, "rare": 2})


@prop("C08")
def c08(r, deep):
    sampler_suite(r, deep, "C08", ("s", "stat", "draw", "init", "poisson", "rare", "late"),
                  {"late": 8, "s": 5000, "stat": 200, "draw": 300, "init": 8, "rare": 2})


@prop("C09")
def c09(r, deep):
    for c in ("gen", "fun", "gen6", "fun6"):
        r.gen_trace("StreamsMC", "StreamsMC_%s.cfg" % c, "streams", "StreamsTrace", "StreamsTrace.cfg", {"test"},
                    limit=(8000 if deep else 500), need={"use": 1000})
    r.trace("streams", "StreamsTrace", "StreamsTrace.cfg", None, need={"seeds": 6, "overlap": 15, "fresh": 12}, shards=8)


# ---------------------------------------------------------------- generators
def gen_mc(r, deep, filt, kind):
    for c in ("3", "deep") if deep else ("2", "3"):
        r.gen_trace("GenMC", "GenMC_%s.cfg" % c, "gener", "Generators", "Generators.cfg", {"net"},
                    filt=filt, need={kind: 150})


@prop("C10")
def c10(r, deep):
    gen_mc(r, deep, lambda e: e["e"] != "params", "graph")
    r.trace("gener", "Generators", "Generators.cfg", {"net"},
            filt=lambda e: e["e"] not in ("params", "spread"),
            need={"graph": 100, "pairs": 8, "joint": 3, "cooc": 3, "degrees": 4})


@prop("C11")
def c11(r, deep):
    gen_mc(r, deep, None, "params")
    r.trace("gener", "Generators", "Generators.cfg", {"net"},
            filt=lambda e: e["e"] not in ("pairs", "joint", "cooc", "degrees"), need={"params": 50, "spread": 50})


# ---------------------------------------------- statistics, estimators, scores
def stats_suite(r, deep, pid, kind, need):
    keep = lambda e: e["e"] in ("ds", kind, "panic")
    for c, lim in (("deep", None), ("22", None), ("23", None)) if deep else (("22", None), ("23", None)):
        r.gen_trace("StatsMC", "StatsMC_%s.cfg" % c, "stats", "StatsTrace", "StatsTrace_%s.cfg" % pid, {"ds"},
                    limit=lim, filt=keep)
    r.trace("stats", "StatsTrace", "StatsTrace_%s.cfg" % pid, {"ds"}, need=need, shards=8, filt=keep)


@prop("C12")
def c12(r, deep):
    stats_suite(r, deep, "C12", "ss", {"ds": 90, "ss": 250})


@prop("C13")
def c13(r, deep):
    stats_suite(r, deep, "C13", "fit", {"ds": 90, "fit": 300})


@prop("C14")
def c14(r, deep):
    r.mc("LnMC", "LnMC.cfg")
    stats_suite(r, deep, "C14", "score", {"ds": 90, "score": 200})


# -------------------------------------------------------------------- reward
def cmp_rf(t, o):
    if (o["inst"], o["trans"]) != (t["inst"], t["trans"]):
        return "reward %s, expected %s" % ((o["inst"], o["trans"]), (t["inst"], t["trans"]))


@prop("C19")
def c19(r, deep):
    for c in ("A", "B") + (("deep",) if deep else ()):
        r.gen("RewardGen", "RewardGen_%s.cfg" % c, "rf", cmp_rf)
    r.trace("rf", "RewardTrace", "RewardTrace.cfg", {"rinit"}, need={"rinit": 50, "seti": 300, "sett": 300, "call": 800})


@prop("C20")
def c20(r, deep):
    for c in ("0", "1") + (("deep",) if deep else ()):
        r.mc("AccrualMC", "AccrualMC_%s.cfg" % c, min_states=1000)
    r.trace("mc", "RewardTrace", "RewardTrace.cfg", None,
            need={"const": 50, "pot": 100, "lin": 25, "det": 40, "exp2": 16, "stop": 40, "bell": 4}, shards=8)


@prop("C21")
def c21(r, deep):
    r.trace("space", "RewardTrace", "RewardTrace.cfg", None, need={"space": 8, "rel": 40, "wide": 2})


# ------------------------------------------------------------------ learning
@prop("C15")
def c15(r, deep):
    for c in ("2", "3") + (("deep",) if deep else ()):
        r.gen_trace("HillClimbMC", "HillClimbMC_%s.cfg" % c, "hc", "LearnTrace", "LearnTrace.cfg", None,
                    limit=None if deep else 3000)
    r.trace("hc", "LearnTrace", "LearnTrace.cfg", None, need={"hc": 2500, "hcbig": 14}, shards=8)


@prop("C16")
def c16(r, deep):
    for c in ("2", "3"):
        r.gen_trace("CtpcMC", "CtpcMC_%s.cfg" % c, "ctpc", "LearnTrace", "LearnTrace.cfg", None,
                    limit=None if deep else 1000)
    r.trace("ctpc", "LearnTrace", "LearnTrace.cfg", None, need={"ctpc": 132}, shards=8)


@prop("C17")
def c17(r, deep):
    r.mc("PairingMC", "PairingMC.cfg")
    r.trace("tests", "LearnTrace", "LearnTrace.cfg", None, known=known("C17"), shards=8,
            need={"chi": 1200, "f": 1200, "chicall": 500, "fcall": 500})


@prop("C18")
def c18(r, deep):
    r.gen_trace("CacheMC", "CacheMC_deep.cfg" if deep else "CacheMC.cfg", "cache", "LearnTrace", "LearnTrace.cfg",
                {"cache"}, need={"req": 1000})
    r.trace("cache", "LearnTrace", "LearnTrace.cfg", {"cache"}, need={"req": 2000, "test": 200, "direct": 200, "wide": 3000}, shards=8)


@prop("C24")
def c24(r, deep):
    r.mc("ParMC", "ParMC_5.cfg" if deep else "ParMC.cfg", min_states=1000)
    r.trace("par", "LearnTrace", "LearnTrace.cfg", None, need={"par": 38}, shards=8)


@prop("C23")
def c23(r, deep):
    r.gen_trace("GuardsMC", "GuardsMC.cfg", "guards", "GuardsTrace", "GuardsTrace.cfg", None, need={"guard": 700})

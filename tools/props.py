"""Per property: which harness, in which builds, how many cases."""
from vlib import Variant

PROPS = {}


def add(pid, quick, thorough=None):
    PROPS[pid] = dict(quick=quick, thorough=thorough or quick)


def std(pid, harness, cases, defines=(), thorough=20, max_ops=0, shards=8, flavours=("san", "rel"), **kw):
    """san (asserts + AddressSanitizer) and rel (NDEBUG) builds of a harness.
    cases: per shard, a number or {flavour: number}."""
    def n(f):
        return cases[f] if isinstance(cases, dict) else cases
    q, t = [], []
    for f in flavours:
        v = Variant(f, f, harness, defines=defines, **kw)
        q.append((v, dict(cases=n(f), max_ops=max_ops, shards=shards)))
        t.append((v, dict(cases=n(f) * thorough, max_ops=max_ops, shards=shards)))
    if flavours[0] != "sched":
        # operations of earlier cases which did something new, recombined
        v = Variant("guided", "guided", harness, defines=defines, **kw)
        q.append((v, dict(cases=cases["rel"] // 4, max_ops=max_ops, shards=shards)))
        t.append((v, dict(cases=cases["rel"] * thorough, max_ops=max_ops, shards=shards)))
    if "dbg" not in flavours and flavours[0] != "sched":
        v = Variant("dbg", "dbg", harness, defines=defines, **kw)
        t.append((v, dict(cases=n(flavours[0]) * thorough // 4, scale=2, shards=shards)))
    add(pid, q, t)


std("C01", "p_arena.cc", dict(san=1500, rel=3000))
std("C02", "p_quota.cc", dict(san=20000, rel=60000), lib=False, wrap=False)
std("C04", "p_quota.cc", dict(san=15000, rel=40000), defines=["LESSOR"], lib=False, wrap=False)

std("C03", "p_conc_quota.cc", dict(sched=300000, schedc=100000), flavours=("sched", "schedc"),
    lib=False, wrap=False, extra=["fibers.cc"], shim=["conc_shim.c"])
std("C05", "p_conc_lifo.cc", dict(sched=60000, schedc=30000), flavours=("sched", "schedc"),
    lib=False, wrap=False, extra=["fibers.cc"], shim=["conc_shim.c"])
std("C06", "p_conc_arena.cc", dict(sched=100000, schedc=40000), flavours=("sched", "schedc"),
    extra=["fibers.cc"], shim=["conc_shim.c"])
std("C07", "p_slab_cache.cc", dict(san=1500, rel=3000))
std("C08", "p_mempool.cc", dict(san=1500, rel=3000))
std("C09", "p_small.cc", dict(san=1500, rel=3000))
std("C10", "p_small.cc", dict(san=1200, rel=2500), defines=["STATS"])
std("C12", "p_region.cc", dict(san=2000, rel=4000))
std("C13", "p_region.cc", dict(san=2000, rel=4000), defines=["JOIN"])
std("C14", "p_lsregion.cc", dict(san=2000, rel=4000))
std("C15", "p_lsregion.cc", dict(san=2000, rel=4000), defines=["FLUSH"])
std("C16", "p_ibuf.cc", dict(san=1500, rel=3000))
std("C17", "p_obuf.cc", dict(san=5000, rel=10000))
std("C18", "p_matras.cc", dict(san=1500, rel=3000), defines=["PBT_CPU_LIMIT=90"])
std("C19", "p_matras.cc", dict(san=1500, rel=3000), defines=["VIEWS", "PBT_CPU_LIMIT=90"])
std("C20", "p_matras.cc", dict(san=1500, rel=3000), defines=["FAULTS", "PBT_CPU_LIMIT=90"])
std("C11", "p_class.cc", dict(san=15000, rel=30000), wrap=False)
PROPS["C11"]["quick"] += [(Variant("branchless", "rel", "p_class.cc", defines=["SMALL_CLASS_BRANCHLESS"], wrap=False),
                           dict(cases=20000, shards=8))]
PROPS["C11"]["thorough"] += [(Variant("branchless", "rel", "p_class.cc", defines=["SMALL_CLASS_BRANCHLESS"], wrap=False),
                              dict(cases=400000, shards=8))]
std("C25", "p_static.cc", dict(san=1500, rel=3000), wrap=False)
std("C26", "p_mix.cc", dict(san=3000, rel=6000))
std("C27", "p_mix.cc", dict(san=3000, rel=6000), defines=["DESTROY"])
std("C30", "p_util.cc", dict(san=3000, rel=10000))
for tier, n in (("quick", 2000), ("thorough", 40000)):
    # configured for a system without MADV_DONTDUMP
    PROPS["C30"][tier] += [(Variant("nomadvise", "rel", "p_util.cc", defines=["NOMADVISE"]), dict(cases=n, shards=8))]
    PROPS["C01"][tier] += [(Variant("nomadvise", "rel", "p_arena.cc", defines=["NOMADVISE"]), dict(cases=n // 2, shards=8))]


def rbvariants(pid, defines, cases, thorough=30):
    q, t = [], []
    # millions of nodes; first, as they take longest
    for name, fl, d in (("tall-compact", "rel", ["RB_COMPACT"]), ("tall", "dbg", [])):
        v = Variant(name, fl, "p_rbtall.cc", defines=defines + d + ["PBT_CPU_LIMIT=300", "PBT_NO_SHRINK"], lib=False, wrap=False)
        q.append((v, dict(cases=1, shards=1)))
        t.append((v, dict(cases=4, scale=2, shards=2)))
    for name, fl, d in (("plain-san", "san", []), ("compact-ext", "rel", ["RB_COMPACT", "EXT_KEY"]),
                        ("treearg-ext", "san", ["RB_CMP_TREE_ARG", "EXT_KEY"]),
                        ("compact-treearg", "rel", ["RB_COMPACT", "RB_CMP_TREE_ARG"])):
        v = Variant(name, fl, "p_rb.cc", defines=defines + d, lib=False, wrap=False)
        n = cases if fl == "san" else cases * 2
        q.append((v, dict(cases=n, shards=8)))
        t.append((v, dict(cases=n * thorough, shards=8)))
    add(pid, q, t)


rbvariants("C21", [], 5000)
rbvariants("C22", ["SEARCH"], 10000)
rbvariants("C23", ["AUG"], 5000)
std("C24", "p_rlist.cc", dict(san=10000, rel=30000), lib=False, wrap=False)


def asanvariants(pid, specs, thorough=20):
    q, t = [], []
    for name, harness, defines, cases in specs:
        v = Variant(name, "asan", harness, defines=defines)
        q.append((v, dict(cases=cases, shards=8)))
        t.append((v, dict(cases=cases * thorough, shards=8)))
    add(pid, q, t)


asanvariants("C28", [
    ("mempool", "p_mempool.cc", [], 500),
    ("small", "p_small.cc", [], 500),
    ("region", "p_region.cc", [], 500),
    ("region-join", "p_region.cc", ["JOIN"], 500),
    ("lsregion", "p_lsregion.cc", [], 500),
    ("lsregion-flush", "p_lsregion.cc", ["FLUSH"], 500),
    ("obuf", "p_obuf.cc", [], 500),
    ("ibuf", "p_ibuf.cc", [], 500),
])

asanvariants("C29", [
    ("poison", "p_poison.cc", [], 1000),
    ("obuf", "p_obuf.cc", ["POISON"], 500),
    ("ibuf", "p_ibuf.cc", ["POISON"], 500),
])

"""What is run for each property, in the quick and in the thorough tier."""
from engine import Graph, Trace, Conc, Model

PLAN = {}
G = "TLA+ spec; TLC's full transition graph replayed into the real code by product exploration"
T = "recorded runs of the real code validated against the spec by TLC"
NOTE = ("Every history over the stated small domain is executed on the real code and compared with the TLA+ "
        "specification (complete when the evidence says closed), larger histories are sampled with a seed and "
        "validated by TLC. Trusts TLC, the driver's translation of calls and the structural fingerprint that "
        "identifies equal implementation states.")
CNOTE29 = ("Schedules are sampled: seeded workloads under the race detector with four goroutines at a time. Every recorded "
           "answer is decided by TLC against the collection's TLA+ specification, in which queries change nothing.")
CNOTE30 = ("Histories are sampled: seeded fills and drains in sorted, reversed, alternating and random order with lookups in "
           "between. TLC decides every call, its result and its counted comparisons. The limits are above what the code needs, so that a differently written search passes.")
MAPINV = dict(invariants=("TypeOK", "EntriesSorted"), properties=("Frame",))

MSINV = dict(invariants=("TypeOK", "EntriesSorted"), properties=("FrameMS",))


def mapg(K, V, suts, **kw):
    return Graph("FiniteMapGraph", dict(K=K, V=V), "map", suts, **MAPINV, **kw)


def mapt(suts, n, k, load="map", **kw):
    return Trace("FiniteMapTrace", dict(K=k, V=9), "map", suts, load, n, k, **kw)


AVLS = ["avl/int", "imm/int", "avlnode/int", "immnode/int"]

PLAN["C01"] = dict(
    technique=G + "; " + T, note=NOTE,
    quick=[mapg(7, 1, AVLS), mapg(4, 2, ["avl/str,imm/bytes", "avlnode/bytes,immnode/str"]),
           mapt(["avl/*", "imm/*", "avlnode/*", "immnode/*"], 3000, 600, obs=300), mapt(["avl/int", "imm/int"], 6500, 1200, load="mapbig", obs=600)],
    thorough=[mapg(10, 1, AVLS, nodes=200000), mapg(5, 3, ["avl/*", "imm/*", "avlnode/*", "immnode/*"], nodes=100000),
              mapt(["avl/*", "imm/*", "avlnode/*", "immnode/*"], 20000, 3000, obs=1000, runs=4)])

PLAN["C08"] = dict(
    technique="TLA+ AVL shape predicate checked by TLC on every distinct tree the real code reaches in the product "
              "with the map spec; " + T, note=NOTE,
    quick=[mapg(8, 1, AVLS, shapes=True),
           mapt(["avl/*", "imm/*", "avlnode/*", "immnode/*"], 3000, 600, obs=100, shapes=True), mapt(["avl/int", "imm/int"], 6500, 1200, load="mapbig", obs=400, shapes=True)],
    thorough=[mapg(11, 1, AVLS, nodes=300000, shapes=True),
              mapt(["avl/*", "imm/*", "avlnode/*", "immnode/*"], 10000, 3000, obs=300, shapes=True, runs=4), mapt(["avl/int", "imm/int"], 26000, 5000, load="mapbig", obs=1500, shapes=True)])

HENC = ["int", "str", "i64", "same", "neg", "sign", "ext", "pow", "mix", "bytes"]
FENC = ["same", "pow", "pow6", "neg", "ext", "hi", "mix"]


def per(pats, encs):
    """one driver process per encoding"""
    return [",".join(p + "/" + e for p in pats) for e in encs]


HASHES = ["hash0", "hash1", "hash2", "hash3", "hash5", "hash8", "lin"]
FILLS = ["linfill382", "linfill383", "linfill396", "linfill766", "linfill768"]

PLAN["C02"] = dict(
    technique=G + "; " + T, note=NOTE,
    quick=[mapg(6, 1, per(HASHES, HENC), nodes=1500),
           mapg(3, 2, per(["hash1", "hash2", "hash3", "lin"], HENC), nodes=1500),
           mapg(5, 1, per(FILLS, FENC), nodes=150),
           mapt(per(["hash0", "hash3"], HENC), 1500, 300, obs=300), mapt(["hash1/int", "hash3/str,hash0/mix"], 7000, 2600, obs=3000),
           mapt(per(["lin"], ["int", "str", "i64", "neg", "sign", "pow", "mix", "bytes", "ext"]), 4000, 1500, obs=1000)],
    thorough=[mapg(8, 1, per(HASHES, HENC), nodes=15000),
              mapg(4, 2, per(HASHES, HENC), nodes=8000),
              mapg(6, 1, per(FILLS, FENC), nodes=2000),
              mapt(per(["hash0", "hash1", "hash3", "hash8"], HENC), 5000, 1500, obs=1000, runs=2), mapt(["hash1/int", "hash3/str,hash0/mix"], 25000, 9000, obs=9000, runs=2),
              mapt(per(["lin"], HENC), 25000, 8000, obs=5000, runs=2)])

BPM = ["bpmap2", "bpmap3", "bpmap4", "bpmap5", "bpmap7"]
PLAN["C03"] = dict(
    technique=G + "; " + T, note=NOTE,
    quick=[mapg(8, 1, per(BPM, ["int"])[0].split(","), nodes=12000),
           mapg(4, 2, per(BPM, ["str"]) + per(BPM, ["bytes"]), nodes=3000),
           mapt(per(BPM, ["int", "str", "bytes"]), 3000, 600, obs=500), mapt(per(["bpmap16", "bpmap64", "bpmap255"], ["int", "str"]), 4000, 1500, obs=1000)],
    thorough=[mapg(10, 1, per(BPM, ["int"])[0].split(","), nodes=150000),
              mapg(5, 2, per(BPM, ["str"]) + per(BPM, ["bytes"]), nodes=30000),
              mapt(per(BPM, ["int", "str", "bytes"]), 20000, 3000, obs=2000, runs=3), mapt(per(["bpmap16", "bpmap64", "bpmap255"], ["int", "str"]), 20000, 4000, obs=4000, runs=2)])

# ---- map iteration
EVERY = (per(["avl", "imm", "avlnode", "immnode"], ["int", "str"]) + per(["hash0", "hash1", "hash3", "lin"], ["int", "str", "same", "neg", "ext"])
         + per(["bpmap2", "bpmap3", "bpmap4"], ["int", "str"]))
PLAN["C06"] = dict(
    technique=G + " with Iterate, Keys, Values and Items observed after every transition; " + T, note=NOTE,
    quick=[mapg(5, 1, EVERY, nodes=2500), mapg(3, 2, EVERY, nodes=2500),
           mapg(4, 1, per(FILLS, ["same", "pow", "mix"]), nodes=100),
           Graph("MapSetGraph", dict(K=3, V=2, ExtLen=1), "mapset", ["sorted0/int,sorted3/bytes"], spec="SpecMS", nodes=3000, **MSINV),
           mapt(EVERY, 800, 300, obs=40), mapt(["hash0/str", "lin/int", "avl/int,imm/str", "bpmap4/int"], 6500, 2600, obs=3000)],
    thorough=[mapg(7, 1, EVERY, nodes=20000), mapg(4, 2, EVERY, nodes=20000),
              mapg(5, 1, per(FILLS, FENC), nodes=1500),
              Graph("MapSetGraph", dict(K=4, V=2, ExtLen=1), "mapset", ["sorted0/int", "sorted3/bytes"], spec="SpecMS", nodes=20000, **MSINV),
              mapt(EVERY, 4000, 1200, obs=80, runs=2), mapt(["hash0/str", "lin/int", "avl/int,imm/str", "bpmap4/int"], 20000, 8000, obs=8000)])

# ---- lists
SEQINV = dict(invariants=("TypeOK", "Mirror"), properties=("Frame",))
SORTINV = dict(invariants=("Sorted",), properties=("Frame",))


def listg(N, X, suts, bound=0, ext=2, codec=False, **kw):
    return Graph("ListSpecGraph", dict(N=N, X=X, Bound=bound, ExtLen=ext, Codec=codec, PosMax=N + 1), "list", suts, **SEQINV, **kw)


def listt(suts, n, k, bound=0, load="list", **kw):
    return Trace("ListSpecTrace", dict(N=100000, X=k, Bound=bound, ExtLen=0, Codec=True, PosMax=0), "list", suts, load, n, k, **kw)


def sortg(N, X, suts, dups, bound=0, ext=2, codec=False, **kw):
    return Graph("SortedSpecGraph", dict(N=N, X=X, Bound=bound, Dups=dups, ExtLen=ext, Codec=codec, PosMax=N + 1), "sorted", suts,
                 **SORTINV, **kw)


def sortt(suts, n, k, dups, bound=0, load="sorted", **kw):
    return Trace("SortedSpecTrace", dict(N=100000, X=k, Bound=bound, Dups=dups, ExtLen=0, Codec=True, PosMax=0), "sorted", suts, load,
                 n, k, **kw)


NEWS = ["new0", "new1", "new2", "new3", "new22", "new100"]
PRES = ["pre9", "pre19", "pre20", "pre39", "pre79", "pre98", "pre99", "pre199"]
PLAN["C11"] = dict(
    technique=G + "; " + T, note=NOTE,
    quick=[listg(3, 2, per(NEWS, ["int"])[0].split(",") + per(PRES, ["int"]) + ["new1/str,new2/bytes"], nodes=3000),
           listg(1, 1, ["fixed1/int"], bound=1, ext=3), listg(2, 2, ["fixed2/str"], bound=2, ext=3),
           listg(3, 2, ["fixed3/int"], bound=3), listg(4, 1, ["fixed4/bytes"], bound=4),
           listt(["new0/int,new1/str", "new2/nat,new100/int"], 2500, 3, obs=60),
           listt(["fixed20/int"], 1500, 3, bound=20, obs=60), listt(["fixed120/int"], 2500, 3, bound=120, obs=80)],
    thorough=[listg(4, 2, per(NEWS, ["int"])[0].split(",") + per(PRES, ["int"])[0].split(",") + ["new1/str,new2/bytes"], nodes=40000),
              listg(6, 1, per(NEWS + PRES, ["int"])[0].split(","), nodes=40000),
              listg(3, 3, ["new0/int", "new1/str", "new2/bytes"], nodes=40000),
              listg(2, 2, ["fixed2/str"], bound=2, ext=4), listg(4, 2, ["fixed4/int"], bound=4, ext=3),
              listg(5, 1, ["fixed5/int"], bound=5, ext=6), listg(3, 3, ["fixed3/bytes"], bound=3, ext=3),
              listt(["new0/int,new1/str", "new2/nat,new100/int"], 10000, 4, obs=150, runs=4),
              listt(["fixed20/int"], 6000, 3, bound=20, obs=60, runs=3),
              listt(["fixed120/int"], 10000, 3, bound=120, obs=150, runs=3)])

PLAN["C12"] = dict(
    technique=G + "; " + T, note=NOTE,
    quick=[sortg(4, 3, ["dups-new0/int,dups-new1/str", "dups-new2/bytes,dups-new10/nat"], True, nodes=5000),
           sortg(5, 4, ["uniq-new0/int,uniq-new1/str", "uniq-new2/bytes,uniq-new10/nat", "set1/int"], False, nodes=5000),
           sortg(3, 2, ["dups-fixed3/int,dups-fixed3/str"], True, bound=3, ext=3), sortg(2, 4, ["uniq-fixed2/int"], False, bound=2, ext=3),
           sortg(3, 4, ["uniq-fixed3/str"], False, bound=3),
           sortg(1, 2, ["dups-fixed1/int"], True, bound=1), sortg(1, 2, ["uniq-fixed1/int"], False, bound=1),
           sortt(["dups-new0/int,dups-new2/str"], 2500, 120, True, obs=80),
           sortt(["dups-new0/int"], 3000, 5, True, load="sortedruns", obs=400), sortt(["uniq-new0/int,uniq-new2/str"], 2500, 300, False, obs=80),
           sortt(["dups-fixed20/int"], 1000, 12, True, bound=20, obs=50), sortt(["uniq-fixed20/int"], 1000, 40, False, bound=20, obs=50)],
    thorough=[sortg(6, 3, ["dups-new0/int", "dups-new1/str", "dups-new2/bytes,dups-new10/nat"], True, ext=3, nodes=50000),
              sortg(7, 6, ["uniq-new0/int", "uniq-new1/str", "uniq-new2/bytes,uniq-new10/nat", "set1/int"], False, nodes=50000),
              sortg(4, 3, ["dups-fixed4/int", "dups-fixed4/str"], True, bound=4, ext=3),
              sortg(3, 5, ["uniq-fixed3/int", "uniq-fixed3/str"], False, bound=3, ext=3),
              sortg(5, 6, ["uniq-fixed5/int"], False, bound=5),
              sortg(5, 2, ["dups-fixed5/int"], True, bound=5, ext=3),
              sortt(["dups-new0/int,dups-new2/str", "dups-new50/nat"], 10000, 300, True, obs=200, runs=3),
              sortt(["dups-new0/int"], 10000, 5, True, load="sortedruns", obs=600, runs=2), sortt(["uniq-new0/int,uniq-new2/str", "set10/bytes"], 10000, 900, False, obs=200, runs=3),
              sortt(["dups-fixed20/int"], 5000, 12, True, bound=20, obs=50, runs=2),
              sortt(["uniq-fixed120/int"], 5000, 200, False, bound=120, obs=100, runs=2)])

# ---- sets
SETINV = dict(invariants=("TypeOK", "ListingOK"), properties=("Frame",))
SETS = ["sorted0", "sorted4", "map-avl", "map-imm", "map-hash", "map-hash0", "map-lin"]
MAPSETS = ["map-avl", "map-imm", "map-hash", "map-hash0", "map-lin"]


def setg(K, suts, ext=2, **kw):
    return Graph("FiniteSetGraph", dict(K=K, ExtLen=ext), "set", suts, **SETINV, **kw)


def sett(suts, n, k, **kw):
    return Trace("FiniteSetTrace", dict(K=k, ExtLen=0), "set", suts, "set", n, k, **kw)


def algg(K, suts, **kw):
    return Graph("SetAlgebraGraph", dict(K=K), "algebra", suts, invariants=("TypeOK",), properties=("Untouched",), **kw)


def algt(suts, n, k, **kw):
    return Trace("SetAlgebraTrace", dict(K=k), "algebra", suts, "algebra", n, k, **kw)


def malg(K, V, suts, **kw):
    return Graph("MapAlgebraGraph", dict(K=K, V=V), "mapalg", suts, invariants=("TypeOK",), properties=("Untouched",), **kw)


def malt(suts, n, k, **kw):
    return Trace("MapAlgebraTrace", dict(K=k, V=9), "mapalg", suts, "mapalg", n, k, **kw)


ALGN = SETS + ["mapset"]
ALGS = {e: [",".join("%s+%s/%s" % (a, b, e) for b in ALGN) for a in ALGN] for e in ["int", "str", "ext", "entry"]}
PLAN["C13"] = dict(
    technique=G + "; " + T, note=NOTE,
    quick=[algg(2, ALGS["int"] + ALGS["entry"], nodes=1200),
           algg(3, ["sorted0+sorted4/int", "sorted4+map-hash/int", "map-avl+sorted0/str", "map-lin+map-imm/int", "mapset+mapset/int", "map-hash+mapset/int"], nodes=6000),
           setg(4, per(SETS, ["int", "str"]), nodes=2000),
           malg(2, 2, ["sorted0/int", "sorted3/str"], nodes=1200), malt(["sorted0/int", "sorted3/bytes"], 1000, 30, obs=10),
           algt(ALGS["str"], 500, 30, obs=20), algt(["sorted0+map-hash/int", "map-lin+sorted4/str", "mapset+mapset/int"], 3500, 400, obs=8)],
    thorough=[algg(3, ALGS["int"], nodes=6000), algg(2, ALGS["entry"] + ALGS["ext"], nodes=4000),
              setg(6, per(SETS, ["int", "str", "same", "neg", "ext"]), nodes=8000),
              malg(2, 2, ["sorted0/int", "sorted3/str"]), malg(3, 1, ["sorted0/bytes"], nodes=8000),
              malt(["sorted0/int", "sorted3/bytes"], 3000, 60, obs=10, runs=3),
              algt(ALGS["str"] + ALGS["ext"], 1200, 100, obs=25, runs=2),
              algt(["sorted0+map-hash/int", "map-lin+sorted4/str", "mapset+mapset/int", "map-avl+map-imm/str"], 6000, 800, obs=12)])


def msg(K, V, suts, ext=1, **kw):
    return Graph("MapSetGraph", dict(K=K, V=V, ExtLen=ext), "mapset", suts, spec="SpecMS", **MSINV, **kw)


PLAN["C14"] = dict(
    technique=G + "; " + T, note=NOTE,
    quick=[msg(4, 2, ["sorted0/int", "sorted3/bytes"], nodes=20000), msg(3, 2, ["sorted0/str"], ext=2), msg(6, 1, ["sorted0/int"], nodes=20000),
           setg(5, per(MAPSETS, ["int", "str", "same", "neg", "ext", "mix"]), nodes=2000),
           Trace("MapSetTrace", dict(K=200, V=9, ExtLen=0), "mapset", ["sorted0/*,sorted3/*"], "mapset", 2000, 200, obs=100),
           sett(per(MAPSETS, ["int", "str", "neg"]), 800, 200, obs=100)],
    thorough=[msg(5, 2, ["sorted0/int", "sorted3/bytes", "sorted3/str"], nodes=100000), msg(3, 3, ["sorted0/str", "sorted3/int"], ext=2),
              setg(7, per(MAPSETS, ["int", "str", "same", "neg", "ext", "mix"]), nodes=15000),
              Trace("MapSetTrace", dict(K=800, V=9, ExtLen=0), "mapset", ["sorted0/*", "sorted3/*"], "mapset", 8000, 800, obs=400, runs=3),
              sett(per(MAPSETS, ["int", "str", "neg", "ext", "same"]), 4000, 1200, obs=400, runs=2)])

# ---- deques


def deqg(N, X, uniq, suts, **kw):
    return Graph("DequeGraph", dict(N=N, X=X, Unique=uniq), "deque", suts, invariants=("NoDups",), properties=("Frame",), **kw)


def deqt(uniq, suts, n, k, **kw):
    return Trace("DequeTrace", dict(N=100000, X=k, Unique=uniq), "deque", suts, "deque", n, k, **kw)


PLAN["C15"] = dict(
    technique=G + "; " + T, note=NOTE,
    quick=[deqg(5, 2, False, ["linked/int", "linked/str"]), deqg(3, 3, False, ["linked/bytes", "linked/same"]),
           deqg(7, 1, False, ["linked/neg"]), deqt(False, ["linked/int,linked/str"], 3000, 20, obs=60), deqt(False, ["linked/int"], 4000, 700, obs=400)],
    thorough=[deqg(8, 2, False, ["linked/int", "linked/str"]), deqg(5, 3, False, ["linked/bytes", "linked/same"]),
              deqg(12, 1, False, ["linked/neg"]), deqt(False, ["linked/int,linked/str", "linked/ext,linked/mix"], 12000, 60, obs=200, runs=4)])
PLAN["C16"] = dict(
    technique=G + "; " + T, note=NOTE,
    quick=[deqg(4, 4, True, ["unique/int", "unique/same,unique/neg", "unique/str,unique/bytes", "unique/ext,unique/mix"]),
           deqg(5, 5, True, ["unique/int", "unique/same"], nodes=6000),
           deqt(True, ["unique/int,unique/str", "unique/neg,unique/ext"], 3000, 60, obs=60),
           deqt(True, ["unique/int", "unique/mix"], 3000, 900, obs=500)],
    thorough=[deqg(5, 5, True, ["unique/int", "unique/same", "unique/neg", "unique/str", "unique/bytes", "unique/ext", "unique/mix"], nodes=60000),
              deqg(6, 6, True, ["unique/int", "unique/same"], nodes=100000),
              deqt(True, ["unique/int,unique/str", "unique/neg,unique/ext", "unique/same"], 8000, 60, obs=100, runs=3),
              deqt(True, ["unique/int", "unique/mix", "unique/str"], 12000, 1500, obs=3000, runs=2)])

# ---- heaps


def heapg(N, P, X, mn, suts, **kw):
    return Graph("PrioQueueGraph", dict(N=N, P=P, X=X, Min=mn), "heap", suts, invariants=("TypeOK",), properties=("Conserved",), **kw)


def heapt(P, mn, suts, n, load, **kw):
    return Trace("PrioQueueTrace", dict(N=100000, P=P, X=40, Min=mn), "heap", suts, load, n, 40, **kw)


def heaps(kinds, x, encs=("small", "ext", "wide"), sizes=(0, 1, 4, 64)):
    return ["%s%d/%s/x%d" % (k, s, e, x) for k in kinds for s, e in zip(sizes, list(encs) * 2)]


PLAN["C17"] = dict(
    technique=G + "; " + T, note=NOTE,
    quick=[heapg(6, 3, 2, True, ["min0/small/x2", "gmin1/ext/x2", "min4/wide/x2,gmin64/small/x2"], nodes=8000),
           heapg(6, 3, 2, False, ["max0/small/x2", "gmax1/ext/x2", "max4/wide/x2,gmax64/small/x2"], nodes=8000),
           heapg(4, 3, 3, True, ["min1/ext/x3"], nodes=8000), heapg(4, 3, 3, False, ["max0/ext/x3"], nodes=8000),
           heapt(30, True, ["min0/small/x40,gmin4/wide/x40"], 1500, "heap", obs=30),
           heapt(30, False, ["max0/small/x40,gmax4/wide/x40"], 1500, "heap", obs=30),
           heapt(30, True, ["min0/small/x40"], 5000, "heapbig", obs=400), heapt(30, False, ["gmax4/wide/x40"], 5000, "heapbig", obs=400),
           heapt(3, True, ["min1/ext/x40"], 1000, "heap3", obs=30), heapt(3, False, ["max1/ext/x40"], 1000, "heap3", obs=30)],
    thorough=[heapg(8, 3, 2, True, ["min0/small/x2", "gmin1/ext/x2", "min4/wide/x2"], nodes=80000),
              heapg(8, 3, 2, False, ["max0/small/x2", "gmax1/ext/x2", "max4/wide/x2"], nodes=80000),
              heapg(5, 3, 3, True, ["min1/ext/x3"], nodes=80000), heapg(5, 3, 3, False, ["max0/ext/x3"], nodes=80000),
              heapt(30, True, ["min0/small/x40,gmin4/wide/x40"], 6000, "heap", obs=60, runs=4),
              heapt(30, False, ["max0/small/x40,gmax4/wide/x40"], 6000, "heap", obs=60, runs=4),
              heapt(30, True, ["min0/small/x40,gmin4/wide/x40"], 15000, "heapbig", obs=900, runs=2), heapt(30, False, ["max0/small/x40,gmax4/wide/x40"], 15000, "heapbig", obs=900, runs=2),
              heapt(3, True, ["min1/ext/x40"], 4000, "heap3", obs=60, runs=3), heapt(3, False, ["max1/ext/x40"], 4000, "heap3", obs=60, runs=3)])


def upqg(P, X, mn, suts, **kw):
    return Graph("UniquePQGraph", dict(P=P, X=X, Min=mn), "upq", suts, invariants=("TypeOK",), properties=("Frame",), **kw)


def upqt(P, X, mn, suts, n, load, **kw):
    return Trace("UniquePQTrace", dict(P=P, X=X, Min=mn), "upq", suts, load, n, X, **kw)


PLAN["C18"] = dict(
    technique=G + "; " + T, note=NOTE,
    quick=[upqg(3, 4, True, ["min/small/int", "min/ext/same", "min/wide/str"], nodes=4000),
           upqg(3, 4, False, ["max/small/int", "max/ext/ext", "max/wide/str"], nodes=4000),
           upqt(30, 60, True, ["min/small/int,min/wide/str"], 2500, "upq", obs=50),
           upqt(30, 60, False, ["max/small/int,max/wide/str"], 2500, "upq", obs=50),
           upqt(3, 1200, True, ["min/ext/int"], 3000, "upq3", obs=500), upqt(3, 1200, False, ["max/ext/same"], 1500, "upq3", obs=500)],
    thorough=[upqg(3, 5, True, ["min/small/int", "min/ext/same", "min/wide/str"], nodes=60000),
              upqg(3, 5, False, ["max/small/int", "max/ext/ext", "max/wide/str"], nodes=60000),
              upqt(30, 60, True, ["min/small/int,min/wide/str"], 10000, "upq", obs=100, runs=3),
              upqt(30, 60, False, ["max/small/int,max/wide/str"], 10000, "upq", obs=100, runs=3),
              upqt(30, 1200, True, ["min/small/int"], 12000, "upq", obs=1000, runs=2), upqt(30, 1200, False, ["max/small/int"], 12000, "upq", obs=1000, runs=2)])

# ---- serialization
TYPES = ["Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Int", "UInt", "String", "ByteSlice", "blob"]


def some(ps, n):
    return [",".join(ps[i::n]) for i in range(n)]


def types_(p):
    return ["%s/%s" % (p, t) for t in TYPES]


PLAN["C19"] = dict(
    technique=G + " with serialization round trips as transitions; " + T, note=NOTE,
    quick=[listg(2, 5, some(types_("new0"), 3), ext=0, codec=True, nodes=400), listg(2, 5, some(types_("fixed2"), 3), bound=2, ext=0, codec=True, nodes=400),
           sortg(3, 5, some(types_("uniq-new0"), 2) + some(types_("set1"), 2), False, ext=0, codec=True, nodes=300),
           sortg(2, 5, some(types_("uniq-fixed2"), 2), False, bound=2, ext=0, codec=True, nodes=300),
           sortg(3, 3, some(types_("dups-new1"), 2), True, ext=0, codec=True, nodes=300),
           sortg(2, 4, some(types_("dups-fixed2"), 2), True, bound=2, ext=0, codec=True, nodes=300),
           listg(2, 5, ["new0/long"], ext=0, codec=True, nodes=60), sortg(2, 5, ["uniq-fixed2/long"], False, bound=2, ext=0, codec=True, nodes=60),
           listg(1, 1, ["big300/str"], ext=0, codec=True), listg(1, 1, ["big65600/int"], ext=0, codec=True, nodes=20, walks=2, walklen=6),
           listg(2, 1, ["bigfixed300/str"], bound=2, ext=0, codec=True), listg(2, 1, ["bigfixed65600/int"], bound=2, ext=0, codec=True, nodes=20, walks=2, walklen=6),
           listt(["new0/int,new1/str", "new2/bytes,new3/i64"], 600, 40, load="listcodec", obs=40),
           listt(["fixed20/int", "fixed20/str"], 600, 12, bound=20, load="listcodec", obs=40),
           sortt(["dups-new0/int,dups-new2/str"], 600, 60, True, load="sortedcodec", obs=40),
           sortt(["uniq-new0/bytes,set1/i64"], 600, 60, False, load="sortedcodec", obs=40)],
    thorough=[listg(3, 5, some(types_("new0"), 7), ext=1, codec=True, nodes=3000), listg(3, 4, some(types_("fixed3"), 7), bound=3, ext=1, codec=True, nodes=3000),
              sortg(5, 5, some(types_("uniq-new0"), 4) + some(types_("set1"), 4), False, ext=0, codec=True, nodes=3000),
              sortg(3, 5, some(types_("uniq-fixed3"), 4), False, bound=3, ext=0, codec=True, nodes=3000),
              sortg(4, 4, some(types_("dups-new1"), 4), True, ext=0, codec=True, nodes=3000),
              sortg(3, 5, some(types_("dups-fixed3"), 4), True, bound=3, ext=0, codec=True, nodes=3000),
              listg(2, 5, ["new0/long"], ext=0, codec=True, nodes=600), sortg(2, 5, ["uniq-fixed2/long"], False, bound=2, ext=0, codec=True, nodes=600),
              listg(2, 1, ["big300/str", "big65600/int"], ext=0, codec=True, nodes=40, walks=4, walklen=10),
              listg(2, 2, ["bigfixed300/str", "bigfixed65600/int"], bound=2, ext=0, codec=True, nodes=40, walks=4, walklen=10),
              listt(["new0/int,new1/str", "new2/bytes,new3/i64"], 3000, 200, load="listcodec", obs=100, runs=3),
              listt(["fixed120/int", "fixed120/str"], 3000, 60, bound=120, load="listcodec", obs=100, runs=2),
              sortt(["dups-new0/int,dups-new2/str"], 3000, 300, True, load="sortedcodec", obs=100, runs=3),
              sortt(["uniq-new0/bytes,set1/i64"], 3000, 600, False, load="sortedcodec", obs=100, runs=3)])

# ---- copies


def cpg(N, X, sk, ck, suts, sb=0, cb=0, **kw):
    return Graph("CopySpecGraph", dict(N=N, X=X, SK='"%s"' % sk, CK='"%s"' % ck, SB=sb, CB=cb), "copy", suts, properties=("Independent",), **kw)


def cpall(N, X, nodes):
    r = [cpg(N, X, "list", "list", ["list0", "list1", "list2", "list4"], nodes=nodes),
         cpg(N, X, "sorted", "sorted", ["sorted0", "sorted1,sorted2", "sorted4"], nodes=nodes),
         cpg(N, X + 1, "uniq", "uniq", ["uniq0,uniq1", "uniq2,uniq4", "set0,set1", "set2,set4", "set-set"], nodes=nodes),
         cpg(N, X, "slice", "list", ["slice-list"], nodes=nodes), cpg(N, X, "slice", "sorted", ["slice-sorted"], nodes=nodes),
         cpg(N, X, "slice", "uniq", ["slice-uniq,slice-set"], nodes=nodes)]
    for b in (1, 2, 3):
        if b <= N:
            r += [cpg(b, X, "list", "list", ["fixed%d" % b], sb=b, cb=b, nodes=nodes), cpg(b, X, "sorted", "sorted", ["fixedsorted%d" % b], sb=b, cb=b, nodes=nodes),
                  cpg(b, X + 1, "uniq", "uniq", ["fixeduniq%d" % b], sb=b, cb=b, nodes=nodes)]
    return r


def cpt(sk, ck, suts, n, b=0, **kw):
    return Trace("CopySpecTrace", dict(N=100000, X=30, SK='"%s"' % sk, CK='"%s"' % ck, SB=b, CB=b), "copy", suts,
                 "copy-%s-%s" % (sk.replace("uniq", "sorted"), ck.replace("uniq", "sorted")), n, 30, obs=4, **kw)


def cptall(n, runs):
    return [cpt("list", "list", ["list0,list16", "list1,list4"], n, runs=runs), cpt("list", "list", ["fixed20"], n, 20, runs=runs),
            cpt("sorted", "sorted", ["sorted0,sorted16"], n, runs=runs), cpt("sorted", "sorted", ["fixedsorted20"], n, 20, runs=runs),
            cpt("uniq", "uniq", ["uniq0,uniq16", "set0,set16", "set-set"], n, runs=runs), cpt("uniq", "uniq", ["fixeduniq20"], n, 20, runs=runs),
            cpt("slice", "list", ["slice-list"], n, runs=runs), cpt("slice", "sorted", ["slice-sorted"], n, runs=runs),
            cpt("slice", "uniq", ["slice-uniq,slice-set"], n, runs=runs)]


PLAN["C27"] = dict(technique=G + "; " + T, note=NOTE, quick=cpall(2, 2, 8000) + cptall(1500, 1), thorough=cpall(3, 2, 60000) + cptall(6000, 3))

# ---- B+ tree
BPT = ["bptree2", "bptree3", "bptree4", "bptree5"]


def multig(K, V, N, suts, gap=1, ranges=False, **kw):
    return Graph("MultiMapGraph", dict(K=K, V=V, N=N, Gap=gap, Ranges=ranges), "multi", suts,
                 invariants=("TypeOK", "RangesOK"), properties=("Frame",), **kw)


def multit(suts, n, k, **kw):
    return Trace("MultiMapTrace", dict(K=k, V=3, N=1000000, Gap=2, Ranges=True), "multi", suts, "multi", n, k, **kw)


def bpts(enc, v, names=BPT):
    return ["%s/%s/v%d" % (b, enc, v) for b in names]


PLAN["C04"] = dict(
    technique=G + "; " + T, note=NOTE,
    quick=[multig(3, 2, 5, bpts("int", 2), nodes=4000), multig(4, 1, 8, bpts("int", 1), nodes=4000),
           multig(2, 3, 4, bpts("str", 3) + bpts("bytes", 3), nodes=1500),
           multit(["bptree2/int/v3", "bptree3/str/v3", "bptree4/bytes/v3", "bptree5/neg/v3", "bptree7/int/v3,bptree16/int/v3", "bptree64/int/v3,bptree255/str/v3"], 1500, 60, obs=60)],
    thorough=[multig(3, 2, 7, bpts("int", 2), nodes=60000), multig(4, 1, 10, bpts("int", 1), nodes=60000),
              multig(6, 1, 7, bpts("int", 1), nodes=60000),
              multig(2, 3, 5, bpts("str", 3) + bpts("bytes", 3), nodes=20000),
              multit(["bptree2/int/v3", "bptree3/str/v3", "bptree4/bytes/v3", "bptree5/neg/v3", "bptree7/int/v3", "bptree16/int/v3", "bptree64/str/v3", "bptree255/int/v3"], 6000, 200, obs=150, runs=3)])
PLAN["C05"] = dict(
    technique=G + " with every pair of range bounds queried in every state; " + T, note=NOTE,
    quick=[multig(7, 1, 6, bpts("int", 1), gap=2, ranges=True, nodes=3000), multig(9, 1, 5, bpts("str", 1), gap=2, ranges=True, nodes=1500),
           multig(5, 2, 4, bpts("bytes", 2), gap=2, ranges=True, nodes=1500),
           multit(["bptree2/int/v3", "bptree3/str/v3", "bptree4/bytes/v3", "bptree5/neg/v3", "bptree7/int/v3,bptree16/int/v3", "bptree64/int/v3,bptree255/str/v3"], 1500, 60, obs=20), multit(["bptree2/int/v3", "bptree4/str/v3"], 4000, 900, obs=300)],
    thorough=[multig(7, 1, 9, bpts("int", 1), gap=2, ranges=True, nodes=30000), multig(11, 1, 6, bpts("str", 1), gap=2, ranges=True, nodes=20000),
              multig(5, 2, 6, bpts("bytes", 2), gap=2, ranges=True, nodes=20000),
              multit(["bptree2/int/v3", "bptree3/str/v3", "bptree4/bytes/v3", "bptree5/neg/v3", "bptree7/int/v3", "bptree16/int/v3", "bptree64/str/v3", "bptree255/int/v3"], 6000, 200, obs=50, runs=3)])

# ---- snapshots


def snapg(K, V, S, iters, suts, **kw):
    return Graph("SnapshotsGraph", dict(K=K, V=V, S=S, Iters=iters), "snap", suts, spec="SpecS", properties=("Frozen",), **kw)


def snapt(suts, n, k, load="snap", **kw):
    return Trace("SnapshotsTrace", dict(K=k, V=9, S=3, Iters=True), "snap", suts, load, n, k, **kw)


PLAN["C07"] = dict(
    technique=G + "; " + T + "; concurrent readers of snapshots under the race detector, their reads validated against the spec", note=NOTE,
    quick=[snapg(3, 1, 2, False, ["imm2/int", "imm2/bytes"], nodes=6000), snapg(2, 2, 2, False, ["imm2/str"], nodes=6000),
           snapg(4, 1, 1, True, ["imm1/int"], nodes=12000), snapg(5, 1, 1, False, ["imm1/int"], nodes=12000),
           snapt(["imm3/int,imm3/str"], 1500, 60, obs=20), snapt(["imm3/int"], 1500, 400, obs=100), snapt(["imm3/int"], 6500, 1500, load="snapbig", obs=200),
           snapt(["imm3/int,imm3/str,imm3/bytes"], 400, 60, extra=("-readers", 6), race=True)],
    thorough=[snapg(4, 1, 2, False, ["imm2/int", "imm2/bytes"], nodes=100000), snapg(3, 2, 2, False, ["imm2/str"], nodes=60000),
              snapg(5, 1, 1, True, ["imm1/int"], nodes=100000), snapg(3, 2, 1, True, ["imm1/str"], nodes=100000),
              snapg(7, 1, 1, False, ["imm1/int"], nodes=100000), snapg(3, 1, 3, False, ["imm3/int"], nodes=100000),
              snapt(["imm3/int,imm3/str"], 5000, 100, obs=40, runs=4), snapt(["imm3/int"], 5000, 1500, obs=300, runs=2), snapt(["imm3/str"], 9000, 3000, load="snapbig", obs=300, runs=2),
              snapt(["imm3/int,imm3/str,imm3/bytes"], 1500, 100, extra=("-readers", 6), race=True, runs=4)])

# ---- trie


def trieg(A, D, V, choice, suts, **kw):
    return Graph("TrieSpecGraph", dict(A=A, D=D, V=V, Choice=choice), "trie", suts, invariants=("TypeOK", "WordsOK"), properties=("Frame",), **kw)


def triet(A, D, load, suts, n, **kw):
    return Trace("TrieSpecTrace", dict(A=A, D=D, V=9, Choice=0), "trie", suts, load, n, 0, **kw)


TST = ["tst/abc", "tst/edge", "tst/high", "tst/wide", "tstnil/abc,tstnil/edge"]
TRIEQ = [trieg(2, 0, 2, 1, TST, nodes=1200), trieg(3, 0, 1, 2, TST, nodes=1200), trieg(2, 0, 1, 3, TST, nodes=1200), trieg(5, 0, 1, 4, TST[:4], nodes=1200),
         trieg(3, 2, 1, 0, ["tst/abc", "tst/edge"], nodes=1500),
         triet(3, 4, "trie34", TST, 2400, obs=30), triet(2, 6, "trie26", ["tst/edge", "tst/wide"], 2400, obs=30),
         triet(5, 3, "trie53", ["tst/high", "tst/abc"], 2400, obs=30), triet(3, 4, "trie34", ["tst/long"], 1500, obs=50)]
TRIET = [trieg(2, 0, 2, 1, TST, nodes=6000), trieg(3, 0, 2, 2, TST, nodes=6000), trieg(2, 0, 2, 3, TST, nodes=6000), trieg(5, 0, 2, 4, TST[:4], nodes=6000),
         trieg(3, 2, 1, 0, TST, nodes=10000), trieg(2, 3, 1, 0, ["tst/abc", "tst/edge", "tst/wide"], nodes=10000),
         triet(3, 4, "trie34", TST, 6000, obs=80, runs=2), triet(2, 6, "trie26", ["tst/edge", "tst/wide"], 6000, obs=80, runs=2),
         triet(5, 3, "trie53", ["tst/high,tst/abc"], 6000, obs=80, runs=2), triet(3, 4, "trie34", ["tst/long"], 6000, obs=100, runs=2)]
PLAN["C09"] = dict(technique=G + "; " + T, note=NOTE, quick=TRIEQ, thorough=TRIET)
PLAN["C10"] = dict(technique=G + " with every prefix searched in every state; " + T, note=NOTE, quick=TRIEQ, thorough=TRIET)

# ---- comparisons
SCAL = ["Int8", "Int16", "Int32", "Int64", "Int", "UInt8", "UInt16", "UInt32", "UInt64", "UInt", "String", "ByteSlice"]
SIMPL = ["List", "Fixed", "FromSlice", "MList", "Sorted", "SortedSet", "Linked", "Unique"]
STATIC = "TLA+ spec of every answer; TLC enumerates the questions, the driver puts each to the real code"


def ordg(kind, R, L, suts, **kw):
    return Graph("OrderTheoryGraph", dict(R=R, L=L, Kind='"%s"' % kind), "order", suts, invariants=("Total",), walks=0, **kw)


def pairs(items):
    return ["seq/%s/%s/*" % (i, a) for i in items for a in SIMPL]


def ordt(suts, n, k, **kw):
    return Trace("OrderTheoryTrace", dict(R=k, L=60, Kind='"seq"'), "order", suts, "order", n, k, obs=0, **kw)


PLAN["C20"] = dict(
    technique=STATIC + "; " + T, note=NOTE,
    quick=[ordg("scalar", 60, 1, ["scalar60/*", "entry60/*", "node60/*", "noden60/*"]),
           ordg("cross", 60, 1, ["cross/%s/*" % s for s in SCAL]),
           ordg("seq", 3, 3, pairs(["Int", "Entry"])), ordg("seq", 4, 2, pairs(["String", "ByteSlice", "List", "same", "Int64"])),
           ordg("seq", 2, 5, pairs(["Int"])), ordt(pairs(["Int", "Entry"]), 300, 40)],
    thorough=[ordg("scalar", 400, 1, ["%s400/%s" % (k, s) for k in ("scalar", "entry", "node", "noden") for s in SCAL]),
              ordg("cross", 60, 1, ["cross/%s/*" % s for s in SCAL]),
              ordg("seq", 3, 4, pairs(["Int", "Entry"])), ordg("seq", 5, 3, pairs(["String", "ByteSlice", "List", "same", "Int64"])),
              ordt(pairs(["Int", "Entry", "List", "String"]), 1000, 40)])


# ---- traversals
def travg(kind, N, suts, **kw):
    return Graph("TraversalGraph", dict(N=N, Kind='"%s"' % kind), "trav", suts, invariants=("OrdersOK",), walks=0, **kw)


def travt(suts, n, k, **kw):
    return Trace("TraversalTrace", dict(N=1, Kind='"chain"'), "trav", suts, "trav", n, k, obs=0, **kw)


BINS = ["pointer", "typednil", "value"]
TRAVS = BINS + ["nary", "blind", "avl", "imm", "tst"]
PLAN["C26"] = dict(
    technique=STATIC + "; " + T, note=NOTE,
    quick=[travg("binary", 7, BINS), travg("nary", 7, ["nary", "blind"]), travg("chain", 5, ["pointer"]),
           travt(TRAVS, 400, 60)],
    thorough=[travg("binary", 10, BINS), travg("nary", 10, ["nary", "blind"]), travg("chain", 7, ["pointer"]),
              travt(TRAVS, 4000, 100, runs=2)])


# ---- exceptions
def excg(mode, types, c, f, suts=("exc0", "exc1"), **kw):
    return Graph("ExcGraph", dict(Types="{%s}" % ",".join(map(str, types)), MaxC=c, MaxF=f, Mode='"%s"' % mode), "exc",
                 list(suts), properties=("FlatOK",), walks=0, **kw)


def exct(suts, n, k, **kw):
    return Trace("ExcTrace", dict(Types="{1}", MaxC=1, MaxF=1, Mode='"flat"'), "exc", suts, "exc", n, k, obs=0, **kw)


EX = ["exc%d" % i for i in range(6)]
PLAN["C23"] = dict(
    technique="TLA+ big-step semantics; TLC enumerates the programs, each is run with the real package; " + T, note=NOTE,
    quick=[excg("flat", [1, 2, 3], 1, 2, EX), excg("flat", [1, 2], 2, 1), excg("flat", [4, 5, 6], 1, 1, EX[:3]),
           excg("flat", [1, 4], 2, 1), excg("again", [1, 3], 1, 1), excg("nest", [1, 2], 1, 1), exct(EX, 400, 3)],
    thorough=[excg("flat", [1, 2, 3], 2, 2, EX), excg("flat", [1, 3, 4], 2, 1, EX), excg("flat", [1, 5, 6], 2, 1, EX), excg("again", [1, 2, 3], 1, 1),
              excg("nest", [1, 2, 3], 2, 1, EX), exct(EX, 4000, 4)])
PLAN["C24"] = dict(
    technique="TLA+ big-step semantics; TLC enumerates the programs, each is run with the real package; " + T, note=NOTE,
    quick=[excg("close", [1, 2], 1, 1, EX), excg("closeagain", [1, 2], 1, 1), excg("closenest", [2], 1, 1), exct(EX, 400, 3)],
    thorough=[excg("close", [1, 2, 3], 2, 2, EX), excg("close", [1, 4, 6], 2, 1, EX), excg("closeagain", [1, 2], 1, 1, EX),
              excg("closenest", [1, 2], 1, 1, EX), exct(EX, 4000, 4)])


# ---- error chains
def chaing(N, C, L, suts, **kw):
    return Graph("ErrChainGraph", dict(N=N, C=C, L=L), "chain", suts, invariants=("TypeOK",), properties=("Frame",), **kw)


def chaint(suts, n, k, **kw):
    return Trace("ErrChainTrace", dict(N=3, C=3, L=k), "chain", suts, "chain", n, k, obs=15, **kw)


CH = ["errors", "exc", "sub", "subsub", "late"]
PLAN["C28"] = dict(
    technique=G + "; " + T, note=NOTE,
    quick=[chaing(2, 2, 3, [c + "2/k3" for c in CH] + ["exc2/k0", "errors2/k1"], nodes=1500), chaing(1, 2, 5, [c + "1/k3" for c in CH], nodes=500),
           chaing(1, 2, 2, [c + "1/k3/deep" for c in CH] + ["exc1/k1", "exc1/k2", "errors1/k2"], nodes=100),
           chaint([c + "3/k3" for c in CH] + ["exc3/k0,exc3/k1,exc3/k2"], 400, 40), chaint([c + "3/k3" for c in CH], 500, 200)],
    thorough=[chaing(3, 1, 4, [c + "3/k3" for c in CH] + ["exc3/k0", "errors3/k1"], nodes=6000), chaing(2, 2, 5, [c + "2/k3" for c in CH], nodes=8000),
              chaing(1, 2, 4, [c + "1/k3/deep" for c in CH] + ["exc1/k1", "exc1/k2", "errors1/k2"], nodes=1000),
              chaint([c + "3/k3" for c in CH] + ["exc3/k0,exc3/k1,exc3/k2"], 1500, 100, runs=2), chaint([c + "3/k3" for c in CH], 1500, 400)])


# ---- concurrent queries, separate collections
SH = dict(extra=("-shared", 4), race=True)
AP = dict(extra=("-apart", 4), race=True)


def together(n, r):
    """queries of one collection by several goroutines at once"""
    e, t = ["int", "str"], dict(SH, runs=r)
    return [mapt(per(["avl", "imm", "avlnode", "immnode"], e) + per(["hash0", "hash3", "lin"], e + ["neg"]) + per(["bpmap2", "bpmap5", "mapset"], e), n, 80, obs=60, **t),
            listt(["new0/int,new1/str"], n, 3, obs=60, **t), listt(["fixed20/int"], n, 3, bound=20, obs=60, **t),
            sortt(["dups-new0/int,dups-new2/str"], n, 60, True, obs=60, **t), sortt(["uniq-new0/int,set10/bytes"], n, 60, False, obs=60, **t),
            sett(per(SETS, ["int"]), n, 60, obs=60, **t), algt(["sorted0+sorted4/str,sorted4+map-hash/str,map-avl+sorted0/str,map-lin+map-imm/str,mapset+mapset/str"], n, 30, obs=60, **t),
            Trace("MapSetTrace", dict(K=60, V=9, ExtLen=0), "mapset", ["sorted0/*,sorted3/*"], "mapset", n, 60, obs=60, **t),
            deqt(False, ["linked/int,linked/str"], n, 20, obs=60, **t), deqt(True, ["unique/int,unique/mix"], n, 60, obs=60, **t),
            heapt(30, True, ["min0/small/x40,gmin4/wide/x40"], n, "heap", obs=60, **t), upqt(30, 60, False, ["max/small/int,max/wide/str"], n, "upq", obs=60, **t),
            multit(["bptree2/int/v3,bptree3/str/v3,bptree5/neg/v3,bptree16/int/v3"], n, 40, obs=60, **t),
            triet(3, 4, "trie34", TST, n, obs=60, **t)]


def separately(n, r):
    """collections used by one goroutine each, all at once"""
    e, t = ["int", "str"], dict(AP, runs=r)
    return [mapt([",".join(per(["avl", "imm"], ["int"]) + per(["hash0", "lin"], ["str"]) + per(["bpmap2", "bpmap5"], ["int"]))], n, 80, obs=60, **t),
            listt(["new0/int,new1/str,pre99/int"], n, 3, obs=60, load="listcodec", **t), sortt(["uniq-new0/int,set10/bytes"], n, 60, False, load="sortedcodec", obs=60, **t),
            algt(["sorted0+sorted4/str,map-lin+map-imm/str,mapset+mapset/str"], n, 30, obs=60, **t),
            Trace("MapSetTrace", dict(K=60, V=9, ExtLen=0), "mapset", ["sorted0/int,sorted3/str"], "mapset", n, 60, obs=60, **t),
            deqt(True, ["unique/int,unique/mix"], n, 60, obs=60, **t), heapt(30, True, ["min0/small/x40,gmin4/wide/x40"], n, "heap", obs=60, **t),
            upqt(30, 60, False, ["max/small/int,max/wide/str"], n, "upq", obs=60, **t),
            multit(["bptree2/int/v3,bptree5/neg/v3"], n, 40, obs=60, **t), triet(3, 4, "trie34", ["tst/abc,tst/edge"], n, obs=60, **t),
            snapt(["imm3/int,imm3/str"], n, 60, obs=60, **t), cpt("uniq", "uniq", ["uniq0,set-set"], n, **t),
            exct(["exc0,exc1,exc2"], n // 2, 3, **t), chaint(["errors3/k3,exc3/k3,sub3/k3"], n // 2, 40, **t),
            ordt(["seq/Int/List/*", "seq/Entry/Linked/*"], n // 4, 40, **t), travt(["pointer,nary,avl,imm,tst"], n // 2, 60, **t)]


PLAN["C29"] = dict(
    technique="TLA+ specs of every collection; records of concurrent queries and of collections used side by side (race-detector build) validated by TLC", note=CNOTE29,
    exhaustive=False, quick=together(400, 1) + separately(400, 1), thorough=together(1500, 4) + separately(1500, 4))

# ---- the cost of finding things
def costt(suts, n, k, hashed, node=0, **kw):
    return Trace("LookupCostTrace", dict(K=k, V=1, Hashed=hashed, Node=node), "cost", suts, "cost", n, k, obs=0, **kw)


def cost(n, k, **kw):
    return [costt(["avl/*", "imm/*", "sorted*", "mapset/*"], 3 * n, k, False, **kw),
            costt(["lin/*"], 3 * n, 5 * k, True, **kw), costt(["hash0/*", "hash1/*,hash16/*", "set-hash/*,set-lin/fnv,set-lin/seq"], n, k, True, **kw)] + [
            costt(["bpmap%d/*,bptree%d/*" % (b, b)], n, k, False, node=b, **kw) for b in (4, 16, 255, 1024)]


PLAN["C30"] = dict(
    technique="TLA+ cost model checked by TLC; records of real calls with counted comparisons validated by TLC", note=CNOTE30,
    exhaustive=False,
    quick=[Model("LookupCost", dict(K=2, V=1, Hashed=False, Node=0), "MCSpec", ["SizeKept", "InBudget", "Monotone"], constraint="FewCalls")] + cost(8000, 2500),
    thorough=[Model("LookupCost", dict(K=3, V=2, Hashed=True, Node=0), "MCSpec", ["SizeKept", "InBudget", "Monotone"], constraint="FewCalls")] + cost(40000, 8000, runs=3))

# ---- printed and drawn forms
def printed(k, n, tn, tk):
    return [Graph("PrintingGraph", dict(K=k, N=n), "print", ["string", "fmt", "used"], invariants=("Sane",), walks=0),
            Trace("PrintingTrace", dict(K=7, N=0), "print", ["string", "fmt", "used"], "print", tn, tk, obs=0)]


PLAN["C31"] = dict(
    technique="TLA+ specs of printed collections and of trie drawings; every sequence of a bounded size replayed, recorded printouts and drawings validated by TLC",
    note=NOTE,
    quick=printed(3, 5, 200, 400) + [triet(3, 4, "trie34", ["tst/abc"], 3000, obs=10, shapes=True, runs=3), triet(5, 3, "trie53", ["tst/abc"], 2000, obs=10, shapes=True, runs=2)],
    thorough=printed(4, 6, 3000, 400) + [triet(3, 4, "trie34", ["tst/abc"], 20000, obs=10, shapes=True, runs=4), triet(5, 3, "trie53", ["tst/abc"], 10000, obs=10, shapes=True, runs=4),
                                         triet(2, 6, "trie26", ["tst/abc"], 20000, obs=10, shapes=True, runs=4)])

# ---- worker pool and shared generator
CT = ("TLA+ spec of the observable events; recorded concurrent runs of the real code (plain, race-detector and "
      "yield-instrumented builds) explained by a TLC search for a behaviour; TLC model checking of the algorithm's "
      "spec, which refines it")
CNOTE = ("Schedules of the real code are sampled (seeded workloads, seeded delays before chosen statements, race "
         "detector), each recorded run is decided by TLC. The algorithm, transcribed into TLA+, is checked over all "
         "interleavings of the stated instance; that transcription is trusted.")
POOLC = ("NT", "NW", "Cap", "NS", "NL", "NC")


def poolm(*c, **kw):
    return Model("PoolImpl", dict(zip(POOLC, c)), invariants=("CountOK", "AbsOK", "Stuckless", "QuietOK"), properties=("Refines",), **kw)


def poolc(scen, n, tasks=40, **kw):
    return Conc("PoolTrace", "pool", scen, n, dict(W=99, MaxT=tasks, Tasks="<-TTasks", Counters="<-TCounters"), **kw)


def poolq(scen, n, **kw):
    return Conc("PoolTrace", "pool", scen, n, quiet=True, kinds=(True, "yield"), **kw)


POOLS = dict(spec="PSpec", constraint="Few", invariants=("TypeOK", "NeverRejected", "NotLost", "Drained", "Quiescent"), properties=("Once",))


PLAN["C21"] = dict(
    technique=CT, note=CNOTE, exhaustive=False,
    quick=[poolm(2, 1, 1, 2, 0, 0), poolm(3, 1, 1, 1, 0, 0), poolm(2, 2, 1, 1, 0, 0), Model("PoolSpecCheck", dict(NT=2, NC=1, W=2, Tasks="<-CTasks", Counters="<-CCounters"), **POOLS),
           poolc(["stop", "serial"], 300, runs=2), poolc(["full"], 60, tasks=280), poolq(["stop", "full"], 150)],
    thorough=[poolm(3, 1, 1, 2, 0, 0), poolm(3, 2, 1, 1, 0, 0, workers=4), Model("PoolSpecCheck", dict(NT=3, NC=1, W=2, Tasks="<-CTasks", Counters="<-CCounters"), **POOLS),
              poolc(["stop", "serial"], 2500, runs=6), poolc(["full"], 250, tasks=280, runs=3), poolq(["stop", "full"], 1500, runs=2)])
PLAN["C22"] = dict(
    technique=CT, note=CNOTE, exhaustive=False,
    quick=[poolm(2, 1, 1, 1, 1, 1), poolm(2, 1, 1, 0, 2, 1), Model("PoolSpecCheck", dict(NT=2, NC=1, W=2, Tasks="<-CTasks", Counters="<-CCounters"), **POOLS),
           poolc(["lock"], 100), poolc(["turns", "count", "held"], 200), poolc(["fulllock"], 25, tasks=280),
           poolq(["lock", "turns", "count"], 150)],
    thorough=[poolm(3, 1, 1, 1, 1, 1, workers=4), poolm(2, 2, 1, 1, 1, 1, workers=4), Model("PoolSpecCheck", dict(NT=2, NC=2, W=2, Tasks="<-CTasks", Counters="<-CCounters"), **POOLS),
              poolc(["lock"], 400, runs=5), poolc(["turns", "count", "held"], 1000, runs=4), poolc(["fulllock"], 100, tasks=280, runs=3),
              poolq(["lock", "turns", "count"], 1500, runs=2)])


def randm(g, d, s):
    return Model("RandImpl", dict(Gs="{%s}" % ",".join(map(str, range(1, g + 1))), MaxDraws=d, MaxSeeds=s, Locked=True),
                 invariants=("AbsOK",), properties=("Refines",))


def randc(n, **kw):
    return Conc("RandSourceTrace", "rand", ["draw", "seed"], n, dict(Gs="{1}", MaxDraws=1, MaxSeeds=1), **kw)


def randg(s, m, **kw):
    return Graph("RandSourceGraph", dict(Seeds=s, Methods=17, MaxCalls=m), "rand", ["seq"], **kw)


PLAN["C25"] = dict(
    technique=CT + "; " + G, note=CNOTE, exhaustive=False,
    quick=[randm(2, 2, 1), randm(3, 2, 0), randg(9, 6, nodes=800, walks=40, walklen=400),
           randc(150), Conc("RandSourceTrace", "rand", ["draw", "seed"], 300, quiet=True, kinds=(True, "yield"))],
    thorough=[randm(2, 3, 2), randm(3, 3, 1), randm(4, 2, 0), randg(9, 12, nodes=6000, walks=400, walklen=2000, walksecs=20),
              randc(1500, runs=4), Conc("RandSourceTrace", "rand", ["draw", "seed"], 3000, quiet=True, kinds=(True, "yield"), runs=2)])

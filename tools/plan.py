"""What each check runs."""

# name -> (module, configuration, environment, further arguments); the specification alone
MODELS = {
    "theory": ("MCPathTheory.tla", "MCPathTheoryQ.cfg", {}, []),
    "theory3": ("MCPathTheory.tla", "MCPathTheory.cfg", {}, []),
    "theory4": ("MCPathTheory.tla", "MCPathTheory4.cfg", {}, []),
    "normal": ("MCNormalForm.tla", "MCNormalForm.cfg", {}, []),
    "search": ("MCSearch.tla", "MCSearch3.cfg", {}, []),
    "search3w": ("MCSearch.tla", "MCSearch3W.cfg", {}, []),
    "search4": ("MCSearch.tla", "MCSearch4.cfg", {}, []),
    "search4s": ("MCSearchSample.tla", "MCSearch4S.cfg", {}, []),
    "search5s": ("MCSearchSample.tla", "MCSearch5S.cfg", {}, []),
    "search-multi": ("MCSearch.tla", "MCSearchMulti.cfg", {}, []),
    "search-multi-q": ("MCSearch.tla", "MCSearchMultiQ.cfg", {}, []),
    "search-live": ("MCSearch.tla", "MCSearchLive.cfg", {}, []),
    "hierarchy": ("MCHierarchy.tla", "MCHierarchy.cfg", {}, []),
    "hierarchy-any": ("MCHierarchy.tla", "MCHierarchyAny.cfg", {}, []),
    "hierarchy-large": ("MCHierarchy.tla", "MCHierarchyLarge.cfg", {}, []),
    "witness": ("MCWitness.tla", "MCWitnessQ.cfg", {}, []),
    "witness3": ("MCWitness.tla", "MCWitness.cfg", {}, []),
    "witness4": ("MCWitness.tla", "MCWitness4.cfg", {}, []),
    "epoch": ("Epoch.tla", "Epoch.cfg", {}, []),
    "concurrent": ("MCConcurrent.tla", "MCConcurrent.cfg", {}, []),
    "longroutes": ("MCLongRoutes.tla", "MCLongRoutes.cfg", {}, []),
    # Apalache, for the real number of epochs
    "epoch-init": ("EpochProof.tla", "apalache", {}, ["--cinit=ConstInit", "--init=Init", "--inv=Ind", "--length=0"]),
    "epoch-step": ("EpochProof.tla", "apalache", {}, ["--cinit=ConstInit", "--init=IndInit", "--inv=Ind", "--length=1"]),
}


def h(module, depth, alphabet, conv):
    return (module + ".tla", module + ".cfg", {"HDEPTH": str(depth), "HALPHA": alphabet}, [], conv)


# name -> (module, configuration, environment, further arguments, converter)
GENS = {
    "protocol3": h("HistProtocol", 3, "large", "protocol"),
    "protocol4": h("HistProtocol", 4, "large", "protocol"),
    "protocol5": h("HistProtocol", 5, "small", "protocol"),
    "append3": h("HistAppend", 3, "large", "append"),
    "append4": h("HistAppend", 4, "large", "append"),
    "files2": h("HistFiles", 2, "large", "files"),
    "files3": h("HistFiles", 3, "large", "files"),
    "files4": h("HistFiles", 4, "small", "files"),
    "calc2": h("HistCalc", 2, "large", "calc"),
    "calc3": h("HistCalc", 3, "large", "calc"),
    "calc4": h("HistCalc", 4, "small", "calc"),
    "calc-par2": h("HistCalc", 2, "large", "concurrent"),
    "calc-par3": h("HistCalc", 3, "large", "concurrent"),
    "prepared2": h("HistPrepared", 2, "large", "prepared"),
    "prepared3": h("HistPrepared", 3, "large", "prepared"),
    "prepared4": h("HistPrepared", 4, "small", "prepared"),
    "orders3": h("HistOrders", 1, "small", "orders"),
    "orders4": h("HistOrders", 1, "large", "orders"),
    "readers3": h("GenReaders", 3, "large", "readers"),
    "readers4": h("GenReaders", 4, "large", "readers"),
    "readers5": h("GenReaders", 5, "small", "readers"),
    "queries-a": h("GenQueries", 2, "a", "queries_a"),
    "queries-b": h("GenQueries", 2, "b", "queries_b"),
    "queries-c": h("GenQueries", 2, "c", "queries_c"),
    "queries1-a": h("GenQueries", 1, "a", "queries_a"),
    "queries1-c": h("GenQueries", 1, "c", "queries_c"),
}


def p(what, models=((), ()), gens=((), ()), seeded=((2, 1, 100), (4, 40, 540)),
      bulk=(0, 0), numbered=((), ()), **kw):
    d = {"what": what, "models": {"quick": models[0], "thorough": tuple(models[0]) + tuple(models[1])},
         "gens": {"quick": gens[0], "thorough": tuple(gens[0]) + tuple(gens[1])},
         "seeded": {"quick": seeded[0], "thorough": seeded[1]},
         "bulk": {"quick": bulk[0], "thorough": bulk[1]},
         "numbered": {"quick": numbered[0], "thorough": tuple(numbered[0]) + tuple(numbered[1])}}
    d.update(kw)
    return d


PLAN = {"C%02d" % i: p("traces of the real crate validated against FastPaths.tla") for i in range(1, 20)}
for i in (1, 2, 3, 4, 5, 6, 11, 12, 13, 14, 15, 16, 17, 18):
    PLAN["C%02d" % i]["bulk"] = {"quick": 12000, "thorough": 30000}


def use(prop, kind, quick, thorough=()):
    PLAN[prop][kind] = {"quick": tuple(quick), "thorough": tuple(quick) + tuple(thorough)}


use("C01", "models", ["search"], ["theory3", "theory4", "search3w", "search4", "search4s", "search5s", "search-live"])
use("C02", "models", ["search"], ["theory3", "search3w", "search4s"])
use("C03", "models", ["search-multi-q"], ["search-multi"])
use("C04", "models", ["search"], ["search4", "hierarchy"])
use("C05", "models", ["witness"], ["search", "witness3", "search3w", "search5s", "search-live"])
use("C06", "models", ["epoch", "epoch-init", "epoch-step"], ["search3w"])
use("C08", "models", ["normal"])
use("C15", "models", ["hierarchy"], ["hierarchy-any", "hierarchy-large", "search4", "witness4"])
use("C16", "models", ["theory"], ["theory3", "search3w"])
use("C17", "models", [], ["concurrent"])
use("C19", "models", ["longroutes"])

use("C03", "gens", ["queries1-a", "queries-b"], ["queries-a", "queries-c"])
use("C04", "gens", ["orders3"], ["orders4"])
use("C06", "gens", ["calc3"], ["calc4"])
use("C07", "gens", ["protocol4"], ["protocol5"])
use("C08", "gens", ["protocol4", "append3"], ["protocol5", "append4"])
use("C09", "gens", ["files3"], ["files4"])
use("C10", "gens", ["readers3", "readers4"], ["readers5"])
use("C11", "gens", ["prepared2"], ["prepared3", "prepared4"])
use("C12", "gens", ["prepared2"], ["prepared3", "prepared4"])
use("C13", "gens", ["prepared2"], ["prepared3", "prepared4"])
use("C14", "gens", ["prepared2"], ["prepared3", "prepared4"])
use("C16", "gens", ["queries1-c"], ["queries-c"])
use("C17", "gens", ["calc-par2"], ["calc-par3"])
use("C18", "gens", ["queries-a"], ["queries-b", "queries-c"])

# numbered families: nodes, base, first, last, graphs per script, more
FULL42 = (4, 2, 0, 4096, 200)
M64 = {"enc": "max64", "ws": [0, 1, 7000000, 8000000, 14999999, 15000000]}
M32 = {"enc": "max32", "ws": [0, 1, 7000000, 8000000, 14999999, 15000000]}
use("C01", "numbered", [FULL42 + ({},)], [(4, 3, 0, 3**12, 2000, {"step": 3})])
use("C02", "numbered", [(3, 4, 0, 4096, 200, {"c": "fresh"})], [(4, 3, 1, 3**12, 2000, {"step": 3})])
use("C04", "numbered", [(3, 3, 0, 729, 50, {"ords": "all"})],
    [(3, 4, 0, 4096, 100, {"ords": "all"}), (4, 2, 0, 4096, 100, {"ords": "all"})])
use("C05", "numbered", [FULL42 + ({"par": "0.1,1,0,0,0"},)],
    [FULL42 + ({"par": x},) for x in ("0,0,1,1,1", "NaN,1,0,500,2", "-inf,1e30,2,2,0", "1,1,max,max,max")])
use("C06", "numbered", [FULL42 + ({"c": "pool"},)], [(4, 3, 2, 3**12, 2000, {"step": 3, "c": "pool"})])
use("C12", "numbered", [(3, 6, 0, 6**6, 2000, {"step": 17, "via": ["c32", "helper"], **M32})],
    [(3, 6, 0, 6**6, 2000, {"step": 1, "via": ["c32", "helperjson"], **M32})])
use("C15", "numbered", [(3, 4, 0, 4096, 200, {"hier": True})],
    [FULL42 + ({"hier": True, "par": "0.1,1,0,0,0"},), (4, 3, 0, 3**12, 1000, {"hier": True, "step": 20})])
use("C16", "numbered", [(3, 6, 0, 6**6, 2000, {"step": 5, **M64})],
    [(3, 6, 0, 6**6, 2000, M64), (3, 6, 0, 6**6, 2000, {"par": "0.1,1,0,0,0", **M64})])
use("C18", "numbered", [(3, 3, 0, 729, 50, {"c": "fresh"})], [FULL42 + ({"c": "pool"},)])
PLAN["C15"]["features"] = ["hier"]
PLAN["C17"]["features"] = ["conc"]
PLAN["C06"]["hook"] = True

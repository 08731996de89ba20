"""What is checked for each property: parts[property] = function(res, seed, tier, tmp)."""
import check

ASSUMPTIONS = {}
PARTS = {}
TRACE_MAX = 1 << 30


def evm(prop, specs, thorough=8, forks=range(18), opt=False):
    def f(res, seed, tier, tmp):
        k = thorough if tier == "thorough" else 1
        check.evm_part(res, [(g, n * k) for g, n in specs], seed, tmp, forks, opt, TRACE_MAX if tier == "thorough" else 1500)
    PARTS.setdefault(prop, []).append(f)


evm("P01", [("nest", 14), ("undo", 14), ("atomic", 8), ("random_call", 6)])
evm("P02", [("ether", 16), ("random_call", 6)])
evm("P03", [("prices", 6), ("windows", 3), ("random_mem", 4)])
evm("P04", [("lives", 6), ("sstore", 8), ("random_store", 6)])
evm("P05", [("warm", 16), ("access", 10), ("random_store", 6)])
evm("P06", [("calls", 16), ("kinds", 12), ("random_call", 6)])
evm("P07", [("static", 24)])
evm("P08", [("lives", 6), ("create", 10), ("newat", 8), ("random_create", 6)])
evm("P09", [("lives", 10), ("destruct", 10), ("ends", 12), ("random_create", 4)])
evm("P10", [("touch", 30), ("empty", 14)])
evm("P11", [("arith", 12)])
evm("P12", [("loops", 1), ("flow", 5), ("windows", 4), ("random_mem", 3)])
evm("P13", [("opcodes", 4), ("kinds", 12)])
evm("P14", [("admit", 4), ("gate", 4)])
evm("P15", [("sign", 16)])
evm("P16", [("fees", 10)])
evm("P17", [("setcode", 90)])
evm("P18", [("transient", 60)])
evm("P19", [("logs", 16)])
evm("P22", [("blobtxs", 40)])
evm("P25", [("withdraw", 60)])
evm("P26", [("system", 120)])
evm("P33", [("blockhash", 3)])
evm("P34", [("pre", 1), ("pre8", 1), ("pre10", 1), ("pre15", 1)])


def chain(prop, specs, thorough=6, forks=range(18)):
    def f(res, seed, tier, tmp):
        k = thorough if tier == "thorough" else 1
        check.chain_part(res, [(g, n * k) for g, n in specs], seed, tmp, forks)
    PARTS.setdefault(prop, []).append(f)


chain("P20", [("headers", 2), ("forkheaders", 1), ("full", 1)])
chain("P21", [("feechain", 3)])
chain("P22", [("blobchain", 3)])
chain("P23", [("diffchain", 3), ("ommers", 1)])
chain("P24", [("ommers", 2)])
chain("P33", [("longchain", 2)])
chain("P36", [("upgrade", 2), ("forkheaders", 1)])


def simple(prop, pymod, tlamod, specs, thorough=8, forks=range(18)):
    def f(res, seed, tier, tmp):
        k = thorough if tier == "thorough" else 1
        check.simple_part(res, pymod, tlamod, [(g, n * k) for g, n in specs], seed, tmp, forks)
    PARTS.setdefault(prop, []).append(f)


simple("P27", "gentrie", "TrieTrace", [("trie", 60), ("order", 6)])
simple("P27", "gentrie", "StateTrace", [("worlds", 12)])
simple("P28", "genstate", "StateTrace", [("state", 40)])
simple("P29", "genstate", "StateTrace", [("optstate", 30), ("optzero", 1)])


def tour(prop, opt, quick, thorough, forks=range(18)):
    def f(res, seed, tier, tmp):
        t = tier == "thorough"
        check.tour_part(res, "OptTour.cfg", opt, thorough if t else quick, seed, forks)
    PARTS.setdefault(prop, []).append(f)


def model(prop, module, quick, thorough):
    def f(res, seed, tier, tmp):
        check.model_part(res, module, thorough if tier == "thorough" else quick)
    PARTS.setdefault(prop, []).append(f)


tour("P28", False, 4000, 60000)
tour("P29", True, 3000, 60000)
evm("P29", [("create", 2), ("destruct", 3), ("random_create", 3), ("random_store", 2)], opt=True)
model("P29", "OptState", "OptState.cfg", "OptStateDeep.cfg")


for prop, specs in dict(
        P08=[("addresses", 12)], P14=[("txs", 2)], P15=[("txs", 3)], P17=[("auths", 3)], P19=[("blooms", 6)], P20=[("headers", 4), ("blocksize", 1)],
        P21=[("basefee", 40)], P22=[("blobgas", 40)], P23=[("difficulty", 60)], P26=[("requests", 60)], P31=[("criteria", 1)],
        P35=[("ethash", 3), ("pow", 1)]).items():
    simple(prop, "genrows", "RowTrace", specs)
simple("P37", "genforms", "RowTrace", [("decode", 2), ("widths", 1), ("built", 20), ("read", 12)])
simple("P38", "genforms", "RowTrace", [("genesis", 12)])
simple("P30", "gentool", "ToolTrace", [("scenes", 1), ("blocks", 10)])
simple("P39", "gencases", "ToolTrace", [("tests", 4)])
simple("P32", "gentracer", "TracerTrace", [("lines", 20), ("tool", 5), ("costs", 1)])
simple("P40", "gensync", "SyncTrace", [("follow", 2), ("provider", 1), ("batches", 1), ("restart", 1), ("early", 1), ("real", 1)], thorough=6)
model("P40", "SyncModel", "SyncModel.cfg", "SyncModelDeep.cfg")
model("P31", "ScheduleModel", "ScheduleModel.cfg", "ScheduleModelDeep.cfg")


def run(prop, res, seed, tier, tmp):
    for f in PARTS[prop]:
        f(res, seed, tier, tmp)

"""Decides one property: records what the code of /repo does on the property's
scenarios and has TLC check the recordings against the specification.

usage: check.py <property id> [--seed N] [--tier quick|thorough]
exit 0: holds on everything explored; 1: VIOLATION printed; 2: the check failed"""
import argparse, copy, fnmatch, hashlib, json, multiprocessing as mp, os, re, shutil, signal, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import tlc  # noqa: E402

SCENARIO_SECONDS = 100
TRACE_LIMIT = 60000


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.notes = [], [], []
        self.exhaustive = []

    def tlc(self, r):
        self.states += r["distinct"]
        self.transitions += max(0, r["states"])

    def violation(self, key, what, data):
        self.violations.append((key, what, data))


class Failure(Exception):
    """the machinery failed"""


def timed(f, *a):
    """run f, bounded; returns (value, problem)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(SCENARIO_SECONDS)
    try:
        return f(*a), ""
    except Hang:
        return None, "hang"
    except Exception as e:   # noqa
        return None, "%s: %s" % (type(e).__name__, str(e)[:300])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def trouble():
    """the exception at hand: raised by the code under test, or by the generator?"""
    import ethereum
    repo = os.path.dirname(os.path.dirname(os.path.abspath(ethereum.__file__)))
    e = sys.exc_info()[1]
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if f.filename.startswith(repo + os.sep):
            return dict(crash="%s: %s" % (type(e).__name__, str(e)[:300]), where="%s in %s" % (os.path.relpath(f.filename, repo), f.name), stack=traceback.format_exc()[-3000:])
        if f.filename.startswith(HERE):
            break
    return dict(error=traceback.format_exc())


def gather(res, tasks, outs, name):
    scs = []
    for t, o in zip(tasks, outs):
        if "error" in o:
            raise Failure("generator %s: %s" % (t, o["error"]))
        if "crash" in o:
            res.violation("crash/%s/%s" % (name(t), o["crash"][:80]), dict(crash=o["crash"], where=o["where"]), dict(task=[str(x) for x in t], **o))
            continue
        scs += o["scs"]
    return scs


# ------------------------------------------------------------ EVM scenarios
def _record(a):
    gname, fk, n, seed, opt = a
    import random
    import rec, gen2, gen4
    r = random.Random("%s/%d/%d" % (gname, fk, seed))
    gen2.SEED = seed
    if opt:                                  # this process runs nothing else
        from ethereum_optimized import monkey_patch_optimized_state_db
        monkey_patch_optimized_state_db(rec.FORKS[fk], None)
    try:
        if gname.startswith("random"):
            kw = RANDOM[gname]
            ss = [gen2.random_scenario("%s%d" % (gname, i), fk, seed * 100003 + i, **kw) for i in range(n)]
        else:
            ss = getattr(gen4, "g_" + gname)(fk, r, n)
    except Exception:
        return trouble()
    out = []
    todo = [(s, True) for s in ss]
    while todo:
        s, first = todo.pop(0)
        if opt:
            if s["msg"]:
                continue
            s["nostate"] = True              # the outcome is compared by its state root
        if first:
            s["name"] = "%s/%s/%d" % (s["name"], gname, fk)
        res, bad = timed(rec.run_block, s)
        if bad:
            s["trace"], s["exp"] = [], dict(rec.NOEXP, crash=bad)
        else:
            s["trace"], s["exp"] = res
        if len(s["trace"]) >= TRACE_LIMIT:
            total = sum(rec.unint(t["gas"]) for t in s["txs"]) + sum(m["gas"] for m in s["msg"])
            if len(s["trace"]) <= total:
                continue                     # long, but possibly legitimate: not examined
            s["trace"], s["exp"] = [], dict(rec.NOEXP, crash="runaway execution")
        elif s["exp"]["crash"]:
            s["trace"], s["traced"] = [], False
        out.append(s)
        how = s.pop("around", 0)
        if how:
            todo += [(x, False) for x in gen2.around(s, s["exp"], r, how)]
    return dict(scs=out)


RANDOM = {
    "random": {},
    "random_store": dict(weights=dict(storage=25, call=14, transient=8)),
    "random_call": dict(weights=dict(call=25, create=6, log=5, storage=10, destruct=2)),
    "random_create": dict(weights=dict(create=20, destruct=5, call=12)),
    "random_mem": dict(weights=dict(mem=20, copy=12, hash=6, stack=8, jump=8, call=3)),
}


def evm_part(res, specs, seed, tmp, forks=range(18), opt=False, longest=1500):
    """specs: [(generator, n)]; opt: on the database-backed state"""
    tasks = [(g, fk, n, seed, opt) for g, n in specs for fk in forks]
    tasks.sort(key=lambda t: -t[1])
    with mp.Pool(8, maxtasksperchild=1 if opt else None) as pool:
        outs = pool.map(_record, tasks, chunksize=1)
    scs = gather(res, tasks, outs, lambda t: "%s/%d" % (t[0], t[1]))
    names = [s["name"] for s in scs]
    if len(set(names)) != len(names):
        raise Failure("scenario names are not unique: %s" % [n for n in names if names.count(n) > 1][:3])
    for s in scs:                            # of a long execution, the beginning
        if len(s["trace"]) > longest and not s.get("long"):
            s["trace"], s["cut"] = s["trace"][:longest], 1
    # bound the size of one run of TLC
    run, size, runs = [], 0, []
    for s in scs:
        run.append(s)
        size += len(s["trace"]) + 3
        if size > 600000:
            runs.append(run)
            run, size = [], 0
    runs.append(run)
    for run in runs:
        validate(res, "EVMTrace", run, tmp)


def _chain(a):
    gname, fk, n, seed = a
    import random
    import genchain
    r = random.Random("%s/%d/%d" % (gname, fk, seed))
    try:
        ss = getattr(genchain, "g_" + gname)(fk, r, n)
    except Exception:
        return trouble()
    for s in ss:
        s["name"] = "%s/%s/%d" % (s["name"], gname, fk)
    return dict(scs=ss)


def chain_part(res, specs, seed, tmp, forks=range(18)):
    tasks = [(g, fk, n, seed) for g, n in specs for fk in forks]
    tasks.sort(key=lambda t: -t[1])
    with mp.Pool(8) as pool:
        outs = pool.map(_chain, tasks, chunksize=1)
    scs = gather(res, tasks, outs, lambda t: "%s/%d" % (t[0], t[1]))
    validate(res, "ChainTrace", scs, tmp)


def _simple(a):
    module, gname, fk, n, seed = a
    import importlib, random
    r = random.Random("%s/%d/%d" % (gname, fk, seed))
    try:
        ss = getattr(importlib.import_module(module), "g_" + gname)(fk, r, n)
    except Exception:
        return trouble()
    for s in ss:
        s["name"] = "%s/%s/%d" % (s["name"], gname, fk)
    return dict(scs=ss)


def simple_part(res, pymod, tlamod, specs, seed, tmp, forks=range(18), heap=None):
    """scenarios recorded by harness/<pymod>.py, validated by tla/<tlamod>.tla"""
    tasks = [(pymod, g, fk, n, seed) for g, n in specs for fk in forks]
    tasks.sort(key=lambda t: -t[2])
    with mp.Pool(8) as pool:
        outs = pool.map(_simple, tasks, chunksize=1)
    scs = gather(res, tasks, outs, lambda t: "%s/%d" % (t[1], t[2]))
    validate(res, tlamod, scs, tmp)


def _tour(a):
    import tour
    try:
        d, bad = timed(tour.slice_, a)
        return dict(d=d, bad=bad)
    except Exception:
        return trouble()


def tour_part(res, cfg, opt, per_fork, seed, forks=range(18)):
    """histories printed by TLC, replayed on the in-memory or the database-backed store of each fork"""
    import random
    import tour
    r = tlc.run_tlc("OptState", cfg=cfg, workers=1, timeout=1200, heap="10g")
    res.tlc(r)
    if r["rc"] != 0:
        raise Failure("TLC on OptState (%s): %s" % (cfg, r["error"][:3000]))
    ps = tour.paths(r["out"])
    short = [p for p in ps if len(p) <= 3]
    rest = [p for p in ps if len(p) > 3]
    random.Random(seed).shuffle(rest)
    tasks = []
    for i, fk in enumerate(forks):
        k = min(per_fork, len(rest))
        start = i * k % max(1, len(rest))
        mine = (rest + rest)[start:start + k]
        for c in range(0, len(mine), 500):
            tasks.append((fk, opt, (short if c == 0 else []) + mine[c:c + 500]))
    with mp.Pool(8) as pool:
        outs = pool.map(_tour, tasks, chunksize=1)
    for t, o in zip(tasks, outs):
        if "error" in o:
            raise Failure("tour: " + o["error"])
        if "crash" in o:
            res.violation("tour/%d/%s" % (t[0], o["crash"][:80]), dict(crash=o["crash"], where=o["where"]), dict(fork=t[0], **o))
            continue
        res.traces += len(t[2])
        if o["bad"]:
            res.violation("tour/%d/%s" % (t[0], o["bad"]), dict(problem=o["bad"]), dict(fork=t[0]))
        elif o["d"]:
            d = o["d"]
            res.violation("tour/%s/%d/%s" % ("opt" if opt else "mem", d["fork"], "-".join(x[0] for x in d["path"][:d["diff"]["step"] + 1])), d["diff"], d)
    res.exhaustive.append("OptState with %s: %d distinct states, %d maximal histories, %d of them replayed per fork" % (cfg, r["distinct"], len(ps), min(per_fork, len(rest)) + len(short)))


def slim(s):
    d = dict(s)
    if len(d.get("trace", [])) > 400:
        d["trace"] = d["trace"][:400]
        d["cut"] = True
    return d


def validate(res, module, scs, tmp, env=None, cfg=None):
    if not scs:
        return
    path = os.path.join(tmp, "scenarios.json")
    with open(path, "w") as f:
        json.dump(scs, f)
    r = tlc.run_tlc(module, cfg=cfg, env=dict(env or {}, SCENARIOS=path), heap="10g", timeout=3000)
    os.unlink(path)
    vs = tlc.verdicts(r["out"])
    res.tlc(r)
    res.traces += len(vs)
    missing = [s["name"] for s in scs if s["name"] not in vs]
    for s in scs:
        v = vs.get(s["name"])
        if v and v[1][0] != "ok":
            res.violation("%s/%s" % (s["name"], v[1][0]), dict(steps=v[0], clause=v[1][0], about=v[1][1:2], expected=v[1][2:3], got=v[1][3:4]), slim(s))
    if (missing or r["rc"] != 0) and not res.violations:
        raise Failure("TLC: %d scenarios without a verdict (%s); rc %s\n%s" % (len(missing), missing[:3], r["rc"], r["error"][:3000] or r["out"][-2000:]))
    for s in scs[:: max(1, len(scs) // 3)][:3]:
        if len(res.samples) < 6:
            d = dict(name=s["name"], verdict=vs.get(s["name"], ("?", ["?"]))[1][:1], steps=vs.get(s["name"], (0,))[0])
            for k in ("fork", "txs", "msg", "ops", "rows"):
                if k in s and len(json.dumps(s[k])) < 1500:
                    d[k] = s[k]
            if s.get("trace"):
                d["first_events"] = s["trace"][:2]
            res.samples.append(d)


def model_part(res, module, cfg, timeout=1500, env=None, workers=8):
    """an exhaustive run of TLC on the specification alone"""
    r = tlc.run_tlc(module, cfg=cfg, env=env, timeout=timeout, heap="10g", workers=workers)
    res.tlc(r)
    if r["rc"] != 0:
        raise Failure("TLC on %s (%s): %s" % (module, cfg, r["error"][:3000] or r["out"][-2000:]))
    res.exhaustive.append("%s with %s: %d distinct states" % (module, cfg, r["distinct"]))
    return r


def definitions_part(res, module, without, cfg=None):
    """the Java evaluation of a module agrees with its definitions"""
    outs = []
    for w in ((), (without,)):
        r = tlc.run_tlc(module, cfg=cfg, workers=1, timeout=800, without=w)
        res.tlc(r)
        vs = re.findall(r'<<\s*"VALUE"[\s\S]*?>>(?=\n(?:<<|[A-Z]|\Z))', r["out"])
        if not vs:
            raise Failure("TLC on %s: %s" % (module, r["error"][:2000] or r["out"][-2000:]))
        outs.append([re.sub(r"\s+", "", v) for v in vs])
    if outs[0] != outs[1]:
        d = [(a, b) for a, b in zip(*outs) if a != b][:2]
        raise Failure("java/%s.java does not agree with its definitions: %s" % (without, d))
    res.exhaustive.append("%s: %d values agree with the definitions" % (module, len(outs[0])))


# ------------------------------------------------------------ known findings
def load_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                f = line.split(None, 3)
                out.append((f[1].split("=", 1)[1], f[2].split("=", 1)[1], f[3].strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    import props
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif")
    res = Result()
    try:
        props.run(a.prop, res, a.seed, a.tier, tmp)
    except Failure as e:
        print("CHECK FAILED: %s" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = [(k, w) for p, k, w in load_findings() if p == a.prop]
    seen, fresh = set(), []
    for key, what, data in res.violations:
        hit = [w for k, w in known if fnmatch.fnmatchcase(key, k)]
        if hit:
            seen.add(hit[0])
        else:
            fresh.append((key, what, data))
    for w in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, w))
    ev = dict(property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=a.seed, level="model_checking",
              coverage=dict(states=res.states, transitions=res.transitions, traces_validated_against_impl=res.traces, samples=res.samples,
                            model_runs=res.exhaustive, notes=res.notes),
              assumptions=props.ASSUMPTIONS.get(a.prop, []), wall_s=round(time.time() - t0, 1), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        d = os.path.join(VERIF, "replays", a.prop)
        os.makedirs(d, exist_ok=True)
        for key, what, data in fresh[:int(os.environ.get("SHOW", "5"))]:
            p = os.path.join(d, hashlib.sha256(key.encode()).hexdigest()[:12] + ".json")
            with open(p, "w") as f:
                json.dump(dict(property=a.prop, key=key, what=what, scenario=data), f, indent=1)
            print("%s: %s" % (key, json.dumps(what)[:600]))
            print("VIOLATION property=%s replay=%s" % (a.prop, p))
        print("%d disagreements in %d" % (len(fresh), res.traces))
        return 1
    print("%s holds: %d behaviours of the code validated, %d states, %.0f s" % (a.prop, res.traces, res.states, time.time() - t0))
    return 0


if __name__ == "__main__":
    import check
    sys.exit(check.main())

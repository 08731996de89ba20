"""Runs with the tracers of the transition tool installed, in the shape TracerTrace.tla reads."""
import copy, glob, io, json, os, re, shutil, tempfile
import gen2, gen3
import gentool as GT
from gentool import *
from ethereum_spec_tools.evm_tools.t8n.evm_trace.count import CountTracer
from ethereum_spec_tools.evm_tools.t8n.evm_trace.eip3155 import Eip3155Tracer
from ethereum_spec_tools.evm_tools.t8n.evm_trace.group import GroupTracer

LONGEST = 500
MUST = {"pc", "op", "gas", "gasCost", "memSize", "depth", "refund", "opName"}


def hexnum(s, bad):
    if not isinstance(s, str) or not re.fullmatch(r"0x(0|[1-9a-f][0-9a-f]*)", s):
        bad.append("number %r" % (s,))
        return 0
    return int(s, 16)


def digest(b):
    return keccak(b)[:4].hex()


def line(text):
    bad = []
    try:
        d = json.loads(text)
    except ValueError:
        return dict(bad="not JSON: " + text[:60], line=1)
    if "output" in d:
        if set(d) - {"error"} != {"output", "gasUsed"}:
            bad.append("fields %s" % sorted(d))
        if not re.fullmatch("([0-9a-f][0-9a-f])*", d["output"]):
            bad.append("output %r" % d["output"][:40])
        return dict(output=d["output"], gasUsed=hexnum(d.get("gasUsed"), bad), error="error" in d, bad="; ".join(bad))
    if not MUST - {"gasCost"} <= set(d) or set(d) - MUST - {"memory", "stack", "returnData", "error"}:
        bad.append("fields %s" % sorted(d))
    e = dict(line=1, bad="", pc=min(int(d.get("pc", -1)), MAXINT), op=d.get("op"), gas=hexnum(d.get("gas"), bad), cost="-", memSize=d.get("memSize", -1),
             depth=d.get("depth", -1), refund=d.get("refund", -1), name=d.get("opName", ""), error=bool(d.get("error")), stack="-", memory="-", ret="-")
    if isinstance(e["op"], str):
        e["op"] = -1
    if "gasCost" in d:
        e["cost"] = hx(hexnum(d["gasCost"], bad))
    if "stack" in d:
        e["stack"] = "%d:%s" % (len(d["stack"]), digest(b"".join(hexnum(s, bad).to_bytes(32, "big") for s in d["stack"])))
    for k, to in (("memory", "memory"), ("returnData", "ret")):
        if k in d:
            if not re.fullmatch("0x([0-9a-f][0-9a-f])*", d[k]):
                bad.append("%s %r" % (k, d[k][:40]))
            else:
                e[to] = digest(bytes.fromhex(d[k][2:]))
    e["bad"] = "; ".join(bad)[:200]
    return e


def split(text):
    """the transactions of one stream"""
    out, cur = [], []
    for x in text.splitlines():
        cur.append(line(x))
        if "output" in cur[-1]:
            out.append(dict(name="", lines=cur))
            cur = []
    return out + ([dict(name="", lines=cur)] if cur else [])


def read_files(d):
    out = []
    for p in glob.glob(os.path.join(d, "trace-*")):
        nm = os.path.basename(p)
        m = re.match(r"trace-(\d+)-", nm)
        out.append((int(m.group(1)) if m else -1, dict(name=nm, lines=[line(x) for x in open(p).read().splitlines()])))
    return [x[1] for x in sorted(out, key=lambda x: (x[0], x[1]["name"]))]


def counts(c):
    return sorted([k, v] for k, v in c.items())


def some_flags(r):
    return dict(stack=r.random() < .8, memory=r.random() < .6, returndata=r.random() < .6)


def families(fk, r):
    seed = r.randrange(1 << 30)
    yield from gen3.g_undo(fk, r, 2)
    for nm, k in (("calls", 3), ("static", 3), ("create", 3), ("destruct", 2), ("flow", 2), ("prices", 1), ("sstore", 1), ("opcodes", 1)):
        yield from getattr(gen3, "g_" + nm)(fk, r, k)
    for i in range(6):
        for w in ("call", "create", "mem", "store"):
            kw = dict(call=dict(call=25, create=6, log=5, storage=10, destruct=2), create=dict(create=20, destruct=5, call=12),
                      mem=dict(mem=20, copy=12, hash=6, stack=8, jump=8, call=3), store=dict(storage=25, call=14, transient=8))[w]
            yield gen2.random_scenario("r%s%d" % (w, i), fk, seed + i, weights=kw)


class TooLong(Exception):
    pass


class Steps:
    """stops an execution that is too long to look at"""

    def __init__(self):
        self.left, self.over = LONGEST, False

    def __call__(self, evm, event):
        self.left -= 1
        if self.left < -3 * LONGEST:
            self.over = True
            raise TooLong


def too_long(s):
    t = Steps()
    run_block(copy.deepcopy(s), tracer=t)
    return t.over


def g_costs(fk, r, n):
    """prices far beyond the gas there is"""
    out = []
    for req in r.sample([1 << k for k in range(24, 72, 3)] + [(1 << 64) - 1 - d for d in (0, 699, 9699, 9700, 11600, 40000)] + [(1 << 32) - 1, (1 << 63) - 1, 1 << 255], 8):
        for op in ("CALL", "CALLCODE", "DELEGATECALL", "STATICCALL"):
            if (op == "DELEGATECALL" and fk < HOMESTEAD) or (op == "STATICCALL" and fk < BYZANTIUM) or r.random() < .4:
                continue
            code = A(0, 0, 0, 0, *([r.choice([0, 1])] if op in ("CALL", "CALLCODE") else []), "@" + X[3], req, op, "STOP")
            t = tx(fk, KEY1, to=X[0], gas=r.choice([21000 + 60, 21000 + 700, 90000]))
            out.append(scenario("cost%d%s" % (len(out), op), fk, eoas() + [acct(X[0], 1, 5, code)], [t]))
    return record(r, out)


def g_lines(fk, r, n):
    ss = [s for s in families(fk, r) if not s["msg"] and s["txs"]]
    return record(r, r.sample(ss, min(len(ss), n)))


def record(r, ss):
    out = []
    for s in ss:
        s.pop("around", 0)
        tmp = tempfile.mkdtemp(prefix="trc")
        try:
            flags = some_flags(r)
            named = r.random() < .4
            w = io.StringIO()
            g, c = GroupTracer(), CountTracer()
            kw = {k: v for k, v in dict(trace_memory=flags["memory"], trace_stack=flags["stack"], trace_return_data=flags["returndata"]).items()}
            g.add(Eip3155Tracer(output_basedir=tmp if named else w, **kw))
            g.add(c)
            if too_long(s):
                continue
            _, plain = run_block(copy.deepcopy(s), traced=False)
            _, exp = run_block(s, tracer=g)
            files = read_files(tmp) if named else split(w.getvalue())
            if sum(len(f["lines"]) for f in files) > LONGEST or exp["bad"]:
                continue
            show = lambda e: json.dumps({k: v for k, v in e.items() if k != "state"}, sort_keys=True) + digest(json.dumps(e["state"], sort_keys=True).encode())
            s.update(name="%s_%d" % (s["name"], len(out)), tool=False, named=named, flags=flags, files=files, counts=counts(c.results()), plain=show(plain), traced=show(exp))
            s["exp"] = dict(crash=exp["crash"], bad=exp["bad"])
            out.append(s)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def t8n(fk, s, args, data, tmp):
    p = parser()
    o = p.parse_args(["t8n", "--input.alloc=stdin", "--input.env=stdin", "--input.txs=stdin", "--output.result=stdout", "--output.alloc=stdout",
                      "--state.fork=" + STATE_FORKS[fk], "--output.basedir=" + tmp] + args)
    w = io.StringIO()
    GT._cache["E"].T8N(o, w, io.StringIO(json.dumps(data))).run()
    return json.loads(w.getvalue())


def g_tool(fk, r, n):
    """runs of the tool itself: traced, then not traced, then traced again"""
    out = []
    ss = [s for s in families(fk, r) if not s["msg"] and s["txs"]]
    for nm in ("admit", "system", "fees", "setcode"):
        ss += globals()["g_" + nm](fk, r, 1)
    ss = [s for s in ss if plain(fk, s["pre"]) and not s["msg"] and s["txs"] and not s["ommers"] and len(s["txs"]) < 8 and all(readable(t) and len(t["data"]) < 20000 for t in s["txs"])]
    for s in r.sample(ss, min(len(ss), n)):
        s.pop("around", 0)
        s["blk"]["number"] = s["blk"]["number"] or "01"
        if (fk == DAO and unint(s["blk"]["number"]) in (0, 5)) or too_long(s):
            continue
        flags = some_flags(r)
        state = r.random() < .4
        env = env_of(s["blk"])
        jenv = env_json(fk, env, s["withdrawals"], [], r)
        if state:
            jenv.pop("parentHash", None)
            jenv["withdrawals"] = []
        data = dict(alloc=alloc_json(s["pre"]), env=jenv, txs=[tx_json(t) for t in s["txs"]])
        args = ["--state.chainid=%d" % unint(env["chainId"])] + (["--state-test"] if state else [])
        targs = args + ["--trace", "--opcode.count=stdout"] + [a for a, b in (("--trace.memory", flags["memory"]), ("--trace.nostack", not flags["stack"]), ("--trace.returndata", flags["returndata"])) if b]
        tmp, tmp2 = tempfile.mkdtemp(prefix="trc"), tempfile.mkdtemp(prefix="trc")
        crash, files, cs, a, b = "", [], [], "", ""
        try:
            x = t8n(fk, s, targs, data, tmp)
            cs = counts(x.pop("opcodeCount"))
            a = json.dumps(x, sort_keys=True)
            files = read_files(tmp)
            shutil.rmtree(tmp)
            b = json.dumps(t8n(fk, s, args, data, tmp2), sort_keys=True)
            if read_files(tmp2) or os.path.exists(tmp):
                b += "; trace files of a run without tracing"
        except Exception as e:   # noqa
            crash = type(e).__name__ + ": " + str(e)[:160]
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
            shutil.rmtree(tmp2, ignore_errors=True)
            trace_mod.set_evm_trace(trace_mod.discard_evm_trace)
        if sum(len(f["lines"]) for f in files) > LONGEST:
            continue
        bad = json.loads(a)["result"].get("blockException", "") if a else ""
        s.update(name="%s_t%d" % (s["name"], len(out)), tool=True, named=True, opt=dict(state=state), flags=flags, files=files, counts=cs, plain=digest(b.encode()) + b[-45:], traced=digest(a.encode()) + a[-45:],
                 exp=dict(crash=crash, bad=bad and "exception"))
        out.append(s)
    return out

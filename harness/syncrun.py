"""Runs the tool that follows a provider, in a process of its own, against a
provider on the loopback interface, and writes down what it does.
usage: syncrun.py JOB.json EVENTS"""
import dataclasses, importlib, json, os, pkgutil, random, sys, threading, time, traceback
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

job = json.load(open(sys.argv[1]))
out = open(sys.argv[2], "a")
NAMES = job["names"]
beat = [time.monotonic()]
ended = threading.Lock()
nap = time.sleep


def event(k, **kw):
    beat[0] = time.monotonic()
    out.write(json.dumps(dict(k=k, **kw)) + "\n")
    out.flush()


def leave(code=0):
    ended.acquire()
    out.close()
    os._exit(code)


def watch():
    while True:
        time.sleep(1)
        if time.monotonic() - beat[0] > 150:
            event("hang")
            leave()


def died(a):
    """the thread that downloads is gone: nothing more will come"""
    if a.thread is None or "process_request" in a.thread.name:
        return
    nap(3)                                   # what has come can still be taken
    event("hang", type=a.exc_type.__name__, text=str(a.exc_value)[:300], where="".join(traceback.format_tb(a.exc_traceback))[-600:])
    leave()


threading.excepthook = died


class Provider(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    rnd = random.Random(job["seed"])
    grown = [0]

    def log_message(self, *a):
        pass

    def top(self):
        """how many blocks there are by now"""
        return len(job["raw"]) if not job["grow"] else min(len(job["raw"]), job["grow"] + 3 * Provider.grown[0])

    def reply(self, q):
        a = dict(jsonrpc="2.0", id=q["id"])
        n, top = int(q["params"][0], 16), self.top()
        end = dict(error=dict(code=-32000, message="no such block"))
        if q["method"] == "debug_getRawBlock":
            a.update(dict(result="0x" + job["raw"][n - 1]) if 1 <= n <= top else end)
        elif q["method"] == "eth_getBlockByNumber" and q["params"][1] is True:
            if 1 <= n <= top:
                a["result"] = job["blocks"][n - 1]
            elif n > len(job["raw"]) and top == len(job["raw"]):
                a.update(end)
            else:
                a["result"] = None
        elif q["method"] == "eth_getUncleByBlockNumberAndIndex":
            a["result"] = job["ommers"][n - 1][int(q["params"][1], 16)]
        else:
            a["error"] = dict(code=-32601, message="no such method")
        return a

    def do_POST(self):
        qs = json.loads(self.rfile.read(int(self.headers["Content-Length"])))
        if isinstance(qs, dict):
            body = self.reply(qs)
        else:
            body = [self.reply(q) for q in qs]
            if job["shuffle"]:
                Provider.rnd.shuffle(body)
            if any(a.get("result", "") is None for a in body):
                Provider.grown[0] += 1
        b = json.dumps(body).encode()
        self.send_response(200)
        self.send_header("Content-Type", "application/json")
        self.send_header("Content-Length", str(len(b)))
        self.end_headers()
        self.wfile.write(b)


server = ThreadingHTTPServer(("127.0.0.1", 0), Provider)
threading.Thread(target=server.serve_forever, daemon=True).start()
threading.Thread(target=watch, daemon=True).start()

real_get = pkgutil.get_data
pkgutil.get_data = lambda package, path: json.dumps(job["genesis"]).encode() if path.startswith("assets/") else real_get(package, path)
time.sleep = lambda s: nap(min(s, .01) if s >= 5 else s)     # waiting for the provider's chain to grow

from ethereum.fork_criteria import ByBlockNumber, ByTimestamp, Unscheduled
from ethereum_rlp import rlp
from ethereum.crypto.hash import keccak256
from ethereum_spec_tools.forks import Hardfork


def criterion(i):
    k, x, f = job["pairs"][i]
    return ByBlockNumber(x) if k == 0 else ByTimestamp(x) if k == 1 else Unscheduled()


if not job["collapse"]:
    discover = Hardfork.discover.__func__
    by_name = {NAMES[f]: i for i, (k, x, f) in enumerate(job["pairs"])}

    def discovered(cls, *a, **kw):
        fs = discover(cls, *a, **kw)
        for f in fs:
            f.mod.FORK_CRITERIA = criterion(by_name[f.short_name])
            setattr(importlib.import_module("ethereum." + f.short_name), "FORK_CRITERIA", f.mod.FORK_CRITERIA)
        fs.sort(key=lambda f: f.criteria)
        return fs
    Hardfork.discover = classmethod(discovered)

sys.argv = ["ethereum-spec-sync", "--rpc-url", "http://127.0.0.1:%d/" % server.server_address[1]] + job["args"]
from ethereum_spec_tools.sync import Sync

INDEX = {n: i for i, n in enumerate(NAMES)}


def fork_of(x):
    return INDEX.get(type(x).__module__.split(".")[1], -1)


def unlike(a, b, where=""):
    """how a differs from b, kinds of numbers included"""
    if dataclasses.is_dataclass(b):
        if type(a).__qualname__ != type(b).__qualname__ or type(a).__module__ != type(b).__module__:
            return "%s: %s.%s" % (where, type(a).__module__, type(a).__qualname__)
        return next((d for d in (unlike(getattr(a, f.name, None), getattr(b, f.name), where + "." + f.name) for f in dataclasses.fields(b)) if d), "")
    if isinstance(b, (bytes, bytearray)):
        return "" if isinstance(a, (bytes, bytearray)) and bytes(a) == bytes(b) else "%s: %r" % (where, a)
    if isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            return where + ": length"
        return next((d for d in (unlike(x, y, where + "[]") for x, y in zip(a, b)) if d), "")
    return "" if type(a) is type(b) and a == b else "%s: %r" % (where, a)


def as_read(block):
    """is the block what its fork reads from the provider's bytes?"""
    n = int(block.header.number)
    if n == 0:
        return ""
    if n > len(job["raw"]):
        return "not the provider's"
    f = NAMES[fork_of(block)]
    try:
        return unlike(block, rlp.decode_to(importlib.import_module("ethereum.%s.blocks" % f).Block, bytes.fromhex(job["raw"][n - 1])))
    except Exception as e:   # noqa
        return "%s does not read it: %s" % (f, type(e).__name__)


def history(chain):
    ns = [int(b.header.number) for b in chain.blocks]
    return dict(lo=ns[0] if ns else -1, hi=ns[-1] if ns else -1, gaps="" if ns == list(range(ns[0], ns[0] + len(ns))) else "gaps")


ADDR = bytes.fromhex("4d" * 20)


def mark(fk, state, value=None):
    S, T = importlib.import_module("ethereum.%s.state" % NAMES[fk]), importlib.import_module("ethereum.%s.fork_types" % NAMES[fk])
    a = T.Address(ADDR)
    acc = S.get_account(state, a)
    if value is None:
        return int(acc.balance)
    S.set_account(state, a, dataclasses.replace(acc, balance=type(acc.balance)(value)))


def wrap(fk, sync):
    fm = importlib.import_module("ethereum.%s.fork" % NAMES[fk])
    apply, transition = fm.apply_fork, fm.state_transition
    from ethereum.exceptions import InvalidBlock

    def apply_fork(chain):
        r = apply(chain)
        event("apply", fork=fk)
        return r

    def state_transition(chain, block):
        n = int(block.header.number)
        if n == job["kill"]:
            event("killed")
            leave(9)
        try:
            bid = bytes(keccak256(rlp.encode(block))).hex()
        except Exception as e:   # noqa
            bid = type(e).__name__
        event("block", fork=fk, form=fork_of(block), id=bid, unlike=as_read(block), mark=mark(fk, chain.state), **history(chain))
        if job["real"]:
            return transition(chain, block)
        if n == job["bad"]:
            raise InvalidBlock("planted")
        mark(fk, chain.state, n)
        chain.blocks.append(block)
        if len(chain.blocks) > 255:
            chain.blocks = chain.blocks[-255:]
    fm.apply_fork, fm.state_transition = apply_fork, state_transition
    if job["real"] and hasattr(fm, "validate_proof_of_work"):
        fm.validate_proof_of_work = lambda h: None


try:
    sync = Sync()
    fk = INDEX[sync.active_fork.short_name]
    event("start", fork=fk, n=int(sync.block_number), forms=[-2 if int(b.header.number) == 0 else fork_of(b) for b in sync.chain.blocks],
          unlike=next((d for d in map(as_read, sync.chain.blocks) if d), ""), mark=mark(fk, sync.chain.state), chain=(lambda h: h if len(h) % 2 == 0 else "0" + h)("%x" % int(sync.chain.chain_id or 0)), **history(sync.chain))
    for i in range(len(NAMES)):
        wrap(i, sync)
    sync.process_blocks()
    event("return")
except SystemExit as e:
    event("error", type="exit", text=str(e))
except BaseException as e:   # noqa
    event("error", type=type(e).__name__, text=str(e)[:300], where=traceback.format_exc()[-600:])
leave()

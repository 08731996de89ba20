"""Recorder for chains: builds blocks, applies them through state_transition
and writes down what happened, in the shape ChainTrace.tla reads."""
import copy
from rec import *

LONDON_BLOCK, DAO_BLOCK = 12965000, 1920000
EMPTY_OMMERS = keccak(rl([])).hex()
Z32 = "00" * 32
TEXTS = ["parent", "ommersHash", "coinbase", "stateRoot", "txRoot", "receiptRoot", "bloom", "extra", "mix", "nonce",
         "wRoot", "beaconRoot", "reqHash"]
NATS = ["difficulty", "number", "gasLimit", "gasUsed", "time", "baseFee", "blobGas", "excess"]


def header(fk, **kw):
    h = dict(fk=fk, parent=Z32, ommersHash=EMPTY_OMMERS, coinbase="c0" * 20, stateRoot=Z32, txRoot=Z32, receiptRoot=Z32,
             bloom="00" * 256, difficulty=hx(0 if fk >= PARIS else 200000), number="64", gasLimit=hx(10000000), gasUsed="",
             time="03e8", extra="", mix=Z32, nonce="00" * 8, baseFee=hx(7 if fk >= LONDON else 0), wRoot=Z32, blobGas="", excess="",
             beaconRoot=Z32, reqHash=Z32)
    for k, v in kw.items():
        h[k] = hx(v) if isinstance(v, int) else v
    return h


def header_list(h):
    b, n = lambda k: unhex(h[k]), lambda k: unint(h[k])
    fk = h["fk"]
    l = [b("parent"), b("ommersHash"), b("coinbase"), b("stateRoot"), b("txRoot"), b("receiptRoot"), b("bloom"), n("difficulty"),
         n("number"), n("gasLimit"), n("gasUsed"), n("time"), b("extra"), b("mix"), b("nonce")]
    if fk >= LONDON:
        l.append(n("baseFee"))
    if fk >= SHANGHAI:
        l.append(b("wRoot"))
    if fk >= CANCUN:
        l += [n("blobGas"), n("excess"), b("beaconRoot")]
    if fk >= PRAGUE:
        l.append(b("reqHash"))
    return l


def header_hash(h):
    return keccak(rl(header_list(h)))


def wd_list(w):
    return [unint(w["index"]), unint(w["validator"]), unhex(w["addr"]), unint(w["amount"])]


def rlraw(items):
    """a list of already encoded items"""
    p = b"".join(items)
    return _hd2(len(p)) + p


def _hd2(n):
    if n <= 55:
        return bytes([0xC0 + n])
    b = unhex(hx(n))
    return bytes([0xF7 + len(b)]) + b


def block_bytes(fk, h, txs, ommers, withdrawals):
    t = [tx_bytes(x) if x["type"] == 0 else rl(tx_bytes(x)) for x in txs]
    parts = [rl(header_list(h)), rlraw(t), rl([header_list(o) for o in ommers])]
    if fk >= SHANGHAI:
        parts.append(rl([wd_list(w) for w in withdrawals]))
    return rlraw(parts)


# our own arithmetic: only used to build blocks that are (meant to be) valid
def base_fee(p):
    lim, used, fee = unint(p["gasLimit"]), unint(p["gasUsed"]), unint(p["baseFee"])
    t = lim // 2
    if used == t:
        return fee
    if used > t:
        return fee + max(1, fee * (used - t) // t // 8)
    return fee - fee * (t - used) // t // 8


def blob_price(fk, excess):
    den = 5007716 if fk >= PRAGUE else 3338477
    p, acc, i = 0, den, 1
    while acc > 0:
        p += acc
        acc = acc * excess // (den * i)
        i += 1
    return p // den


def excess_blob(fk, p):
    if p["fk"] < CANCUN:
        return 0
    e, u = unint(p["excess"]), unint(p["blobGas"])
    t = 131072 * (6 if fk >= PRAGUE else 3)
    if e + u < t:
        return 0
    if fk >= OSAKA and 8192 * unint(p["baseFee"]) > 131072 * blob_price(fk, e):
        return e + u * 3 // 9
    return e + u - t


DELAY = {BYZANTIUM: 3000000, CONSTANTINOPLE: 5000000, ISTANBUL: 5000000, MUIR: 9000000, BERLIN: 9000000, LONDON: 9700000,
         ARROW: 10700000, GRAY: 11400000}


def difficulty(fk, number, time, p):
    pd, dt = unint(p["difficulty"]), time - unint(p["time"])
    q = pd // 2048
    if fk < HOMESTEAD:
        d = pd + q if dt < 13 else pd - q
    elif fk < BYZANTIUM:
        d = pd + q * max(1 - dt // 10, -99)
    else:
        d = pd + q * max((2 if p["ommersHash"] != EMPTY_OMMERS else 1) - dt // 9, -99)
    n = (number - DELAY.get(fk, 0)) // 100000 - 2
    return max(131072, d + (2**n if n >= 0 else 0))


def follow(fk, p, dt=12, **kw):
    """a header of the fork after the header p; the commitments are still open"""
    num, time = unint(p["number"]) + 1, unint(p["time"]) + dt
    h = header(fk, parent=header_hash(p).hex(), number=num, time=time, gasLimit=p["gasLimit"])
    if fk < PARIS:
        h["difficulty"] = hx(difficulty(fk, num, time, p))
    if fk == DAO and DAO_BLOCK <= num < DAO_BLOCK + 10:
        h["extra"] = b"dao-hard-fork".hex()
    if fk == LONDON and num == LONDON_BLOCK:
        h["gasLimit"] = hx(2 * unint(p["gasLimit"]))
    if fk >= LONDON:
        h["baseFee"] = hx(10**9 if fk == LONDON and num == LONDON_BLOCK else base_fee(p))
    if fk >= CANCUN:
        h["excess"] = hx(excess_blob(fk, p))
    for k, v in kw.items():
        h[k] = hx(v) if isinstance(v, int) else v
    return h


def clone(x):
    """a deep copy; immutable records are shared"""
    if isinstance(x, dict):
        y = copy.copy(x)
        for k in x:
            y[k] = clone(x[k])
        return y
    if isinstance(x, (list, tuple, set)):
        return type(x)(clone(e) for e in x)
    if type(x).__name__ in ("State", "Trie", "TransientStorage"):
        y = copy.copy(x)
        for k in list(vars(x)) if hasattr(x, "__dict__") else []:
            setattr(y, k, clone(getattr(x, k)))
        return y
    return x


class Chain:
    """a chain of the code under check, and what we know of it"""

    def __init__(self, fk, pre, blocks, chain_id=1):
        self.fk = fk
        self.chain_id = chain_id
        self.heads = [b["h"] for b in blocks]
        fork = mod(fk, "fork")
        bs = []
        for b in blocks:
            f = b["h"]["fk"]
            bs.append(rlp.decode_to(mod(f, "blocks").Block, block_bytes(f, b["h"], [], b["ommers"], [])))
        self.c = fork.BlockChain(blocks=bs, state=build_state(fk, pre), chain_id=U64(chain_id))

    def hashes(self, number):
        all_ = [self.heads[0]["parent"]] + [header_hash(h).hex() for h in self.heads[-256:]]
        k = min(len(all_), 256, number)
        return all_[-k:] if k else []

    def finish(self, h, txs=(), ommers=(), withdrawals=()):
        """fill in the commitments of the header, as the code itself computes them"""
        fk = self.fk
        h = dict(h)
        if ommers:
            h["ommersHash"] = keccak(rl([header_list(o) for o in ommers])).hex()
        blk = dict(coinbase=h["coinbase"], number=h["number"], time=h["time"], difficulty=h["difficulty"], randao=h["mix"],
                   gasLimit=unint(h["gasLimit"]), chainId=hx(self.chain_id), baseFee=h["baseFee"], excess=h["excess"],
                   beaconRoot=h["beaconRoot"], hashes=self.hashes(unint(h["number"])))
        st = clone(self.c.state)
        env = block_env(fk, blk, st)
        fork, trie = mod(fk, "fork"), mod(fk, "trie")
        try:
            b = rlp.decode_to(mod(fk, "blocks").Block, block_bytes(fk, h, txs, ommers, withdrawals))
            if fk < PARIS:
                out = fork.apply_body(env, b.transactions, b.ommers)
            elif fk < SHANGHAI:
                out = fork.apply_body(env, b.transactions)
            else:
                out = fork.apply_body(env, b.transactions, b.withdrawals)
        except Exception:   # not a valid block: leave it unfinished
            return h
        h["gasUsed"] = hx(int(out.block_gas_used))
        h["stateRoot"] = bytes(mod(fk, "state").state_root(st)).hex()
        h["receiptRoot"] = bytes(trie.root(out.receipts_trie)).hex()
        h["txRoot"] = bytes(trie.root(out.transactions_trie)).hex()
        h["bloom"] = bytes(mod(fk, "bloom").logs_bloom(out.block_logs)).hex()
        if fk >= SHANGHAI:
            h["wRoot"] = bytes(trie.root(out.withdrawals_trie)).hex()
        if fk >= CANCUN:
            h["blobGas"] = hx(int(out.blob_gas_used))
        if fk >= PRAGUE:
            h["reqHash"] = bytes(mod(fk, "requests").compute_requests_hash(out.requests)).hex()
        return h

    def head(self):
        return keccak(bytes(rlp.encode(self.c.blocks[-1].header))).hex()

    def block(self, h, txs=(), ommers=(), withdrawals=(), probe=False, name=""):
        """apply a block (probe: to a copy); returns the step"""
        fk = self.fk
        step = dict(kind="probe" if probe else "block", name=name, h=h, txs=list(txs), ommers=list(ommers),
                    withdrawals=list(withdrawals), msg=[])
        exp = dict(bad="", crash="", state=[], head="", stored=0)
        fork = mod(fk, "fork")
        c = self.c
        if probe:
            c = type(c)(blocks=list(c.blocks), state=clone(c.state), chain_id=c.chain_id)
        old = getattr(fork, "validate_proof_of_work", None)
        before = len(c.blocks)
        saved = None if probe else clone(c.state)
        try:
            b = rlp.decode_to(mod(fk, "blocks").Block, block_bytes(fk, h, txs, ommers, withdrawals))
            if fk < PARIS:
                fork.validate_proof_of_work = lambda h: None
            fork.state_transition(c, b)
        except (EthereumException, RLPException) as e:
            exp["bad"] = type(e).__name__
        except Exception as e:   # noqa
            exp["crash"] = type(e).__name__ + ": " + str(e)[:200]
        finally:
            if fk < PARIS:
                fork.validate_proof_of_work = old
        exp["head"] = keccak(bytes(rlp.encode(c.blocks[-1].header))).hex()
        if not exp["bad"] and not exp["crash"]:
            exp["state"] = dump_state(fk, c.state)
            if not probe:
                self.heads.append(h)
        elif len(c.blocks) != before:
            exp["head"] = "length changed"
        elif not probe:
            self.c.state = saved              # a rejected block leaves the state in no particular shape
        step["exp"] = exp
        return step

    def upgrade(self, to):
        step = dict(kind="fork", name="fork", to=to)
        exp = dict(bad="", crash="", state=[], head="", stored=0)
        fork = mod(to, "fork")
        n = len(self.c.blocks)
        try:
            self.c = fork.apply_fork(self.c)
            self.fk = to
            exp["state"] = dump_state(to, self.c.state)
            exp["head"] = self.head() if len(self.c.blocks) == n else "length changed"
            exp["stored"] = 0
        except Exception as e:   # noqa
            exp["crash"] = type(e).__name__ + ": " + str(e)[:200]
        step["exp"] = exp
        return step

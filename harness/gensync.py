"""A provider's chains, and the tool that follows them, in the shape SyncTrace.tla reads."""
import json, os, shutil, subprocess, sys, tempfile
import chain as CH
import genchain as GC
from gentool import *
from chain import block_bytes, header_hash, header_list, rlraw, EMPTY_OMMERS

HERE = os.path.dirname(os.path.abspath(__file__))
JSON_FORKS = [f for f in range(SHANGHAI + 1) if f not in (DAO, MUIR, ARROW, GRAY)]     # those that a configuration file can name
JSON_KEYS = {HOMESTEAD: "homesteadBlock", TANGERINE: "eip150Block", SPURIOUS: "eip155Block", BYZANTIUM: "byzantiumBlock", CONSTANTINOPLE: "constantinopleBlock",
             ISTANBUL: "istanbulBlock", BERLIN: "berlinBlock", LONDON: "londonBlock", PARIS: "mergeForkBlock", SHANGHAI: "shanghaiTime"}
P0 = lambda s: "0x" + s
TOTAL = 0x7fffffff


# ---- what a provider answers for a block, field by field
def header_json(h):
    d = dict(parentHash=P0(h["parent"]), sha3Uncles=P0(h["ommersHash"]), miner=P0(h["coinbase"]), stateRoot=P0(h["stateRoot"]), transactionsRoot=P0(h["txRoot"]), receiptsRoot=P0(h["receiptRoot"]),
             logsBloom=P0(h["bloom"]), difficulty=h0(h["difficulty"]), number=h0(h["number"]), gasLimit=h0(h["gasLimit"]), gasUsed=h0(h["gasUsed"]), timestamp=h0(h["time"]), extraData=P0(h["extra"]),
             mixHash=P0(h["mix"]), nonce=P0(h["nonce"]), hash=P0(header_hash(h).hex()), totalDifficulty="0x1", size="0x220")
    fk = h["fk"]
    if fk >= LONDON:
        d["baseFeePerGas"] = h0(h["baseFee"])
    if fk >= SHANGHAI:
        d["withdrawalsRoot"] = P0(h["wRoot"])
    if fk >= CANCUN:
        d.update(blobGasUsed=h0(h["blobGas"]), excessBlobGas=h0(h["excess"]), parentBeaconBlockRoot=P0(h["beaconRoot"]))
    if fk >= PRAGUE:
        d["requestsHash"] = P0(h["reqHash"])
    return d


def sent_json(t, h, i):
    """a transaction in a block, the way a provider tells it"""
    d = tx_json(t)
    d.update({"hash": P0(keccak(tx_bytes(t)).hex()), "from": P0("11" * 20), "blockHash": P0(header_hash(h).hex()), "blockNumber": h0(h["number"]), "transactionIndex": hex(i)})
    if t["type"]:
        d["yParity"] = d["v"]
    if t["type"] > 1:
        d["gasPrice"] = d["maxFeePerGas"]
    for a in d.get("authorizationList", []):
        a["yParity"] = a.pop("v")
    return d


def block_json(b):
    d = dict(header_json(b["h"]), transactions=[sent_json(t, b["h"], i) for i, t in enumerate(b["txs"])], uncles=[P0(header_hash(o).hex()) for o in b["ommers"]])
    if b["h"]["fk"] >= SHANGHAI:
        d["withdrawals"] = [dict(index=h0(w["index"]), validatorIndex=h0(w["validator"]), address=P0(w["addr"]), amount=h0(w["amount"])) for w in b["withdrawals"]]
    return d


# ---- blocks that can be read, though not judged
def wild_header(fk, r, number, time):
    b32 = lambda: "%064x" % r.getrandbits(256)
    nat = lambda: r.choice([0, 1, 127, 128, 255, 256, r.getrandbits(60)])
    return header(fk, parent=b32(), ommersHash=b32(), coinbase="%040x" % r.getrandbits(160), stateRoot=b32(), txRoot=b32(), receiptRoot=b32(), bloom="%0512x" % r.getrandbits(r.choice([1, 2048])),
                  difficulty=nat(), number=number, gasLimit=nat(), gasUsed=r.choice([0, 21000, 30000000]), time=time, extra="%064x" % r.getrandbits(256) if r.random() < .5 else "",
                  mix=b32(), nonce="%016x" % r.getrandbits(64), **(dict(baseFee=nat()) if fk >= LONDON else {}), **(dict(wRoot=b32()) if fk >= SHANGHAI else {}),
                  **(dict(blobGas=r.choice([0, 131072, 1]), excess=r.choice([0, 131072, 255, 256]), beaconRoot=b32()) if fk >= CANCUN else {}), **(dict(reqHash=b32()) if fk >= PRAGUE else {}))


def wild_tx(fk, r):
    typ = r.choice(types_of(fk))
    kw = dict(nonce=r.choice([0, 1, 255, 256]), gas=r.choice([0, 21000, 255, 1 << 40]), value=r.choice([0, 1, 1 << 200]), data=bytes(r.randrange(256) for _ in range(r.choice([0, 1, 56]))), price=r.choice([0, 7, 300, 1 << 70]))
    kw["to"] = r.choice([X[0], X[1]] + ([""] if typ < 3 else []))
    if typ:
        kw["access"] = r.choice([[], [[X[0], []]], [[X[0], ["%064x" % 4, "00" * 32]], [X[1], []]]])
    if typ > 1:
        kw.update(prio=r.choice([0, 1, 300]), maxfee=r.choice([0, 7, 1 << 70]))
    if typ == 3:
        kw.update(blobs=[blob(r) for _ in range(r.choice([1, 2]))], blobfee=r.choice([0, 1, 300]))
    if typ == 4:
        kw["auths"] = [sign_auth(r.choice([0, 1, 2]), X[0], r.choice([0, 1, 300]), KEY3) for _ in range(r.choice([1, 2]))]
    return tx(fk, r.choice([KEY1, KEY2]), typ=typ, **kw)


def wild_block(fk, r, number, time, busy):
    h = wild_header(fk, r, number, time)
    txs = [wild_tx(fk, r) for _ in range(r.choice([0, 1, 3]))] if busy else []
    ommers = [wild_header(fk, r, max(1, number - 1), time - 1) for _ in range(r.choice([0, 0, 1, 2]))] if fk < PARIS and busy else []
    ws = [dict(index=hx(r.choice([0, 1, 300])), validator=hx(r.choice([0, 255, 1 << 40])), addr=X[r.randrange(4)], amount=hx(r.choice([0, 1, 1 << 63]))) for _ in range(r.choice([0, 1, 3]) if busy else 0)] if fk >= SHANGHAI else []
    return dict(h=h, txs=txs, ommers=ommers, withdrawals=ws)


def active(pairs, number, time):
    """our own reading of a schedule, to build blocks of the right form"""
    k = 0
    while k + 1 < len(pairs) and ((pairs[k + 1][0] == 0 and number >= pairs[k + 1][1]) or (pairs[k + 1][0] == 1 and time >= pairs[k + 1][1])):
        k += 1
    return pairs[k][2]


# ---- running the tool
def run(sc, which, tmp, n, args, **kw):
    """one run; the events of it"""
    job = dict(names=FORKS, pairs=sc["pairs"], collapse=sc["collapse"], genesis=sc["document"], raw=sc["raw"], blocks=sc["answers"], ommers=sc["uncles"], bad=sc["bad"], real=sc["real"],
               kill=0, grow=0, shuffle=False, seed=n, args=args)
    job.update(kw)
    jp, ep = "%s/job%d.json" % (tmp, n), "%s/events%d" % (tmp, n)
    with open(jp, "w") as f:
        json.dump(job, f)
    open(ep, "w").close()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TMPDIR=tmp, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["ethereum"].__file__))))
    with open("%s/err%d" % (tmp, n), "w") as err:
        try:
            subprocess.run([sys.executable, os.path.join(HERE, "syncrun.py"), jp, ep], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, timeout=400, env=env, cwd=tmp)
        except subprocess.TimeoutExpired:
            pass
    with open(ep) as f:
        es = [json.loads(l) for l in f if l.endswith("\n")]
    if not es or es[-1]["k"] not in ("return", "error", "killed", "hang"):
        with open("%s/err%d" % (tmp, n)) as f:
            es.append(dict(k="error", type="gone", text=f.read()[-300:]))
    return es


DEFAULT = dict(fork=-1, n=-1, form=-1, id="", unlike="", mark=-1, lo=-1, hi=-1, gaps="", chain="", forms=[], type="", text="", where="")


def document(sc, pre, cid, time, r):
    """the file that describes the first block"""
    d = dict(config=dict(chainId=cid), difficulty="0x20000", extraData="0x", gasLimit="0x989680", nonce="0x0000000000000042", timestamp=hex(time),
             alloc={"0x" + a: dict(balance=h0(b) if unint(b) else "0x0", nonce=h0(n), code="0x" + c, storage={P0("%064x" % unint(k)): P0("%064x" % unint(v)) for k, v in st}) for a, n, b, c, st in pre})
    if sc["collapse"]:
        for k, x, f in sc["pairs"]:
            if f:
                d["config"][JSON_KEYS[f]] = x
    return d


def scenario(name, fk, r, pairs, collapse, blocks, gtime, cid, pre=(), real=False, bad=0, limit=10**9):
    sc = dict(name=name, fork=fk, pairs=pairs, collapse=collapse, real=real, bad=bad, genesis=hx(gtime), chainId=hx(cid), limit=limit, runs=[])
    sc["document"] = document(sc, list(pre), cid, gtime, r)
    sc["raw"] = [block_bytes(b["h"]["fk"], b["h"], b["txs"], b["ommers"], b["withdrawals"]).hex() for b in blocks]
    sc["answers"] = [block_json(b) for b in blocks]
    sc["uncles"] = [[header_json(o) for o in b["ommers"]] for b in blocks]
    sc["chain"] = [dict(num=unint(b["h"]["number"]), time=b["h"]["time"], id=keccak(bytes.fromhex(x)).hex(), bad=i + 1 == bad, gas=unint(b["h"]["gasUsed"])) for i, (b, x) in enumerate(zip(blocks, sc["raw"]))]
    return sc


def finished(sc):
    for k in ("document", "raw", "answers", "uncles"):
        sc.pop(k, None)
    for x in sc["runs"]:
        for e in x["events"]:
            for k, v in DEFAULT.items():
                e.setdefault(k, v)
        x["asked"] = x.pop("args")
    sc["pairs"] = [[k, hx(x), f] for k, x, f in sc["pairs"]]
    return sc


def schedule(fk, r, collapse, many, length, gtime, step):
    """criteria for all forks; fk is active at the first block, later ones become active on the way"""
    pairs, at, kind, left = [], 0, 0, r.choice([2, 3, 5, 18]) if many else r.choice([0, 1, 1, 1])
    for f in JSON_FORKS if collapse else range(18):
        if not collapse and kind == 0 and f > fk and r.random() < .1 or f >= SHANGHAI:
            kind = 1
        if f <= fk:
            pairs.append([kind if collapse else 0, 0, f])
        elif left and at < length:
            at += r.choice([1, 1, 2, 3] if many else [1, 2, length // 2, max(1, length - 2)])
            if collapse and r.random() < .3 and pairs[-1][0] == kind:
                pairs.append([kind, pairs[-1][1], f])          # together with the one before
                continue
            left -= 1
            pairs.append([kind, gtime + step * at - r.choice([0, 0, step - 1]) if kind else at, f])
        else:
            pairs.append([kind, (gtime + step * (length + 500) if kind else length + 50) + f, f] if collapse or kind and r.random() < .5 and pairs[-1][0] < 2 else [2, 0, f])
    return pairs


def build(fk, r, name, collapse, many, length, busy, bad=0, limit=10**9, misplaced=0, gtime=None):
    step = r.choice([1, 12, 13])
    if gtime is None:
        gtime = r.choice([1, 1000, 1 << 31])
    pairs = schedule(fk, r, collapse, many, length, gtime, step)
    eff = effective(pairs, collapse)
    blocks = []
    for n in range(1, length + 1):
        t = gtime + step * n
        blocks.append(wild_block(active(eff, n, t), r, n if n != misplaced else r.choice([n - 1, n + 1, n + 256]), t, busy))
    cid = r.choice([1, 5, 1337, (1 << 64) - 1])
    return scenario(name, fk, r, pairs, collapse, blocks, gtime, cid, pre=[acct(X[0], 1, 3, b"\1", {1: 2})], bad=bad, limit=limit)


def effective(pairs, collapse):
    if not collapse:
        return sorted(pairs, key=lambda p: (p[0], p[1]))
    d = {}
    for k, x, f in pairs:
        d[(k, x)] = f
    return [[k, x, f] for (k, x), f in sorted(d.items())]


def flags(r, sc, persist=None):
    a = ["--sepolia" if sc["collapse"] else "--mainnet"] if sc["collapse"] or r.random() < .5 else []
    if r.random() < .5:
        a.append("--geth")
    if persist:
        a += ["--persist", persist]
    elif r.random() < .5:
        a.append("--unoptimized")
    return a


def add(sc, tmp, args, stop=0, db=0, base=0, reset=False, **kw):
    n = len(sc["runs"])
    if stop:
        args = args + ["--stop-at", str(stop)]
    es = run(sc, n, tmp, n, args, **kw)
    sc["runs"].append(dict(events=es, stop=stop, db=db, base=base, reset=reset, args=[a.replace(tmp, "") for a in args]))


def scratch(f):
    def g(fk, r, n):
        tmp = tempfile.mkdtemp(prefix="sync")
        try:
            return f(fk, r, n, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return g


@scratch
def g_follow(fk, r, n, tmp):
    """one run, on chains that pass several forks"""
    out = []
    for i in range(n):
        collapse = fk in JSON_FORKS and r.random() < .4
        length = r.choice([1, 6, 14, 14])
        what = r.choice(["", "", "", "bad", "stop", "misplaced", "late"])
        sc = build(fk, r, "follow%d" % i, collapse, True, length, True, bad=r.randint(1, length) if what == "bad" else 0, misplaced=r.randint(2, length) if what == "misplaced" and length > 1 else 0)
        d = tempfile.mkdtemp(dir=tmp)
        a = flags(r, sc)
        add(sc, d, a, stop=r.randint(1, length) if what == "stop" else 0, grow=r.choice([0, 0, 1, 4]) if "--geth" not in a else 0, shuffle=r.random() < .5)
        out.append(finished(sc))
    return out


@scratch
def g_provider(fk, r, n, tmp):
    """the same chain by either of the ways to ask for it"""
    out = []
    for i in range(n):
        sc = build(fk, r, "provider%d" % i, False, True, 9, True)
        for geth in (["--geth"], []):
            add(sc, tempfile.mkdtemp(dir=tmp), ["--unoptimized"] + geth, shuffle=r.random() < .5)
        out.append(finished(sc))
    return out


@scratch
def g_batches(fk, r, n, tmp):
    """longer than a batch, and than what is kept"""
    out = []
    for i in range(n):
        sc = build(fk, r, "batches%d" % i, False, False, r.choice([256, 257, 300, 513]), False)
        add(sc, tempfile.mkdtemp(dir=tmp), flags(r, sc), shuffle=r.random() < .5)
        out.append(finished(sc))
    return out


@scratch
def g_restart(fk, r, n, tmp):
    """stopped, by itself or from outside, and started again"""
    out = []
    for i in range(n):
        long = r.random() < .6
        length = r.choice([300, 280]) if long else r.choice([8, 12])
        limit = r.choice([0, 30000, 100000, 31000 * 20, 10**9])
        sc = build(fk, r, "restart%d" % i, False, False, length, not long, limit=limit)
        d = tempfile.mkdtemp(dir=tmp)
        at = 0
        other = False
        for k in range(r.choice([2, 3, 4])):
            a = flags(r, sc, d + "/db") + ["--gas-per-commit", str(limit)]
            how = r.choice(["stop", "kill", "end"]) if k else r.choice(["stop", "stop", "kill"])
            to = r.randint(256, length) if long else r.randint(1, length)
            reset = k > 0 and r.random() < .15
            kw = {}
            add(sc, d, a + (["--reset"] if reset else []), db=1, reset=reset, stop=to if how == "stop" else 0, kill=to if how == "kill" else 0, shuffle=r.random() < .3)
        if r.random() < .5:      # from a copy of what was saved; a second time there is already something
            for k in range(2):
                a = flags(r, sc, d + "/db2") + ["--initial-state", d + "/db", "--gas-per-commit", str(limit)]
                to = r.randint(256, length) if long else r.randint(1, length)
                add(sc, d, a, db=2, base=1, stop=to if r.random() < .6 else 0)
        out.append(finished(sc))
    return out


@scratch
def g_early(fk, r, n, tmp):
    """started again while the first block still belongs to the history"""
    out = []
    for i in range(n):
        sc = build(fk, r, "early%d" % i, False, False, 6, False)
        sc["early"] = True
        d = tempfile.mkdtemp(dir=tmp)
        for k in range(2):
            add(sc, d, ["--persist", d + "/db"] + (["--geth"] if r.random() < .5 else []), db=1, stop=[3, 0][k])
        out.append(finished(sc))
    return out


@scratch
def g_real(fk, r, n, tmp):
    """blocks that the forks judge themselves"""
    from ethereum import genesis as G
    out = []
    for i in range(n):
        if fk == DAO:
            continue
        pre = [a for a in GC.pre_state(fk, r) if a[0] != "%040x" % 0]
        gtime, cid = 1000, 1
        pairs = [[0, 0, f] if f <= fk else [2, 0, f] for f in range(18)]
        sc0 = dict(collapse=False, pairs=pairs)
        doc = document(sc0, pre, cid, gtime, r)
        S, F, TR, FT, B = mod(fk, "state"), mod(fk, "fork"), mod(fk, "trie"), mod(fk, "fork_types"), mod(fk, "blocks")
        gf = G.GenesisFork(Address=FT.Address, Account=FT.Account, Trie=TR.Trie, Bloom=B.Bloom if hasattr(B, "Bloom") else FT.Bloom, Header=B.Header, Block=B.Block, set_account=S.set_account, set_storage=S.set_storage,
                           state_root=S.state_root, root=TR.root, hex_to_address=mod(fk, "utils.hexadecimal").hex_to_address)
        c = F.BlockChain(blocks=[], state=S.State(), chain_id=U64(0))
        G.add_genesis_block(gf, c, G.GenesisConfiguration(U64(cid), Uint(0x20000), Bytes(b""), Uint(10**7), Bytes8(unhex("0000000000000042")), U256(gtime), doc["alloc"]))
        g = c.blocks[0].header
        at = lambda n: getattr(g, n)
        p = header(fk, parent=bytes(at("parent_hash")).hex(), coinbase=bytes(at("coinbase")).hex(), stateRoot=bytes(at("state_root")).hex(), txRoot=bytes(at("transactions_root")).hex(), receiptRoot=bytes(at("receipt_root")).hex(),
                   difficulty=int(at("difficulty")), number=0, gasLimit=int(at("gas_limit")), time=gtime, mix=bytes(at("prev_randao") if hasattr(g, "prev_randao") else at("mix_digest")).hex(), nonce=bytes(at("nonce")).hex(),
                   bloom=bytes(at("bloom")).hex(), extra=bytes(at("extra_data")).hex(), ommersHash=bytes(at("ommers_hash")).hex(), **(dict(baseFee=int(at("base_fee_per_gas"))) if fk >= LONDON else {}),
                   **(dict(wRoot=bytes(at("withdrawals_root")).hex()) if fk >= SHANGHAI else {}), **(dict(blobGas=int(at("blob_gas_used")), excess=int(at("excess_blob_gas")), beaconRoot=bytes(at("parent_beacon_block_root")).hex()) if fk >= CANCUN else {}),
                   **(dict(reqHash=bytes(at("requests_hash")).hex()) if fk >= PRAGUE else {}))
        if keccak(rl(header_list(p))) != keccak(bytes(rlp.encode(g))):
            raise ValueError("genesis header not understood")
        ch = GC.Chain(fk, pre, [dict(h=p, ommers=[])], cid)
        steps, nonces = [], {}
        GC.extend(ch, r, nonces, steps, 4)
        steps = [s for s in steps if not s["exp"]["bad"] and not s["exp"]["crash"]]
        bad = 0
        if r.random() < .4 and steps:
            bad = len(steps)
            steps[-1] = dict(steps[-1], h=dict(steps[-1]["h"], stateRoot=GC.flip(steps[-1]["h"]["stateRoot"], r)))
        sc = scenario("real%d" % i, fk, r, pairs, False, [dict(h=s["h"], txs=s["txs"], ommers=s["ommers"], withdrawals=s["withdrawals"]) for s in steps], gtime, cid, pre=pre, real=True, bad=bad)
        d = tempfile.mkdtemp(dir=tmp)
        for geth in ([], ["--geth"]):
            add(sc, d, geth + (["--unoptimized"] if r.random() < .5 else []))
        out.append(finished(sc))
    return out

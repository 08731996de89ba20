"""Runs of the transition tool, in the shape ToolTrace.tla reads."""
import copy, io, json, logging, os, shutil, tempfile
import genchain as GC
from genchain import *

STATE_FORKS = ["Frontier", "Homestead", "DaoFork", "TangerineWhistle", "SpuriousDragon", "Byzantium", "ConstantinopleFix", "Istanbul",
               "MuirGlacier", "Berlin", "London", "ArrowGlacier", "GrayGlacier", "Paris", "Shanghai", "Cancun", "Prague", "Osaka"]
OTHER_NAMES = {TANGERINE: ["EIP150"], SPURIOUS: ["EIP158"], PARIS: ["Merge"], HOMESTEAD: ["FrontierToHomesteadAt5"], DAO: ["HomesteadToDaoAt5"],
               BYZANTIUM: ["EIP158ToByzantiumAt5"], LONDON: ["BerlinToLondonAt5"], ISTANBUL: ["ConstantinopleToIstanbulAt5"]}
EARLY_NAMES = {FRONTIER: ["FrontierToHomesteadAt5"], HOMESTEAD: ["HomesteadToDaoAt5", "HomesteadToEIP150At5"], BERLIN: ["BerlinToLondonAt5"]}
_cache = {}


def h0(s):
    """a number for JSON"""
    return hex(unint(s))


def parser():
    if "p" not in _cache:
        import ethereum_spec_tools.evm_tools as E
        _cache["p"] = E.create_parser()
        _cache["E"] = E
        from ethereum_spec_tools.forks import Hardfork
        found = Hardfork.discover()          # once is enough
        Hardfork.discover = classmethod(lambda cls, *a: found)
        logging.getLogger("T8N").addHandler(logging.NullHandler())
        logging.getLogger("T8N").setLevel(logging.CRITICAL)
        logging.getLogger("T8N").propagate = False
    return _cache["p"]


def alloc_json(pre):
    return {"0x" + a: dict(balance=h0(b), nonce=h0(n), code="0x" + c, storage={"0x%064x" % unint(k): "0x%064x" % unint(v) for k, v in st}) for a, n, b, c, st in pre}


def tx_json(t, key=None, protect=None):
    """key: leave the signing to the tool"""
    d = dict(type=hex(t["type"]), nonce=h0(t["nonce"]), gas=h0(t["gas"]), to="0x" + t["to"] if t["to"] else None, value=h0(t["value"]), input="0x" + t["data"],
             v=h0(t["v"]), r=h0(t["r"]), s=h0(t["s"]))
    if t["type"] < 2:
        d["gasPrice"] = h0(t["gasPrice"])
    else:
        d["maxPriorityFeePerGas"], d["maxFeePerGas"] = h0(t["maxPrio"]), h0(t["maxFee"])
    if t["type"]:
        d["chainId"] = h0(t["chainId"])
        d["accessList"] = [dict(address="0x" + a, storageKeys=["0x" + k for k in ks]) for a, ks in t["access"]]
    if t["type"] == 3:
        d["maxFeePerBlobGas"], d["blobVersionedHashes"] = h0(t["blobFee"]), ["0x" + b for b in t["blobs"]]
    if t["type"] == 4:
        d["authorizationList"] = [dict(chainId=h0(a["chainId"]), address="0x" + a["addr"], nonce=h0(a["nonce"]), v=h0(a["v"]), r=h0(a["r"]), s=h0(a["s"])) for a in t["auths"]]
    if key:
        del d["v"], d["r"], d["s"]
        d["secretKey"] = "0x%064x" % key
        if protect is not None:
            d["protected"] = protect
    return d


def env_of(blk, **more):
    """the environment of a scenario: everything is given"""
    e = dict(given=["baseFee", "difficulty", "excess"], pGasLimit="", pGasUsed="", pBaseFee="", pTime="", pDifficulty="", pUncles=False, pExcess="", pBlobGas="")
    e.update(blk)
    e.update(more)
    return e


def env_json(fk, e, wds, ommers, r):
    num = unint(e["number"])
    d = dict(currentCoinbase="0x" + e["coinbase"], currentGasLimit=hex(e["gasLimit"]), currentNumber=h0(e["number"]), currentTimestamp=h0(e["time"]))
    if r.random() < .3:
        d["currentNumber"] = str(num)
    if "difficulty" in e["given"]:
        d["currentDifficulty"] = h0(e["difficulty"])
    elif fk < PARIS:
        d["parentTimestamp"], d["parentDifficulty"] = h0(e["pTime"]), h0(e["pDifficulty"])
        d["parentUncleHash"] = "0x" + (EMPTY_OMMERS if not e["pUncles"] else "ab" * 32)
        if not e["pUncles"] and r.random() < .5:
            del d["parentUncleHash"]
    if fk >= LONDON:
        if "baseFee" in e["given"]:
            d["currentBaseFee"] = h0(e["baseFee"])
        if "baseFee" not in e["given"] or "excess" not in e["given"]:
            d["parentGasUsed"], d["parentGasLimit"], d["parentBaseFee"] = h0(e["pGasUsed"]), h0(e["pGasLimit"]), h0(e["pBaseFee"])
    if fk >= CANCUN:
        if "excess" in e["given"]:
            d["currentExcessBlobGas"] = h0(e["excess"])
        else:
            d["parentExcessBlobGas"], d["parentBlobGasUsed"] = h0(e["pExcess"]), h0(e["pBlobGas"])
        d["parentBeaconBlockRoot"] = "0x" + e["beaconRoot"]
    if fk >= PARIS:
        x = e["randao"]      # leading zeros, or the prefix, may be missing
        d["currentRandom"] = r.choice(["0x", "0x", ""]) + (x.lstrip("0") or "0" if r.random() < .5 else x)
    if fk >= SHANGHAI:
        d["withdrawals"] = [dict(index=h0(w["index"]), validatorIndex=h0(w["validator"]), address="0x" + w["addr"], amount=h0(w["amount"])) for w in wds]
    k = len(e["hashes"])
    d["blockHashes"] = {hex(num - k + i): "0x" + x for i, x in enumerate(e["hashes"])}
    if k and fk >= PRAGUE:
        d["parentHash"] = "0x" + e["hashes"][-1]
    if ommers:
        d["ommers"] = [dict(delta=r.choice([num - unint(o["number"]), hex(num - unint(o["number"]))]), address="0x" + o["coinbase"]) for o in ommers]
    return d


def name_of(fk, number, r):
    more = OTHER_NAMES.get(fk, []) if number >= 5 else EARLY_NAMES.get(fk, [])
    more = [m for m in more if m.split("At")[-1] != "5" or fk != ISTANBUL or number >= 5]
    return r.choice(more) if more and r.random() < .4 else STATE_FORKS[fk]


EXP = dict(crash="", bad="", state=[], gas="", blobGas="absent", baseFee="", difficulty="", excess="absent", body="absent", receipts=[], requests=[],
           stateRoot="", receiptsRoot="", txRoot="", bloom="", logsHash="", withdrawalsRoot="absent", requestsHash="absent", rejected=[], imported="-")


def strip(s):
    return s[2:]


def num(s):
    return hx(int(s, 16)) if s else ""


_daemon = {}


def served(request, extra):
    """what the daemon answers; one daemon answers everything this process asks"""
    import argparse, http.client, socket, socketserver, threading, time, urllib.parse
    if _daemon.get("pid") != os.getpid():
        socketserver.BaseServer.handle_error = lambda *a: None      # it closes the answer twice, and says so
        from ethereum_spec_tools.evm_tools.daemon import Daemon
        d = tempfile.mkdtemp(prefix="t8nd")
        _daemon.update(pid=os.getpid(), path=d + "/sock")
        threading.Thread(target=Daemon(argparse.Namespace(uds=d + "/sock", timeout=0)).run, daemon=True).start()
    for i in range(400):
        s = socket.socket(socket.AF_UNIX)
        try:
            s.connect(_daemon["path"])
            break
        except OSError:
            s.close()
            if i == 399:
                raise
            time.sleep(.05)
    s.settimeout(300)
    b = json.dumps(request).encode()
    path = "/" + ("?" + urllib.parse.urlencode([("arg", a) for a in extra]) if extra else "")
    s.sendall(b"POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n" % (path.encode(), len(b)) + b)
    a = http.client.HTTPResponse(s)
    a.begin()
    t = a.read().decode()
    s.close()
    if a.status != 200:
        raise RuntimeError("answer %d %s" % (a.status, t[:200]))
    return t


def stop_daemon():
    if _daemon.get("pid") == os.getpid():
        shutil.rmtree(os.path.dirname(_daemon["path"]), ignore_errors=True)
        _daemon.clear()


def tool(fk, sc, args, data, request=None):
    """run the real tool; fills in sc["exp"]"""
    p = parser()
    exp = copy.deepcopy(EXP)
    out = {}
    tmp = tempfile.mkdtemp(prefix="t8n")
    try:
        if request:
            out = json.loads(served(*request))
        else:
            o = p.parse_args(["t8n", "--input.alloc=stdin", "--input.env=stdin", "--input.txs=stdin", "--output.result=stdout", "--output.alloc=stdout",
                              "--output.basedir=" + tmp] + args)
            w = io.StringIO()
            t = _cache["E"].T8N(o, w, io.StringIO(json.dumps(data)))
            t.run()
            out = json.loads(w.getvalue())
    except Exception as e:   # noqa
        import traceback
        exp["crash"] = type(e).__name__ + ": " + str(e)[:160]
        sc["stack"] = traceback.format_exc()[-1500:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        import ethereum.trace
        ethereum.trace.set_evm_trace(ethereum.trace.discard_evm_trace)
    if out:
        q = out["result"]
        for a, acc in sorted(out["alloc"].items()):
            st = [[num(k), num(x)] for k, x in acc.get("storage", {}).items() if int(x, 16)]
            exp["state"].append([strip(a), num(acc.get("nonce", "0x0")) or "00", num(acc.get("balance", "0x0")), strip(acc.get("code", "0x")), sorted(st)])
        exp.update(gas=num(q["gasUsed"]), baseFee=num(q["currentBaseFee"]), difficulty=num(q["currentDifficulty"]), stateRoot=strip(q["stateRoot"]), txRoot=strip(q["txRoot"]),
                   receiptsRoot=strip(q["receiptsRoot"]), bloom=strip(q["logsBloom"]), logsHash=strip(q["logsHash"]), rejected=[x["index"] for x in q["rejected"]])
        for a, b in (("withdrawalsRoot", "withdrawalsRoot"), ("requestsHash", "requestsHash")):
            if a in q:
                exp[b] = strip(q[a])
        for a, b in (("currentExcessBlobGas", "excess"), ("blobGasUsed", "blobGas")):
            if a in q:
                exp[b] = num(q[a])
        exp["requests"] = [strip(x) for x in q.get("requests", [])]
        exp["bad"] = q.get("blockException", "") and "exception"
        exp["receipts"] = [[strip(x["transactionHash"]), ("true" if x["succeeded"] else "false") if "succeeded" in x else strip(x["post_state"]), num(x["gasUsed"]), strip(x["bloom"])]
                           for x in q["receipts"]]
        if "body" in out:
            exp["body"] = strip(out["body"])
    sc["exp"] = exp
    return sc


def plain(fk, pre):
    """can the pre-state be written down in JSON?"""
    seen = set()
    for a, n, b, c, st in pre:
        if a in seen or (fk >= PARIS and not unint(n) and not unint(b) and not c) or any(not unint(v) for k, v in st):
            return False
        seen.add(a)
    return True


def readable(t):
    return len(t["to"]) in (0, 40) and all(len(a) == 40 and all(len(k) == 64 for k in ks) for a, ks in t["access"])


def fits(t):
    """do the fields have their widths?"""
    return all(len(t[k]) <= 64 for k in ("nonce", "value", "v", "r", "s", "blobFee")) and len(t["chainId"]) <= 16 and all(
        len(a["v"]) <= 2 and len(a["nonce"]) <= 16 and all(len(a[k]) <= 64 for k in ("chainId", "r", "s")) for a in t["auths"])


def run(fk, r, name, pre, env, txs, wds=(), ommers=(), state=False, reward="", how=None, keys=None):
    """one run of the tool"""
    how = how or r.choice(["json", "json", "rlp"])
    if how == "json" and not all(readable(t) for t in txs):
        how = "rlp"
    chain = unint(env["chainId"])
    number = unint(env["number"])
    nm = name_of(fk, number, r)
    opt = dict(state=state, dao=fk == DAO and number == (5 if nm.endswith("At5") else 0), reward=reward)
    sc = dict(name=name, fork=fk, pre=pre, env=env, txs=list(txs), withdrawals=list(wds), ommers=list(ommers), msg=[], opt=opt, how=how, fork_name=nm)
    args = ["--state.fork=" + nm, "--state.chainid=%d" % chain]
    if reward == "none":
        args.append("--state.reward=-1")
    elif reward:
        args.append("--state.reward=%d" % unint(reward))
    elif r.random() < .2 and fk >= PARIS:
        args.append("--state.reward=0")
    if state:
        args.append("--state-test")
    if r.random() < .5 and all(t["type"] in types_of(fk) and fits(t) for t in txs):
        args.append("--output.body=stdout")
        sc["body"] = 1
    if how == "rlp":
        data = "0x" + C.rlraw([tx_bytes(t) if t["type"] == 0 else rl(tx_bytes(t)) for t in txs]).hex()
    else:
        data = []
        for i, t in enumerate(txs):
            k = (keys or {}).get(i)
            data.append(tx_json(t, k, None if k is None or t["type"] or unint(t["v"]) >= 35 else False) if k else tx_json(t))
            if not t["type"] and r.random() < .5:
                del data[-1]["type"]
    jenv = env_json(fk, env, wds, ommers, r)
    if state:
        jenv.pop("parentHash", None)
        jenv["withdrawals"] = []
    inputs = dict(alloc=alloc_json(pre), env=jenv, txs=data)
    request = None
    if (fk >= PARIS or reward) and (r.random() < .4 or any(len(a[3]) > 40000 for a in pre[-1:])) and all(t["type"] in types_of(fk) and fits(t) for t in txs):
        sc["how"], sc["body"] = "daemon", 1
        request = (dict(input=inputs, state=dict(fork=nm, chainid=chain, reward=-1 if reward == "none" else unint(reward))), ["--state-test"] if state else [])
    return tool(fk, sc, args, inputs, request)


def g_scenes(fk, r, n):
    """the scenarios of other families, given to the tool"""
    out = []
    for nm, k, size in (("admit", 30, 1), ("system", 8, 2), ("withdraw", 6, 2), ("fees", 12, 2), ("setcode", 10, 2), ("logs", 5, 3), ("sign", 12, 3), ("blockhash", 3, 1)):
        ss = globals()["g_" + nm](fk, r, size)
        ss = [s for s in ss if plain(fk, s["pre"]) and not s["msg"] and len(s["txs"]) < 12 and all(len(t["data"]) < 20000 for t in s["txs"])]
        for s in r.sample(ss, min(len(ss), k * n)):
            state = r.random() < .25
            txs = s["txs"]
            if state:
                txs = txs[:r.choice([1, 1, 2])]      # the first alone counts
                if not txs:
                    continue
            blk = s["blk"]
            out.append(run(fk, r, "%s_%s%d" % (nm, s["name"], len(out)), s["pre"], env_of(blk), txs, s["withdrawals"], s["ommers"], state=state))
    stop_daemon()
    return out


def bad_tx(fk, r, h, nonces):
    """a transaction that is not valid now"""
    base = unint(h["baseFee"])
    kw = dict(gas=100000, nonce=nonces.get(KEY1, 0), price=base + 3)
    what = r.choice(["nonce", "nonce", "gas", "intrinsic", "funds", "value", "sig", "type", "fee"])
    if what == "nonce":
        kw["nonce"] += r.choice([1, 7]) if not kw["nonce"] or r.random() < .5 else -1
    elif what == "gas":
        kw["gas"] = unint(h["gasLimit"]) + 1
    elif what == "intrinsic":
        kw["gas"] = 20999
    elif what == "value":
        kw["value"] = 1 << 255
    elif what == "fee" and fk >= LONDON:
        kw["price"] = max(base - 1, 0)
    elif what == "type":
        kw["typ"] = r.choice([t for t in range(5) if t not in types_of(fk)] or [0])
        if kw["typ"] == 0:
            kw["nonce"] += 9
    if kw.get("typ"):
        kw.update(type_args(fk, kw["typ"], r, X[0]))
    else:
        kw["to"] = r.choice([X[0], X[1], S2])
    t = tx(fk, 0x999 if what in ("funds", "fee") else KEY1, **kw)
    if what == "sig":
        t["r"] = hx(SECP_N if r.random() < .5 else 0)
    return t


def g_blocks(fk, r, n):
    """blocks after a parent, with what follows from the parent left to the tool, and the same block given to the chain"""
    out = []
    for i in range(n):
        chain = r.choice([1, 1, 1, 5, 1337])
        p = GC.start(fk, r, number=r.choice([3, 4, 6, 300, 20, 4999999]))
        if fk < PARIS and r.random() < .5:
            p["ommersHash"] = "ab" * 32
        pre = pre_state(fk, r) + ([acct(X[8], 1, 0, bytes(r.choice([24576, 40000])))] if i == 0 else [])
        c = Chain(fk, pre, [dict(h=p, ommers=[])], chain)
        h = follow(fk, p, r.choice([1, 8, 9, 10, 12, 13, 17, 18, 40, 900, 3000]), mix="%064x" % r.getrandbits(r.choice([256, 252, 251, 8])))
        nonces, txs, keys = {}, [], {}
        k = r.choice([0, 1, 2, 3, 5])
        for j in range(k):
            if r.random() < .35:
                txs.append(bad_tx(fk, r, h, nonces))
                continue
            t = some_txs(fk, r, h, nonces, 1)[0]
            key = KEY1 if t == sign(t, KEY1, 1, fk >= SPURIOUS) else KEY2
            if r.random() < .4:
                t["to"] = X[3]
            protect = None
            if t["type"]:
                t["chainId"] = hx(chain)
            else:
                protect = fk >= SPURIOUS and r.random() < .7
            t = sign(t, key, chain, bool(protect))
            txs.append(t)
            if r.random() < .3:
                keys[j] = key
        wds = some_wds(fk, r)
        ommers = []
        if fk < PARIS and r.random() < .5:
            ommers = [dict(coinbase=r.choice([X[11], h["coinbase"], X[5]]), number=hx(unint(h["number"]) - d)) for d in r.sample([1, 2, 3, 6], r.choice([1, 2])) if unint(h["number"]) > d]
        reward = r.choice(["", "", "", "none", "00", "01", hx(10**18 + 7)]) if fk < PARIS else ""
        given = [f for f in ("baseFee", "difficulty", "excess") if r.random() < .35]
        hashes = c.hashes(unint(h["number"]))
        env = env_of(dict(coinbase=h["coinbase"], number=h["number"], time=h["time"], difficulty=h["difficulty"], randao=h["mix"], gasLimit=unint(h["gasLimit"]),
                          chainId=hx(chain), baseFee=h["baseFee"], excess=h["excess"], beaconRoot=h["beaconRoot"], hashes=hashes),
                     given=given, pGasLimit=p["gasLimit"], pGasUsed=p["gasUsed"], pBaseFee=p["baseFee"], pTime=p["time"], pDifficulty=p["difficulty"],
                     pExcess=p["excess"], pBlobGas=p["blobGas"], pUncles=p["ommersHash"] == "ab" * 32)
        sc = run(fk, r, "block%d" % i, pre, env, txs, wds, ommers, reward=reward, keys=keys)
        e = sc["exp"]
        if not e["crash"] and not e["bad"] and not ommers and not reward and not sc["opt"]["dao"]:
            # the chain has to agree
            g = dict(h, gasUsed=e["gas"], stateRoot=e["stateRoot"], txRoot=e["txRoot"], receiptRoot=e["receiptsRoot"], bloom=e["bloom"], baseFee=e["baseFee"], difficulty=e["difficulty"])
            if fk >= SHANGHAI:
                g["wRoot"] = e["withdrawalsRoot"]
            if fk >= CANCUN:
                g["excess"], g["blobGas"] = e["excess"], e["blobGas"]
                if g["blobGas"] == "absent":
                    g["blobGas"] = ""
            if fk >= PRAGUE:
                g["reqHash"] = e["requestsHash"]
            ts = [t for j, t in enumerate(txs) if j not in e["rejected"]]
            x = c.block(g, ts, [], wds, probe=True)["exp"]
            e["imported"] = x["bad"] or x["crash"]
        out.append(sc)
    stop_daemon()
    return out

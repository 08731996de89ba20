"""State tests run by the tool for them, in the shape ToolTrace.tla reads."""
import argparse, sys
from gentool import *

MORE = {**{k: [x for x in v if not x.endswith("At5")] for k, v in OTHER_NAMES.items()}}
for k, v in EARLY_NAMES.items():
    MORE.setdefault(k, []).extend(v)
FOREIGN = ["Constantinople", "Amsterdam", "EOFv1", "Verkle", "TransitionTo5"]


def a_test(fk, r, names):
    """what a test describes, the transactions it may mean for each fork, and the entries for each name"""
    prev = r.random() < .7      # without, the hash must not be asked for
    probe = A("CALLDATASIZE", 1, "SSTORE", 0, "CALLDATALOAD", 2, "SSTORE CALLVALUE", 3, "SSTORE GAS", 4, "SSTORE") + (A(0, "BLOCKHASH", 5, "SSTORE") if prev else b"") + A("TIMESTAMP", 6, "SSTORE")
    pre = eoas(10**26) + [acct(X[0], 1, 3, probe, {0: 9, 6: 1}), acct(X[1], 1, 0, A(7, 8, 32, 0, "LOG2 POP", 1, 2, "SSTORE")), acct(X[2], 1, 7, A("CALLER SELFDESTRUCT")), acct(X[3], 0, 0, A(1, 0, "SSTORE INVALID"))]
    h = dict(coinbase=r.choice([COINBASE, COINBASE, S1, X[0]]), number="01", time=hx(r.choice([1, 1000, 1 << 33])), difficulty=hx(r.choice([131072, 1 << 40])), randao="%064x" % r.getrandbits(256),
             gasLimit=10**7, chainId="01", baseFee=hx(r.choice([7, 10, 1000])), excess=hx(r.choice([0, 0, 10**7])), beaconRoot="%064x" % r.getrandbits(256),
             hashes=["%064x" % r.getrandbits(256)] if prev else [])
    env = env_of(h)
    base = unint(h["baseFee"])
    types = types_of(fk)
    style = r.choice(types)
    to = r.choice([X[0], X[0], X[0], X[1], X[2], X[3], S2, X[9]] + ([""] if style < 3 else []))
    datas = [x.hex() for x in r.sample([b"", b"\0", b"\1\2\3", bytes(40), b"\xff" * 33, A(1, 0, "SSTORE", 0, 0, "RETURN"), A(3, 0, "SSTORE STOP")], r.choice([1, 2, 3]))]
    gases = [hx(x) for x in r.sample([400000, 399999, 150000, 21000, 60000, 20999], r.choice([1, 2, 3]))]
    values = [hx(x) for x in r.sample([0, 1, 10**18, 10**27], r.choice([1, 2, 3]))]
    lists = None
    if style:
        if style == 1 or r.random() < .6:
            lists = [r.choice([None, [], [[X[0], ["%064x" % 4]]], [[X[0], ["%064x" % q for q in (1, 2, 3, 4)]], [X[1], []]]]) for _ in datas]
            if style == 1 and all(l is None for l in lists):
                lists[0] = [[X[0], ["%064x" % 3]]]
    kw = dict(nonce=0 if r.random() < .85 else 1, price=base + r.choice([0, 1, 10]), prio=r.choice([0, 1, 2]), maxfee=base + r.choice([2, 10]))
    if style == 3:
        kw.update(blobs=[blob(r) for _ in range(r.choice([1, 2]))], blobfee=10**4)
    if style == 4:
        kw["auths"] = [sign_auth(r.choice([0, 1, 2]), X[0], 0, KEY3)]
    key = r.choice([KEY1, KEY2])
    cands = {}
    for f in {f for n, f in names}:
        cs = cands[f] = []
        for i, d in enumerate(datas):
            al = (lists[i] or []) if lists else []
            typ = style if style != 1 or lists[i] is not None else 0
            for g in gases:
                for v in values:
                    cs.append(tx(f, key, typ=typ, to=to, value=unint(v), gas=unint(g), data=unhex(d), **({k: x for k, x in kw.items() if typ or k not in ("blobs", "auths")}), **(dict(access=al) if typ else {})))
    t = cands[fk][-1]
    j = dict(data=["0x" + d for d in datas], gasLimit=[h0(g) for g in gases], value=[h0(v) for v in values], nonce=h0(t["nonce"]), to="0x" + to if to else "", secretKey="0x%064x" % key, sender="0x" + (S1 if key == KEY1 else S2))
    if style < 2:
        j["gasPrice"] = hex(kw["price"])
    else:
        j["maxPriorityFeePerGas"], j["maxFeePerGas"] = h0(t["maxPrio"]), h0(t["maxFee"])
    for k in ("maxFeePerBlobGas", "blobVersionedHashes", "authorizationList"):
        if k in tx_json(t):
            j[k] = tx_json(t)[k]
    if lists:
        j["accessLists"] = [None if l is None else [dict(address="0x" + a, storageKeys=["0x" + k for k in ks]) for a, ks in l] for l in lists]
    je = env_json(fk, env, [], [], r)
    for k in ("withdrawals", "blockHashes", "parentHash"):
        je.pop(k, None)
    if h["hashes"]:
        je["previousHash"] = "0x" + h["hashes"][0]
    j_test = dict(env=je, pre=alloc_json(pre), transaction=j)
    desc = dict(data=datas, gas=gases, value=values, access=[l or [] for l in lists] if lists else [])
    at = lambda: [r.randrange(len(datas)), r.randrange(len(gases)), r.randrange(len(values)), "00" * 32]
    return dict(pre=pre, env=env, desc=desc, cands=cands, json=j_test, entries=lambda: [at() for _ in range(r.choice([1, 2, 3]))])


def tests(doc, flags, many, tmp):
    """run the tool on files of tests; its results and what it wrote to the error output"""
    p = parser()
    from ethereum_spec_tools.evm_tools.statetest import StateTest
    paths = []
    for i, d in enumerate(doc):
        paths.append("%s/test %d.json" % (tmp, i))
        with open(paths[-1], "w") as o:
            json.dump(d, o)
    log = logging.getLogger("T8N")
    kept, level = list(log.handlers), log.level
    err, out, old = io.StringIO(), io.StringIO(), sys.stderr
    sys.stderr = err
    try:
        if many:
            StateTest(p.parse_args(["statetest"] + flags), out, io.StringIO("".join(x + "\n" for x in paths))).run()
        else:
            for x in paths:
                StateTest(p.parse_args(["statetest"] + flags + [x]), out, io.StringIO()).run()
    finally:
        sys.stderr = old
        log.handlers[:] = kept
        log.setLevel(level)
    res, dec, s = [], json.JSONDecoder(), out.getvalue().strip()
    while s:
        x, n = dec.raw_decode(s)
        res.append(x)
        s = s[n:].strip()
    return res, [json.loads(l)["stateRoot"] for l in err.getvalue().splitlines() if l.startswith('{"stateRoot"')]


def g_tests(fk, r, n):
    out = []
    for q in range(n):
        # files: lists of (key, test, [(name, fork or None, entries)])
        files = []
        for fi in range(r.choice([1, 1, 2])):
            f = []
            for ti in range(r.choice([1, 2, 3])):
                names = [(x, fk) for x in r.sample([STATE_FORKS[fk]] + MORE.get(fk, []), 1)]
                if r.random() < .5 and fk:
                    o = r.randrange(max(0, fk - 3), fk)
                    names.append((r.choice([STATE_FORKS[o]] + MORE.get(o, [])), o))
                known = list(names)
                for x in r.sample(FOREIGN, r.choice([0, 0, 1])):
                    names.append((x, None))
                r.shuffle(names)
                t = a_test(fk, r, known)
                f.append(("t%d_%d/%s" % (fi, ti, "x" * ti), t, [(x, o, t["entries"]()) for x, o in names]))
            files.append(f)
        flags = [x for x in ("--json", "--noreturndata", "--nostack", "--nomemory") if r.random() < .3]
        many = r.random() < .5
        tmp = tempfile.mkdtemp(prefix="statetest")
        crash, res, side = "", [], []
        try:
            for turn in (0, 1):      # the second time with roots that may be the right ones
                doc = [{k: dict(t["json"], post={x: [dict(hash="0x" + e[3], indexes=dict(data=e[0], gas=e[1], value=e[2])) for e in es] for x, o, es in ns}) for k, t, ns in f} for f in files]
                res, side = tests(doc, flags, many, tmp)
                if turn == 0:
                    for f, rs in zip(files, res):
                        es = [e for k, t, ns in f for x, o, es in ns if o is not None for e in es]
                        for e, x in zip(es, rs):
                            root = x["stateRoot"][2:]
                            e[3] = root if r.random() < .6 else GC.flip(root, r)
        except (Exception, SystemExit) as e:   # noqa
            crash = type(e).__name__ + ": " + str(e)[:160]
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
            import ethereum.trace
            ethereum.trace.set_evm_trace(ethereum.trace.discard_evm_trace)
        at = 0
        for fi, f in enumerate(files):
            outline = [[k, [[x, es] for x, o, es in ns]] for k, t, ns in f]
            k = 0
            rs = res[fi] if fi < len(res) else []
            for key, t, ns in f:
                for x, o, es in ns:
                    if o is None:
                        continue
                    for e in es:
                        got = rs[k] if k < len(rs) else {}
                        exp = dict(crash=crash, total=str(len(rs)), key=got.get("name", ""), fork=got.get("fork", ""), root=got.get("stateRoot", "")[2:], side=side[at][2:] if at < len(side) else "",
                                   error="true" if "error" in got else "false")
                        exp["pass"] = "true" if got.get("pass") else "false"
                        k += 1
                        at += 1
                        out.append(dict(name="test%d_%d_%d" % (q, fi, k), fork=o, fork_name=x, pre=t["pre"], env=t["env"], txs=t["cands"][o], withdrawals=[], ommers=[], msg=[], file=outline, k=k,
                                        test=t["desc"], opt=dict(state=True, dao=False, reward=""), exp=exp))
    return out

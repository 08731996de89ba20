"""External forms: decoding, building and reading blocks, transactions, states; rows for RowTrace.tla."""
import copy, io, json, os, pkgutil, tempfile
from genrows import *
from chain import block_bytes, rlraw, wd_list, EMPTY_OMMERS
from gen2 import sign_auth, blob
import gentool

ERR = (EthereumException, RLPException)


def tree(x):
    """nested lists of byte strings and numbers"""
    if isinstance(x, (list, tuple)):
        return ["l", [tree(y) for y in x]]
    return ["s", hx(x) if isinstance(x, int) else bytes(x).hex()]


def untree(t):
    return [untree(y) for y in t[1]] if t[0] == "l" else unhex(t[1])


def nodes(t, path=()):
    yield path
    if t[0] == "l":
        for i, x in enumerate(t[1]):
            yield from nodes(x, path + (i,))


def at(t, path):
    for i in path:
        t = t[1][i]
    return t


def change(t, r, path=None):
    """the tree with one node changed"""
    t = copy.deepcopy(t)
    path = path if path is not None else r.choice(list(nodes(t)))
    n = at(t, path)
    if n[0] == "s":
        b = n[1]
        how = r.choice(["zero", "longer", "shorter", "empty", "list", "wide", "same", "zeros"])
        n[1] = {"zero": "00" + b, "longer": b + "01", "shorter": b[:-2], "empty": "", "wide": "ff" * r.choice([1, 2, 8, 9, 20, 32, 33]), "same": b, "zeros": "00" * (len(b) // 2), "list": b}[how]
        if how == "list":
            n[0], n[1] = "l", ([] if r.random() < .5 else [["s", b]])
    else:
        l = n[1]
        how = r.choice(["drop", "more", "swap", "text", "twice", "none", "any"])
        if how == "drop" and l:
            l.pop(r.choice([-1, 0, r.randrange(len(l))]))
        elif how == "more":
            l.append(copy.deepcopy(r.choice(l)) if l and r.random() < .5 else ["s", r.choice(["", "01", "00" * 32])])
        elif how == "swap" and len(l) > 1:
            i = r.randrange(len(l) - 1)
            l[i], l[i + 1] = l[i + 1], l[i]
        elif how == "twice" and l:
            l.insert(0, copy.deepcopy(l[0]))
        elif how == "text":
            n[0], n[1] = "s", r.choice(["", "01", "ab" * 20])
        elif how == "none":
            del l[:]
        elif l:
            l[r.randrange(len(l))] = ["s", "%x" % r.choice([16, 255, 0xffff])] if r.random() < .5 else ["l", []]
            for i, x in enumerate(l):
                if x[0] == "s" and len(x[1]) % 2:
                    x[1] = "0" + x[1]
    return t


def some_header(fk, r):
    rb = lambda n: "%0*x" % (2 * n, r.getrandbits(8 * n)) if n else ""
    n = lambda *c: hx(r.choice([0, 1, 127, 128, 255, 256] + list(c)))
    return header(fk, parent=rb(32), ommersHash=rb(32), coinbase=rb(20), stateRoot=rb(32), txRoot=rb(32), receiptRoot=rb(32), bloom=rb(256), difficulty=n(r.getrandbits(60), 1 << 64, r.getrandbits(90)),
                  number=n(15000000, 1 << 70), gasLimit=n(30000000), gasUsed=n(r.getrandbits(20)), time=n(r.getrandbits(32)), extra=rb(r.choice([0, 1, 31, 32, 33, 60])) if r.random() < .8 else "",
                  mix=rb(32), nonce=rb(8), baseFee=n(r.getrandbits(40)), wRoot=rb(32), blobGas=n((1 << 64) - 1), excess=n((1 << 64) - 1), beaconRoot=rb(32), reqHash=rb(32))


def some_wd(r):
    return dict(index=hx(r.choice([0, 1, 128, (1 << 64) - 1])), validator=hx(r.choice([0, 7, 256, (1 << 64) - 1])), addr="%040x" % r.getrandbits(160), amount=hx(r.choice([0, 1, 32 * 10**9, (1 << 64) - 1, 1 << 64, r.getrandbits(256)])))


def legacy_list(t):
    return tx_list(t)


def tx_list(t):
    """fields and signature of a transaction"""
    import rec
    return rec.tx_fields(t) + [unint(t["v"]), unint(t["r"]), unint(t["s"])]


def block_tree(fk, h, txs, ommers, wds):
    l = [header_list(h), [tx_list(t) if t["type"] == 0 else tx_bytes(t) for t in txs], [header_list(o) for o in ommers]]
    if fk >= SHANGHAI:
        l.append([wd_list(w) for w in wds])
    return tree(l)


def cls(fk, what):
    B, T = mod(fk, "blocks"), mod(fk, "transactions")
    return dict(block=lambda: B.Block, header=lambda: B.Header, withdrawal=lambda: B.Withdrawal, receipt=lambda: B.Receipt,
                transaction=lambda: getattr(T, "LegacyTransaction", None) or T.Transaction)[what]()


def receipt_tree(fk, r):
    rb = lambda n: bytes(r.getrandbits(8) for _ in range(n))
    return tree([rb(32) if fk < BYZANTIUM else r.choice([0, 1]), r.choice([21000, 0, 1 << 40]), rb(256),
                 [[rb(20), [rb(32) for _ in range(r.randint(0, 4))], rb(r.choice([0, 1, 32, 60]))] for _ in range(r.randint(0, 3))]])


def g_decode(fk, r, n):
    """byte strings of every shape, and others"""
    rows = []
    T, B = mod(fk, "transactions"), mod(fk, "blocks")
    types = types_of(fk)

    def decode(what, t):
        def f():
            try:
                x = rlp.decode_to(cls(fk, what), rl(untree(t)))
            except ERR:
                return "no"
            return keccak(rlp.encode(x)).hex()
        rows.append(row("decode", [what, t], f))

    def typed(b, t):
        def f():
            try:
                x = T.decode_transaction(Bytes(b + (rl(untree(t)) if b else b"")))
            except ERR:
                return "no"
            return keccak(T.encode_transaction(x)).hex()
        rows.append(row("typed", [b.hex(), t], f))
    for q in range(n):
        for what in ("header", "transaction", "receipt", "block") + (("withdrawal",) if fk >= SHANGHAI else ()):
            if what == "header":
                t = tree(header_list(some_header(fk, r)))
            elif what == "transaction":
                t = tree(tx_list(rich_tx(fk, 0, r, creation=r.random() < .3)))
            elif what == "receipt":
                t = receipt_tree(fk, r)
            elif what == "withdrawal":
                t = tree(wd_list(some_wd(r)))
            else:
                t = block_tree(fk, some_header(fk, r), [rich_tx(fk, r.choice(types), r, creation=r.random() < .2) for _ in range(r.randint(0, 3))],
                               [some_header(fk, r) for _ in range(r.randint(0, 2))], [some_wd(r) for _ in range(r.randint(0, 2))])
            decode(what, t)
            ps = list(nodes(t))
            if what == "block":      # each kind of node
                ps = r.sample(ps, min(len(ps), 14)) + [p for p in ps if len(p) < 2]
            elif len(ps) > 24:
                ps = r.sample(ps, 24)
            for p in ps:
                decode(what, change(t, r, p))
            if what == "header":     # a header of the fork before, or after
                for other in {max(fk - 1, 0), min(fk + 1, OSAKA), LONDON, SHANGHAI, CANCUN, PRAGUE}:
                    decode(what, tree(header_list(some_header(other, r))))
        if fk >= BERLIN:
            for typ in (1, 2, 3, 4):
                f2 = fk if typ in types else OSAKA
                t = tree(tx_list(rich_tx(f2, typ, r, creation=r.random() < .3)))
                typed(bytes([typ]), t)
                typed(bytes([r.choice([0, 5, 6, 127, 0x80, 0xc0, 0xff] + [x for x in (1, 2, 3, 4) if x != typ])]), t)
                if typ in types:
                    ps = list(nodes(t))
                    for p in r.sample(ps, min(len(ps), 20)):
                        typed(bytes([typ]), change(t, r, p))
            typed(b"", tree([]))
            for typ in types:
                tt = receipt_tree(fk, r)
                x = decoded(fk, rich_tx(fk, typ, r))

                def f():
                    rc = rlp.decode_to(B.Receipt, rl(untree(tt)))
                    e = B.encode_receipt(x, rc)
                    if B.decode_receipt(e) != rc:
                        return "decoded to another receipt"
                    return keccak(e if isinstance(e, bytes) else rlp.encode(e)).hex()
                rows.append(row("receipt", ["%02x" % typ if typ else "", tt], f))
            for typ in (0, 1, 2, 3, 4, 5, 0x7f):
                def f():
                    try:
                        return keccak(rlp.encode(B.decode_receipt(Bytes(bytes([typ]) + rl(untree(tt)))))).hex()
                    except ERR + (AssertionError,):
                        return "no"
                rows.append(row("unreceipt", ["%02x" % typ, tt], f))
    return batch("decode", fk, rows, 100)


def g_widths(fk, r, n):
    """every text and number of every kind of object, at and beyond its width"""
    rows = []
    T = mod(fk, "transactions")
    forms = lambda b: ["", "00", "01", "00" + b, b + "01", b[:-2], "ff" * 8, "01" + "00" * 8, "ff" * 32, "01" + "00" * 32, "ff" * 20, "ff" * 21]
    for q in range(n):
        objs = [("header", tree(header_list(some_header(fk, r)))), ("transaction", tree(tx_list(rich_tx(fk, 0, r, creation=q % 2 == 1)))), ("receipt", receipt_tree(fk, r))]
        if fk >= SHANGHAI:
            objs.append(("withdrawal", tree(wd_list(some_wd(r)))))
        for typ in types_of(fk)[1:]:
            objs.append((typ, tree(tx_list(rich_tx(fk, typ, r, creation=q % 2 == 1)))))
        for what, t in objs:
            for p in nodes(t):
                if at(t, p)[0] != "s":
                    continue
                for b in dict.fromkeys(forms(at(t, p)[1])):
                    u = copy.deepcopy(t)
                    at(u, p)[1] = b

                    def f():
                        try:
                            if isinstance(what, int):
                                x = T.encode_transaction(T.decode_transaction(Bytes(bytes([what]) + rl(untree(u)))))
                            else:
                                x = rlp.encode(rlp.decode_to(cls(fk, what), rl(untree(u))))
                        except ERR:
                            return "no"
                        return keccak(x).hex()
                    rows.append(row("typed", ["%02x" % what, u], f) if isinstance(what, int) else row("decode", [what, u], f))
    return batch("widths", fk, rows, 400)


# ------------------------------------------------------------------ descriptions
def text(r, s, ints=True):
    """a number in one of its written forms"""
    v = unint(s)
    return r.choice(["0x%x" % v, "0x%x" % v, "0x" + (s or "00")] + ([str(v), v] if ints else []))


P = lambda s: "0x" + s


def header_json(h, r, given=None):
    fk = h["fk"]
    d = dict(parentHash=P(h["parent"]), stateRoot=P(h["stateRoot"]), logsBloom=P(h["bloom"]), number=text(r, h["number"]), gasLimit=text(r, h["gasLimit"]), gasUsed=text(r, h["gasUsed"]),
             timestamp=text(r, h["time"]), mixHash=P(h["mix"]))
    for k, j, raw in (("ommersHash", "ommersHash", 1), ("coinbase", "miner", 1), ("txRoot", "transactionsRoot", 1), ("receiptRoot", "receiptsRoot", 1), ("extra", "extraData", 1), ("nonce", "nonce", 1),
                      ("wRoot", "withdrawalsRoot", 1), ("difficulty", "difficulty", 0), ("baseFee", "baseFeePerGas", 0)):
        if k in given:
            d[j] = P(h[k]) if raw else text(r, h[k])
    return d


def g_built(fk, r, n):
    """the block builder"""
    if fk > SHANGHAI:
        return []
    p = gentool.parser()
    from ethereum_spec_tools.evm_tools.b11r import B11R
    import logging
    logging.getLogger("B11R").addHandler(logging.NullHandler())
    logging.getLogger("B11R").setLevel(logging.CRITICAL)
    logging.getLogger("B11R").propagate = False
    rows = []
    opt = ["ommersHash", "coinbase", "txRoot", "receiptRoot", "extra", "nonce", "difficulty", "baseFee", "wRoot"]
    for q in range(n):
        h = some_header(fk, r)
        given = opt if q == 0 else [] if q == 1 else [k for k in opt if k != opt[q % len(opt)]] if q < 11 else [k for k in opt if r.random() < .6]
        ommers = [some_header(r.choice([fk, FRONTIER, LONDON]), r) for _ in range(r.choice([0, 0, 1, 2]))]
        types = types_of(fk)
        txs = [rich_tx(fk, r.choice(types), r, creation=r.random() < .2) for _ in range(r.choice([0, 1, 2, 3]))]
        wds = [some_wd(r) for _ in range(r.choice([0, 1, 2, 17]))]
        has = r.random() < .6
        items = [tx_bytes(t) if t["type"] == 0 else rl(tx_bytes(t)) for t in txs]
        data = dict(header=header_json(h, r, given), txs="" if not txs and r.random() < .5 else P(rlraw(items).hex()))
        data[r.choice(["ommers", "uncles"])] = [P(rl([header_list(o), [], []]).hex()) for o in ommers]
        if has and (wds or r.random() < .5):
            data["withdrawals"] = [dict(index=text(r, w["index"]), validatorIndex=text(r, w["validator"]), address=P(w["addr"]), amount=text(r, w["amount"])) for w in wds]
        tmp = tempfile.mkdtemp(prefix="b11r")

        def f():
            args = ["b11r"]
            files = r.random() < .3
            if files:
                for k, j in (("header", "header"), ("txs", "txs"), ("ommers", "ommers")):
                    v = data.get(j, data.get("uncles"))
                    with open(tmp + "/" + k, "w") as o:
                        json.dump(v, o)
                    if k == "ommers" and not ommers:
                        continue
                    args.append("--input.%s=%s/%s" % (k, tmp, k))
                if has:
                    with open(tmp + "/wds", "w") as o:
                        json.dump(data.get("withdrawals", []), o)
                    args.append("--input.withdrawals=%s/wds" % tmp)
            else:
                args += ["--input.header=stdin", "--input.txs=stdin", "--input.ommers=stdin"] + (["--input.withdrawals=stdin"] if has else [])
            tofile = files and r.random() < .5
            args.append("--output.block=" + (tmp + "/out" if tofile else "stdout"))
            w = io.StringIO()
            b = B11R(p.parse_args(args), w, io.StringIO(json.dumps(data)))
            if b.run() != 0:
                return "failed"
            out = json.load(open(tmp + "/out")) if tofile else json.loads(w.getvalue())
            return keccak(unhex(out["rlp"][2:])).hex() + " " + out["hash"][2:]
        try:
            rows.append(row("built", [h, given, txs, ommers, wds, yes(has)], f, errors=()))
        finally:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
    return batch("built", fk, rows)


def fixture_header(h, r):
    """the two spellings of test fixtures and of JSON-RPC"""
    fk = h["fk"]
    a = r.random() < .5
    d = dict(parentHash=P(h["parent"]), stateRoot=P(h["stateRoot"]), difficulty=text(r, h["difficulty"], False), number=text(r, h["number"], False), gasLimit=text(r, h["gasLimit"], False),
             gasUsed=text(r, h["gasUsed"], False), timestamp=text(r, h["time"], False), extraData=P(h["extra"]), mixHash=P(h["mix"]), nonce=P(h["nonce"]))
    for k, x, y in (("ommersHash", "uncleHash", "sha3Uncles"), ("coinbase", "coinbase", "miner"), ("txRoot", "transactionsTrie", "transactionsRoot"), ("receiptRoot", "receiptTrie", "receiptsRoot"),
                    ("bloom", "bloom", "logsBloom")):
        d[x if a else y] = P(h[k])
    if fk >= LONDON:
        d["baseFeePerGas"] = text(r, h["baseFee"], False)
    if fk >= SHANGHAI:
        d["withdrawalsRoot"] = P(h["wRoot"])
    if fk >= CANCUN:
        d.update(blobGasUsed=text(r, h["blobGas"], False), excessBlobGas=text(r, h["excess"], False), parentBeaconBlockRoot=P(h["beaconRoot"]))
    if fk >= PRAGUE:
        d["requestsHash"] = P(h["reqHash"])
    return d


def fixture_tx(t, r):
    x = lambda k: text(r, t[k], False)
    d = dict(nonce=x("nonce"), gasLimit=x("gas"), to=P(t["to"]) if t["to"] else "", value=x("value") if unint(t["value"]) or r.random() < .5 else "0x", data=P(t["data"]), r=x("r"), s=x("s"))
    d["y_parity" if t["type"] and r.random() < .5 else "v"] = x("v")
    if t["type"] or r.random() < .5:
        d["chainId"] = text(r, t["chainId"])
    if t["type"] < 2:
        d["gasPrice"] = x("gasPrice")
    else:
        d["maxPriorityFeePerGas"], d["maxFeePerGas"] = x("maxPrio"), x("maxFee")
    if t["type"]:
        if t["access"] or t["type"] == 1 or r.random() < .5:
            d["accessList"] = [dict(address=P(a), storageKeys=[P(k) for k in ks]) for a, ks in t["access"]]
    if t["type"] == 3:
        d["maxFeePerBlobGas"], d["blobVersionedHashes"] = x("blobFee"), [P(b) for b in t["blobs"]]
    if t["type"] == 4:
        d["authorizationList"] = [dict(chainId=text(r, a["chainId"], False), address=P(a["addr"]), nonce=text(r, a["nonce"], False), v=text(r, a["v"], False), r=text(r, a["r"], False), s=text(r, a["s"], False)) for a in t["auths"]]
    if r.random() < .5:
        d["type"] = text(r, hx(t["type"]))
    return d


def some_pre(fk, r, empty):
    pre = []
    for i in range(r.choice([0, 1, 2, 5])):
        n, b, c = r.choice([0, 1, 255, 256]), r.choice([0, 1, 10**18, (1 << 256) - 1]), r.choice([b"", b"", b"\0", bytes(range(60))])
        if not empty and not n and not b and not c:
            n = 1
        st = [[hx(k), hx(r.choice([1, 255, 256, (1 << 256) - 1]))] for k in r.sample([0, 1, 127, 128, 256, (1 << 256) - 1, r.getrandbits(256)], r.choice([0, 0, 1, 3]))]
        pre.append(["%040x" % r.getrandbits(160 if r.random() < .7 else 12), hx(n) or "00", hx(b), c.hex(), sorted(st)])
    return list({p[0]: p for p in pre}.values())


def some_alloc(pre, r, base10=False):
    out = {}
    for a, n, b, c, st in pre:
        d = {}
        if unint(n) or r.random() < .5:
            d["nonce"] = str(unint(n)) if base10 and r.random() < .5 else text(r, n, False)
        if unint(b) or r.random() < .5:
            d["balance"] = str(unint(b)) if base10 and r.random() < .5 else text(r, b, False)
        if c or r.random() < .5:
            d["code"] = P(c)
        if st or r.random() < .5:
            d["storage"] = {r.choice([P("%064x" % unint(k)), "0x%x" % unint(k) if len("%x" % unint(k)) % 2 == 0 else "0x0%x" % unint(k)]): r.choice([P("%064x" % unint(v)), P(v)]) for k, v in st}
            if r.random() < .3:
                d["storage"][P("%064x" % 77)] = P("00")
        out[(P(a) if r.random() < .8 else a)] = d
    return out


def g_read(fk, r, n):
    """headers, transactions, blocks and states read from JSON"""
    from ethereum_spec_tools.evm_tools.loaders.fixture_loader import Load
    from ethereum_spec_tools.evm_tools.loaders.transaction_loader import TransactionLoad
    L = Load("x", FORKS[fk])
    T = mod(fk, "transactions")
    rows = []
    enc = lambda x: x if isinstance(x, (bytes, bytearray)) else rlp.encode(x)
    for q in range(n):
        h = some_header(fk, r)
        jh = fixture_header(h, r)
        rows.append(row("readheader", [h], lambda: keccak(rlp.encode(L.json_to_header(jh))).hex(), ()))
        for typ in types_of(fk):
            t = rich_tx(fk, typ, r, chain=r.choice([1, 1, 5, 1 << 40]) if typ else 1, creation=r.random() < .3)
            if typ == 3 and r.random() < .3:
                t["blobs"] = []
            for a in t.get("auths", ()):
                a["v"] = hx(r.choice([0, 1, 1, 2, 3, 27, 255]))
            jt = fixture_tx(t, r)

            def f():
                x = TransactionLoad(jt, L.fork).read()
                return keccak(enc(T.encode_transaction(x)) if hasattr(T, "encode_transaction") else rlp.encode(x)).hex()
            rows.append(row("readtx", [t], f, ()))
        txs = [rich_tx(fk, r.choice(types_of(fk)), r) for _ in range(r.randint(0, 3))]
        ommers = [some_header(fk, r) for _ in range(r.randint(0, 2))]
        wds = [some_wd(r) for _ in range(r.randint(0, 3))] if fk >= SHANGHAI else []
        raw = block_bytes(fk, h, txs, ommers, wds)

        def f():
            b, hh, bb = L.json_to_block({"rlp": P(raw.hex()), "blockHeader": dict(jh, gasUsed="0x1"), "transactions": []})
            if keccak(bb) != keccak(rlp.encode(b)):
                return "another encoding"
            return bytes(hh).hex() + " " + keccak(rlp.encode(b)).hex()
        rows.append(row("readblock", [h, txs, ommers, wds], f, ()))
        pre = some_pre(fk, r, empty=q % 4 == 0)
        al = some_alloc(pre, r)

        def f():
            try:
                s = L.json_to_state(al)
            except EthereumException as e:
                return err(e)
            except Exception as e:   # noqa
                if err(e) != "StateWithEmptyAccount":
                    raise
                return err(e)
            return bytes(mod(fk, "state").state_root(s)).hex()
        rows.append(row("readstate", [pre], f, ()))
    return batch("read", fk, rows, 60)


def g_genesis(fk, r, n):
    """the first block"""
    from ethereum import genesis as G
    B, F, S, TR, FT = mod(fk, "blocks"), mod(fk, "fork"), mod(fk, "state"), mod(fk, "trie"), mod(fk, "fork_types")
    hexa = getattr(mod(fk, "utils.hexadecimal"), "hex_to_address")
    gf = G.GenesisFork(Address=FT.Address, Account=FT.Account, Trie=TR.Trie, Bloom=B.Bloom if hasattr(B, "Bloom") else FT.Bloom, Header=B.Header, Block=B.Block, hex_to_address=hexa,
                       set_account=S.set_account, set_storage=S.set_storage, state_root=S.state_root, root=TR.root)
    rows = []
    for q in range(n):
        pre = some_pre(fk, r, True)
        dif, gl, time, cid = [r.choice(c) for c in ([0, 1, 17179869184, 131072], [0, 5000, 30000000], [0, 1, 1 << 40], [0, 1, 5, 1337, (1 << 64) - 1])]
        extra = "%0*x" % (64, r.getrandbits(256)) if r.random() < .6 else ""
        nonce = "%016x" % r.choice([0, 0x42, r.getrandbits(64)])
        doc = dict(config=dict(chainId=cid), difficulty="0x%x" % dif, extraData=P(extra), gasLimit="0x%x" % gl, nonce=r.choice([P(nonce), "0x%x" % int(nonce, 16) if len("%x" % int(nonce, 16)) % 2 == 0 else P(nonce)]),
                   timestamp=r.choice([str(time), "0x%x" % time]), alloc=some_alloc(pre, r, True))

        def f():
            asked = []

            def get(package, path):
                asked.append(path)
                return json.dumps(doc).encode()
            old = pkgutil.get_data
            pkgutil.get_data = get
            try:
                try:
                    g = G.get_genesis_configuration("verif.json")
                except FileNotFoundError:
                    g = None
            finally:
                pkgutil.get_data = old
            if not asked:      # read in another way: described directly
                g = G.GenesisConfiguration(U64(cid), Uint(dif), Bytes(unhex(extra)), Uint(gl), Bytes8(unhex(nonce)), U256(time), doc["alloc"])
            c = F.BlockChain(blocks=[], state=S.State(), chain_id=U64(0))
            G.add_genesis_block(gf, c, g)
            if len(c.blocks) != 1:
                return "%d blocks" % len(c.blocks)
            return bytes(S.state_root(c.state)).hex() + " " + keccak(rlp.encode(c.blocks[0])).hex() + " " + hx(c.chain_id)
        rows.append(row("genesis", [pre, hx(dif), extra, hx(gl), nonce, hx(time), hx(cid)], f, ()))
    return batch("genesis", fk, rows, 60)

"""Scenario families for chains."""
from gen2 import *
import chain as C
from chain import header, follow, header_hash, header_list, EMPTY_OMMERS, Chain

RANGES = [1, 100, 4999, 199999, 200000, 300000, 1000000, 1149999, 1920020, 2463000, 3199999, 3200000, 3299999, 4370000, 5199999, 5200000,
          7280000, 9199999, 9200000, 9300000, 9899999, 9900000, 10899999, 10900000, 11599999, 11600000, 12244000, 12965001, 13773000, 15050000]


def start(fk, r, number=None, **kw):
    """a header to begin with"""
    if number is None:
        number = r.choice(RANGES) if fk < PARIS else r.choice([15537394, 20000000, 300, 1])
        if fk == DAO and r.random() < .5:
            number = 1920000 + r.choice([-1, 0, 3, 8, 9, 10])
    lim = r.choice([5000000, 10000000, 12345678, 30000000, 5000001])
    used = r.choice([0, lim, lim // 2, lim // 2 + 1, lim // 2 - 1, r.randint(0, lim)])
    d = dict(parent="%064x" % r.getrandbits(256), number=number, gasLimit=lim, gasUsed=used, time=r.choice([1000, 1 << 31, 1700000000]),
             stateRoot="%064x" % r.getrandbits(256), coinbase=addr(0xC1))
    if fk < PARIS:
        d["difficulty"] = r.choice([131072, 131073, 200000, 10**7, 10**12 + 12345, 10**16 + 7])
    if fk >= LONDON:
        d["baseFee"] = r.choice([7, 8, 1000, 10**9, 123456789012])
    if fk >= CANCUN:
        d["excess"] = 131072 * r.choice([0, 0, 1, 3, 50, 300]) + r.choice([0, 0, 1, 77])
        d["blobGas"] = 131072 * r.randint(0, 9 if fk >= PRAGUE else 6)
    d.update(kw)
    return header(fk, **d)


def pre_state(fk, r):
    worker = A("NUMBER CALLVALUE", 0, "SSTORE", 5, 0, 0, "LOG1 TIMESTAMP", 1, "SSTORE COINBASE", 2, "SSTORE NUMBER", 1, "SWAP1 SUB BLOCKHASH", 3, "SSTORE")
    pre = eoas(10**26) + [acct(X[0], 1, 3, worker, {0: 9}), acct(X[1], 1, 0, A(7, 8, 32, 0, "LOG2 POP")), acct(X[2], 1, 7, A("CALLER SELFDESTRUCT")),
                          acct(X[3], 1, 5, A("GASLIMIT", 0, "SSTORE") + (A("PREVRANDAO", 1, "SSTORE")) + (A("BASEFEE", 2, "SSTORE") if fk >= LONDON else b"")
                               + (A("BLOBBASEFEE", 3, "SSTORE") if fk >= CANCUN else b""))]
    if fk >= CANCUN:
        ret = lambda b: mstore_bytes(b) + A(len(b), 0, "RETURN")
        pre += system_accounts(fk, dict(beacon=STORE_INPUT, history=STORE_INPUT, wreq=ret(b"\5" * r.choice([0, 76])), creq=ret(b"\6" * r.choice([0, 116]))))
    return pre


def some_txs(fk, r, h, nonces, k=None):
    out = []
    base = unint(h["baseFee"])
    for q in range(r.choice([0, 1, 1, 2]) if k is None else k):
        key = r.choice([KEY1, KEY2])
        typ = r.choice(types_of(fk))
        kw = type_args(fk, typ, r, r.choice([X[0], X[0], X[1], X[2], X[3], S2, X[7]]))
        if typ == 3:
            kw["blobfee"] = max(1, C.blob_price(fk, unint(h["excess"])) * r.choice([1, 2]))
        out.append(tx(fk, key, value=r.choice([0, 1, 5]), gas=r.choice([200000, 150000]), nonce=nonces.get(key, 0), price=base + r.choice([0, 1, 10]), prio=r.choice([0, 1, 2]) if fk >= LONDON else 2,
                      maxfee=base + r.choice([2, 10]), **kw))
        nonces[key] = nonces.get(key, 0) + 1
    return out


def some_wds(fk, r):
    if fk < SHANGHAI:
        return []
    return [dict(index=hx(q), validator=hx(r.randint(0, 9)), addr=r.choice([S1, X[1], X[9]]), amount=hx(r.choice([0, 1, 10**9]))) for q in range(r.choice([0, 0, 1, 2]))]


def scen(name, fk, pre, blocks, steps):
    return dict(name=name, fork=fk, chainId="01", pre=pre, blocks=blocks, steps=steps)


def flip(s, r, at=None):
    i = r.randrange(len(s)) if at is None else at
    return s[:i] + "%x" % (int(s[i], 16) ^ r.choice([1, 2, 4, 8])) + s[i + 1:]


def mutations(fk, r, h, p):
    """(name, header): the header with one thing different"""
    out = []

    def m(k, v, **more):
        g = dict(h)
        for kk, vv in dict({k: v}, **more).items():
            g[kk] = hx(vv) if isinstance(vv, int) else vv
        if g != h:
            out.append((k, g))
    n = lambda k: unint(h[k])
    for k in ("parent", "ommersHash", "stateRoot", "txRoot", "receiptRoot", "mix", "coinbase", "bloom"):
        m(k, flip(h[k], r))
    m("bloom", flip(h["bloom"], r, 0))
    m("bloom", "00" * 256)
    m("mix", flip(h["mix"], r))
    m("nonce", "0000000000000001")
    m("nonce", "8000000000000000")
    m("extra", "ab" * 32 if h["extra"] == "" else "")
    m("extra", "ab" * 33)
    m("extra", b"dao-hard-fork".hex())
    for d in (-1, 1):
        m("number", n("number") + d)
        m("difficulty", max(0, n("difficulty") + d))
        m("gasUsed", max(0, n("gasUsed") + d))
    m("difficulty", n("difficulty") * 2 + 1)
    m("gasUsed", n("gasLimit") + 1)
    m("gasUsed", n("gasLimit"))
    pl = unint(p["gasLimit"])
    for e in (pl // 1024, pl // 1024 - 1, 1 - pl // 1024, -(pl // 1024), 2 * pl):
        m("gasLimit", pl + e)
    m("gasLimit", 4999)
    pt = unint(p["time"])
    for t in (pt, pt - 1, pt + 1, n("time") + 1, (1 << 64) + pt, 0):
        m("time", t)
        if fk < PARIS and t >= pt:
            m("time", t, difficulty=C.difficulty(fk, n("number"), t, p))
    if fk >= LONDON:
        for e in (-1, 1, n("baseFee") // 8, -(n("baseFee") // 8)):
            m("baseFee", max(0, n("baseFee") + e))
        m("baseFee", unint(p["baseFee"]))
        m("baseFee", 10**9)
        m("baseFee", 0)
    if fk >= SHANGHAI:
        m("wRoot", flip(h["wRoot"], r))
    if fk >= CANCUN:
        m("beaconRoot", flip(h["beaconRoot"], r))
        for e in (-131072, -1, 1, 131072):
            m("excess", max(0, n("excess") + e))
            m("blobGas", max(0, n("blobGas") + e))
        m("excess", 0)
        m("excess", unint(p["excess"]) + unint(p["blobGas"]))
    if fk >= PRAGUE:
        m("reqHash", flip(h["reqHash"], r))
    return out


def extend(c, r, nonces, steps, k=1, **kw):
    """k valid blocks"""
    for q in range(k):
        fk = c.fk
        p = c.heads[-1]
        h = follow(fk, p, r.choice([1, 9, 12, 13, 30, 1000]), coinbase=r.choice([addr(0xC2), S2]), mix="%064x" % r.getrandbits(256),
                   beaconRoot="%064x" % r.getrandbits(256), **kw)
        ts, ws = some_txs(fk, r, h, nonces), some_wds(fk, r)
        steps.append(c.block(c.finish(h, ts, [], ws), ts, [], ws, name="extend"))


def uncle(c, fk, back, r, **kw):
    """a valid uncle header: a sibling of the block `back` generations ago"""
    p = c.heads[-1 - back]
    o = follow(fk, p, r.choice([1, 5, 12, 40]), coinbase=r.choice([addr(0xD1), addr(0xD2), S1]), stateRoot="%064x" % r.getrandbits(256), gasUsed=r.randint(0, 5000),
               extra="%04x" % r.getrandbits(16) if not (fk == DAO and DAO_BLOCK <= unint(p["number"]) + 1 < DAO_BLOCK + 10) else b"dao-hard-fork".hex())
    for k, v in kw.items():
        o[k] = hx(v) if isinstance(v, int) else v
    return o


DAO_BLOCK = C.DAO_BLOCK


def g_headers(fk, r, n, fields=None):
    """one block and everything that can be wrong with it"""
    out = []
    for i in range(n):
        p = start(fk, r)
        pre = pre_state(fk, r)
        c = Chain(fk, pre, [dict(h=p, ommers=[])])
        steps, nonces = [], {}
        extend(c, r, nonces, steps, r.choice([0, 1, 2]))
        p = c.heads[-1]
        h0 = follow(fk, p, r.choice([1, 9, 10, 12, 13, 18, 19, 20, 500, 5000]), coinbase=addr(0xC3), mix="%064x" % r.getrandbits(256), beaconRoot="%064x" % r.getrandbits(256))
        ts, ws = some_txs(fk, r, h0, nonces, r.choice([0, 1, 2])), some_wds(fk, r)
        h = c.finish(h0, ts, [], ws)
        ms = mutations(fk, r, h, p)
        if fields:
            ms = [x for x in ms if x[0] in fields]
        for nm, g in ms:
            try:
                C.rlp.decode_to(C.mod(fk, "blocks").Header, C.rl(header_list(g)))
            except Exception:
                continue
            steps.append(c.block(g, ts, [], ws, True, nm))
            if nm in ("number", "gasLimit", "time", "excess", "baseFee", "parent", "coinbase", "beaconRoot", "mix"):
                # consistent again with the changed field, where it is not forbidden in itself
                steps.append(c.block(c.finish(g, ts, [], ws), ts, [], ws, True, nm + "+"))
        if not fields:
            # the body
            if ts:
                steps.append(c.block(h, ts[:-1], [], ws, True, "body -tx"))
            steps.append(c.block(h, ts + [tx(fk, KEY1, X[7], 1, nonce=nonces.get(KEY1, 0), price=unint(h["baseFee"]) + 1)], [], ws, True, "body +tx"))
            if len(ts) > 1:
                steps.append(c.block(h, ts[::-1], [], ws, True, "body order"))
            if fk >= SHANGHAI:
                w1 = dict(index="05", validator="", addr=X[9], amount="")
                steps.append(c.block(h, ts, [], ws + [w1], True, "body +withdrawal"))
                if ws:
                    steps.append(c.block(h, ts, [], ws[1:], True, "body -withdrawal"))
                    steps.append(c.block(h, ts, [], [dict(ws[0], index="77")] + ws[1:], True, "body withdrawal"))
            # an uncle that is nowhere committed to; a block that does not build on the head
            o = follow(fk, c.heads[0], 3, coinbase=addr(0xD3))
            steps.append(c.block(h, ts, [o], ws, True, "body +ommer"))
            g = c.finish(h0, ts, [o], ws)
            steps.append(c.block(g, ts, [o], ws, True, "body +ommer committed"))
            if len(c.heads) > 1:
                side = follow(fk, c.heads[-2], 7, coinbase=addr(0xC4))
                steps.append(c.block(c.finish(side, [], [], []), [], [], [], True, "sibling of the head"))
        steps.append(c.block(h, ts, [], ws, False, "valid"))
        if not fields and i == 0:            # a block with nothing in it has commitments too
            p = c.heads[-1]
            h = c.finish(follow(fk, p, r.choice([1, 13]), coinbase=addr(0xC3), beaconRoot="%064x" % r.getrandbits(256)), [], [], [])
            for nm, g in mutations(fk, r, h, p):
                if nm in ("stateRoot", "txRoot", "receiptRoot", "bloom", "wRoot", "reqHash", "gasUsed", "blobGas", "ommersHash"):
                    try:
                        C.rlp.decode_to(C.mod(fk, "blocks").Header, C.rl(header_list(g)))
                    except Exception:
                        continue
                    steps.append(c.block(g, [], [], [], True, "empty " + nm))
            steps.append(c.block(h, [], [], [], False, "empty"))
        extend(c, r, nonces, steps, 1)
        out.append(scen("headers%d" % i, fk, pre, [dict(h=p0, ommers=[]) for p0 in [c.heads[0]]], steps))
    return out


def g_full(fk, r, n):
    """blocks that use up all of their gas, and nearly"""
    out = []
    for i in range(n):
        k = r.choice([1, 2, 3])
        p = start(fk, r, number=r.choice([20, 1000]), gasLimit=21000 * k + r.choice([0, 0, 1, 20 if k > 1 else 1]), gasUsed=0)
        pre = pre_state(fk, r)
        c = Chain(fk, pre, [dict(h=p, ommers=[])])
        steps, nonce = [], 0
        for q in range(2):
            p = c.heads[-1]

            def block(lim, gases, probe, nm, **more):
                h = follow(fk, p, 12, gasLimit=lim)
                ts = [tx(fk, KEY1, X[7], 1, gas=g, nonce=nonce + j, price=unint(h["baseFee"]) + 1) for j, g in enumerate(gases)]
                h = dict(c.finish(h, ts), **more)
                steps.append(c.block(h, ts, [], [], probe, nm))
            pl = unint(p["gasLimit"])
            m = pl // 21000
            for d in sorted({0, -1, 1, 21000 * m - pl}):
                lim = pl + d
                k = lim // 21000
                block(lim, [21000] * k, True, "all the gas, limit %+d" % d)
                block(lim, [21000] * (k + 1), True, "one too many, limit %+d" % d)
                if k:
                    block(lim, [21000] * (k - 1) + [lim - 21000 * (k - 1)], True, "the last may use the rest, limit %+d" % d)
                    block(lim, [21000] * (k - 1) + [lim - 21000 * (k - 1) + 1], True, "the last may use more, limit %+d" % d)
            block(pl, [21000] * m, True, "more used than the limit", gasUsed=hx(pl + 1))
            block(pl, [21000] * m, False, "all the gas")
            nonce += m
        out.append(scen("full%d" % i, fk, pre, [dict(h=c.heads[0], ommers=[])], steps))
    return out


def g_feechain(fk, r, n):
    return g_headers(fk, r, n, ("baseFee", "gasLimit")) if fk >= LONDON else []


def g_blobchain(fk, r, n):
    return g_headers(fk, r, n, ("excess", "blobGas")) if fk >= CANCUN else []


def g_diffchain(fk, r, n):
    return g_headers(fk, r, n, ("difficulty", "time")) if fk < PARIS else g_headers(fk, r, 1, ("difficulty",))


def g_forkheaders(fk, r, n):
    """chains across the activation of each fork; london and dao at their numbers"""
    if fk == FRONTIER:
        return []
    out = []
    for i in range(n):
        number = {LONDON: 12964998, DAO: 1919998}.get(fk, r.choice([5000, 200100]))
        p = start(fk - 1, r, number=number)
        pre = pre_state(fk - 1, r)
        if fk == DAO:
            pre += dao_pre(r)
        c = Chain(fk - 1, pre, [dict(h=p, ommers=[])])
        steps, nonces = [], {}
        extend(c, r, nonces, steps, 1)
        steps.append(c.upgrade(fk))
        p = c.heads[-1]
        if fk >= CANCUN:
            pass
        h = follow(fk, p, 12)
        ts = some_txs(fk, r, h, nonces, 1)
        h = c.finish(h, ts)
        for nm, g in mutations(fk, r, h, p):
            if nm in ("baseFee", "excess", "difficulty", "extra", "gasLimit", "nonce", "ommersHash"):
                steps.append(c.block(g, ts, [], [], True, "first " + nm))
        steps.append(c.block(h, ts, [], [], False, "first"))
        for q in range(11 if fk == DAO else 2):
            p = c.heads[-1]
            if fk == DAO:
                h = follow(fk, p, 12)
                for x in ("", b"dao-hard-fork".hex(), b"dao-hard-fork".hex() + "00", "ab", b"dao-hard-for".hex()):
                    steps.append(c.block(c.finish(dict(h, extra=x)), [], [], [], True, "extra " + x))
            extend(c, r, nonces, steps, 1)
        out.append(scen("fork%d" % i, fk - 1, pre, [dict(h=c.heads[0], ommers=[])], steps))
    return out


def dao_list():
    import re
    t = open(os.path.join(C.os.path.dirname(C.os.path.dirname(C.os.path.abspath(__file__))), "tla", "Chain.tla")).read()
    t = t[t.index("DaoList =="):]
    return re.findall(r'"([0-9a-f]{40})"', t[:t.index(">>")])


DAO_RECOVERY = "bf4ed7b27f1d666546e30d74d50d173d20bca754"


def dao_pre(r):
    l = dao_list()
    pre = []
    for a in l:
        pre.append(acct(a, r.choice([0, 1, 5]), r.choice([0, 1, 10**18, r.getrandbits(80)]), r.choice([b"", A("STOP")]), {1: 2} if r.random() < .1 else {}))
        if not any(unint(x) for x in pre[-1][1:3]) and not pre[-1][3]:
            pre[-1][1] = "01"
    for _ in range(r.choice([0, 0, 1, 3])):     # one that nobody has heard of comes into being, empty
        pre.pop(r.randrange(len(pre)))
    near = [flip(l[5], r, 39), "%040x" % (int(DAO_RECOVERY, 16) ^ 1)]
    pre += [acct(a, 1, 77) for a in near if a not in l]
    if r.random() < .7:
        pre.append(acct(DAO_RECOVERY, 1, r.choice([0, 3]), A("STOP"), {0: 1}))
    return pre


def g_upgrade(fk, r, n):
    """nothing but upgrades, all the way"""
    if fk == 17:
        return []
    out = []
    for i in range(n):
        pre = pre_state(fk, r) + (dao_pre(r) if fk <= HOMESTEAD else [])
        pre += [acct(X[20 + q], r.choice([0, 1]), r.choice([0, 5]), r.choice([b"", A("STOP")]), {q: 1} if r.random() < .5 else {}) for q in range(4)]
        if fk >= PARIS:
            pre = [a for a in pre if a[1] or a[2] or a[3] or a[4]]
        blocks = []
        p = start(fk, r, number=r.choice([7, 600]))
        for q in range(r.choice([1, 3, 7])):
            blocks.append(dict(h=p, ommers=[]))
            p = follow(fk, p, 5)
        c = Chain(fk, pre, blocks)
        steps, nonces = [], {}
        while c.fk < min(17, fk + r.choice([2, 18])):
            steps.append(c.upgrade(c.fk + 1))
            if c.fk == LONDON:
                break                            # the base fee starts at one particular block
            if r.random() < .4:
                extend(c, r, nonces, steps, 1)
        out.append(scen("upgrade%d" % i, fk, pre, blocks, steps))
    return out


def g_ommers(fk, r, n):
    if fk >= PARIS:
        return []
    out = []
    for i in range(n):
        p = start(fk, r, number=r.choice([20, 100, 300000]), gasUsed=0)
        pre = eoas(ETH)
        blocks, c = [], None
        k = r.choice([9, 9, 12, 4])
        heads = []
        named = []
        for q in range(k):
            os_ = []
            if q >= 2 and r.random() < .4:
                o = follow(fk, heads[-2], 4, coinbase=addr(0xD9), extra="%06x" % r.getrandbits(24) if fk != DAO else b"dao-hard-fork".hex())
                os_ = [o]
                if r.random() < .6:
                    os_.insert(r.choice([0, 1]), follow(fk, heads[-3 if q > 2 else -2], 6, coinbase=addr(0xDA), extra="%06x" % r.getrandbits(24) if fk != DAO else b"dao-hard-fork".hex()))
                named += [(q, o) for o in os_]
                p = dict(p, ommersHash=C.keccak(C.rl([header_list(o) for o in os_])).hex())
            heads.append(p)
            blocks.append(dict(h=p, ommers=os_))
            p = follow(fk, p, r.choice([5, 12, 20]))
        c = Chain(fk, pre, blocks)
        L = len(c.heads)
        steps = []

        def t(nm, os_, probe=True, fin=None, **kw):
            h = follow(fk, c.heads[-1], r.choice([5, 9, 13, 25]), coinbase=r.choice([addr(0xC5), addr(0xD1), S1]), **kw)
            h = c.finish(h, [], os_)
            if fin:
                h = fin(h)
            steps.append(c.block(h, [], os_, [], probe, nm))
        U = lambda back, **kw: uncle(c, fk, back, r, **kw)
        for back in range(0, min(L, 9)):
            t("age %d" % back, [U(back)])
        t("two", [U(1), U(2)])
        t("two of one parent", [U(2), U(2)])
        a = U(1)
        t("twice", [a, a])
        t("three", [U(1), U(2), U(3)] if L > 3 else [U(1), U(1), U(1)])
        for back in (0, 1, 5, 6, 7):
            if back < L:
                t("ancestor %d" % back, [c.heads[-1 - back]])
        for q, o in named:
            t("already named %d" % (L - q), [o])
            if L - q < 6:
                t("already named second", [U(1), o])
        # a header rule broken in an uncle
        for kk, v in dict(number=unint(U(1)["number"]) + 1, difficulty=unint(U(1)["difficulty"]) + 1, extra="ab" * 33, gasLimit=4000, gasUsed=10**8, time=1, parent="11" * 32,
                          ommersHash="22" * 32, txRoot="33" * 32, mix="44" * 32, nonce="0123456789abcdef").items():
            t("bad uncle " + kk, [U(1, **{kk: v})])
            t("bad second uncle " + kk, [U(2), U(1, **{kk: v})])
        if fk >= LONDON:
            t("bad uncle base fee", [U(1, baseFee=8)])
        # a cousin: its parent is itself an uncle
        o = U(2)
        o2 = follow(fk, o, 3)
        t("uncle of uncle", [o2])
        t("uncle and its child", [o, o2])
        # commitment
        x = [U(1), U(2)]
        t("hash of none", x, fin=lambda h: dict(h, ommersHash=EMPTY_OMMERS))
        t("hash of the reverse", x, fin=lambda h: dict(h, ommersHash=C.keccak(C.rl([header_list(y) for y in x[::-1]])).hex()))
        t("hash of the first", x, fin=lambda h: dict(h, ommersHash=C.keccak(C.rl([header_list(x[0])])).hex()))
        t("hash of some", [], fin=lambda h: dict(h, ommersHash=C.keccak(C.rl([header_list(x[0])])).hex()))
        # itself
        h = c.finish(follow(fk, c.heads[-1], 5))
        steps.append(c.block(dict(h, ommersHash=C.keccak(C.rl([header_list(h)])).hex()), [], [h], [], True, "nearly itself"))
        # a history that uses some of them
        for q in range(3):
            if L < 3:
                break
            t("use", [U(r.randint(1, min(5, L - 2)))] + ([U(r.randint(1, min(5, L - 2)))] if r.random() < .5 else []), probe=False)
            if steps[-1]["exp"]["bad"] or steps[-1]["exp"]["crash"]:
                break
            used = steps[-1]["ommers"]
            t("again", [used[0]])
        out.append(scen("ommers%d" % i, fk, pre, blocks, steps))
    return out


def g_longchain(fk, r, n):
    """a chain of more than 256 blocks whose last blocks look hashes up"""
    out = []
    q = A(0, "CALLDATALOAD BLOCKHASH", "CALLER POP", 32, "CALLDATALOAD SSTORE")
    for i in range(n):
        k = r.choice([3, 1, 2]) if i % 2 else r.choice([255, 255, 254, 253])
        number = r.choice([0, 0, 17, 1000]) if fk < PARIS else r.choice([0, 1000])
        if fk == DAO:
            number = 17
        p = start(fk, r, number=number, gasUsed=0, baseFee=100 if fk >= LONDON else 0, excess=0, blobGas=0)
        if number == 0:
            p["parent"] = "00" * 32
        pre = eoas(10**26) + [acct(X[0], 1, 0, q)]
        if fk >= CANCUN:
            pre += system_accounts(fk)
        blocks = []
        for j in range(k):
            blocks.append(dict(h=p, ommers=[]))
            p = follow(fk, p, 12)
        c = Chain(fk, pre, blocks)
        steps, nonce = [], 0
        for j in range(6 if k > 3 else 4):
            h = follow(fk, c.heads[-1], 12)
            num = unint(h["number"])
            known = len(c.hashes(num))
            ds = [0, 1, 2, 3, 255, 256, 257, 258, known, known - 1, r.randint(0, 256)]
            asks = [num - d for d in ds if 0 <= d <= num and (d <= known or d > 256)]
            ts = []
            for z in r.sample(asks, min(4, len(asks))) + [num - d for d in (255, 256) if num >= d and d <= known]:
                ts.append(tx(fk, KEY1, X[0], 0, z.to_bytes(32, "big") + (100 + nonce).to_bytes(32, "big"), 100000, nonce, price=unint(h["baseFee"]) + 1))
                nonce += 1
            steps.append(c.block(c.finish(h, ts), ts, name="look up"))
        out.append(scen("long%d" % i, fk, pre, blocks, steps))
    return out

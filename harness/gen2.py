"""Scenario families for transactions, blocks and precompiles."""
import hashlib
from gen import *

MAXTXGAS = 16777216


def blob(r, first="01"):
    return first + "%062x" % r.getrandbits(248)


def types_of(fk):
    return [t for t, f in ((0, 0), (1, BERLIN), (2, LONDON), (3, CANCUN), (4, PRAGUE)) if f <= fk]


def intrinsic(fk, t):
    """our own arithmetic, only used to aim at the boundary"""
    d = unhex(t["data"])
    z = d.count(0)
    g = 21000 + 4 * z + (16 if fk >= ISTANBUL else 68) * (len(d) - z)
    if not t["to"]:
        g += (32000 if fk >= HOMESTEAD else 0) + (2 * ((len(d) + 31) // 32) if fk >= SHANGHAI else 0)
    g += 2400 * len(t["access"]) + 1900 * sum(len(k) for _, k in t["access"]) + 25000 * len(t["auths"])
    return g, (21000 + 10 * (z + 4 * (len(d) - z)) if fk >= PRAGUE else 0)


def type_args(fk, typ, r, to=None):
    kw = dict(typ=typ, to=X[1] if to is None else to)
    if typ == 3:
        kw.update(blobs=[blob(r)], blobfee=10)
    if typ == 4:
        kw.update(auths=[sign_auth(1, X[2], 0, KEY3)])
    if typ >= 1 and r.random() < .4:
        kw.update(access=[(X[2], ["%064x" % 1])])
    return kw


# ------------------------------------------------------------------ P14
def g_admit(fk, r, n):
    out = []
    bal = 10 * ETH
    con = acct(X[1], 1, 5, A(1, 0, "SSTORE"))
    tgt = acct(X[2], 1, 0, A("STOP"))

    def sc(nm, txs, pre=None, blk=None):
        out.append(scenario("%s_%d" % (nm, len(out)), fk, [con, tgt] + (pre if pre is not None else [acct(S1, 5, bal), acct(S2, 0, bal)]), txs, blk))

    # transaction types, in every fork
    for typ in range(5):
        kw = type_args(fk, typ, r)
        sc("type", [tx(fk, KEY1, nonce=5, **kw)])
    good = types_of(fk)
    for typ in good:
        K = lambda **o: dict(type_args(fk, typ, r), **o)
        # nonce
        for nn in (4, 6, 0, (1 << 64) - 2):
            sc("nonce", [tx(fk, KEY1, nonce=nn, **K())])
        for nn in ((1 << 64) - 2, (1 << 64) - 1):
            sc("maxnonce", [tx(fk, KEY1, nonce=nn, **K())], [acct(S1, nn, bal)])
        # balance, to the wei
        for price, value in ((10, 0), (7, 5), (1000, 10**15)):
            t = tx(fk, KEY1, nonce=5, value=value, price=price, prio=r.choice([0, 3]), **K())
            need = 200000 * price + value + (131072 * 10 if typ == 3 else 0)
            for d in (0, -1):
                sc("balance", [t], [acct(S1, 5, need + d)])
        # gas limit against the intrinsic cost
        datas = [b"", b"\0", b"\1", bytes(31), b"\1" * 33, bytes(10) + b"\7" * 20, b"\1" * 800, bytes(3000)]
        for to in ([X[1], X[2], ""] if typ < 3 else [X[1]]):
            for data in r.sample(datas, 3):
                al = r.choice([[], [(X[1], [])], [(X[1], ["%064x" % 1] * 3), (X[1], []), (X[2], ["%064x" % 7])]]) if typ else []
                kw = K(to=to, data=data, access=al)
                if typ == 4:
                    kw["auths"] = [sign_auth(1, X[2], 0, KEY3)] * r.choice([1, 3])
                t0 = tx(fk, KEY1, nonce=5, **kw)
                lo = max(intrinsic(fk, t0))
                for g in {min(intrinsic(fk, t0)), intrinsic(fk, t0)[0], lo, lo - 1}:
                    sc("intrinsic", [tx(fk, KEY1, nonce=5, gas=g, **kw)])
        # block gas limit
        for d in (0, 1):
            sc("blockgas", [tx(fk, KEY1, nonce=5, gas=400000 + d, **K())], blk=dict(gasLimit=400000))
            sc("blockgas2", [tx(fk, KEY2, to=S1, gas=50000), tx(fk, KEY1, nonce=5, gas=379000 + d, **K())], blk=dict(gasLimit=400000))
        # base fee
        if fk >= LONDON:
            for p in (6, 7, 8):
                sc("basefee", [tx(fk, KEY1, nonce=5, price=p, prio=0, **K())])
            for prio in (9, 10, 11):
                sc("prio", [tx(fk, KEY1, nonce=5, price=10, prio=prio, **K())])
            sc("bigfee", [tx(fk, KEY1, nonce=5, price=M256 - 1, prio=0, **K())])
            sc("zerofee", [tx(fk, KEY1, nonce=5, price=0, prio=0, **K())], blk=dict(baseFee=""))
        else:
            sc("zerofee", [tx(fk, KEY1, nonce=5, price=0, **K())])
            sc("nofunds", [tx(fk, KEY1, nonce=0, price=0, **K())], [])
        # sender with code
        codes = [A("STOP"), bytes.fromhex("ef0100" + X[2]), bytes.fromhex("ef0100" + X[2])[:22], bytes.fromhex("ef0100" + X[2] + "00"),
                 bytes.fromhex("ef0101" + X[2]), bytes.fromhex("ef0100" + S1)]
        for c in codes if typ == good[-1] else r.sample(codes, 2):
            sc("code", [tx(fk, KEY1, nonce=5, **K())], [acct(S1, 5, bal, c)])
        # block full, then another
        # value above balance
        sc("value", [tx(fk, KEY1, nonce=5, value=bal, **K())])
        sc("value", [tx(fk, KEY1, nonce=5, value=M256 - 1, **K())])
        # enormous gas
        for g in (1 << 31, 1 << 64, M256 - 1):
            sc("hugegas", [tx(fk, KEY1, nonce=5, gas=g, price=0 if fk < LONDON else 7, prio=0, **K())], [acct(S1, 5, M256 - 1)], dict(gasLimit=(1 << 31) - 1))
        # the cap of Osaka
        for g in (MAXTXGAS - 1, MAXTXGAS, MAXTXGAS + 1):
            sc("gascap", [tx(fk, KEY1, nonce=5, gas=g, **K())])
        # a rejected transaction after accepted ones
        sc("second", [tx(fk, KEY2, nonce=0, to=X[1]), tx(fk, KEY1, nonce=7, **K())])
        sc("second", [tx(fk, KEY2, nonce=0, to=X[1]), tx(fk, KEY1, nonce=5, **K()), tx(fk, KEY2, nonce=0, to=X[1])])
        sc("second", [tx(fk, KEY2, nonce=0, to=X[1]), tx(fk, KEY1, nonce=5, **K()), tx(fk, KEY2, nonce=1, to=X[1])])
    # init code size
    for ln in (49152, 49153):
        kw = dict(to="", data=bytes(ln), gas=900000)
        sc("initcode", [tx(fk, KEY1, nonce=5, **kw)])
        sc("bigdata", [tx(fk, KEY1, nonce=5, to=X[2], data=bytes(ln), gas=900000)])
    if fk >= CANCUN:
        mx = 6 if fk == CANCUN else 9
        for nb in (0, 1, 5, 6, 7, 9, 10):
            sc("blobs", [tx(fk, KEY1, nonce=5, typ=3, to=X[1], blobs=[blob(r) for _ in range(nb)], blobfee=10)])
        for k in range(3):
            bs = [blob(r) for _ in range(3)]
            bs[k] = blob(r, r.choice(["00", "02", "ff"]))
            sc("blobver", [tx(fk, KEY1, nonce=5, typ=3, to=X[1], blobs=bs, blobfee=10)])
        for a, b in ((mx - 3, 3), (mx - 3, 4), (1, mx), (3, 3)):
            if a:
                sc("blobs2", [tx(fk, KEY2, nonce=0, typ=3, to=X[1], blobs=[blob(r) for _ in range(a)], blobfee=10),
                              tx(fk, KEY1, nonce=5, typ=3, to=X[1], blobs=[blob(r) for _ in range(b)], blobfee=10)])
        for ex in (0, 131072 * 5, 20 * 10**6, 40 * 10**6):
            den = 3338477 if fk == CANCUN else 5007716
            p, acc, i = 0, den, 1
            while acc > 0:
                p += acc
                acc = acc * ex // (den * i)
                i += 1
            p //= den
            for d in (-1, 0, 1):
                sc("blobfee", [tx(fk, KEY1, nonce=5, typ=3, to=X[1], blobs=[blob(r)], blobfee=max(0, p + d))], blk=dict(excess=hx(ex)))
                need = 200000 * 10 + 131072 * (p + 1)
                if d:
                    sc("blobbal", [tx(fk, KEY1, nonce=5, typ=3, to=X[1], blobs=[blob(r)], blobfee=p + 1)], [acct(S1, 5, need + min(d, 0))], dict(excess=hx(ex)))
        sc("blobcreate", [tx(fk, KEY1, nonce=5, typ=3, to="", blobs=[blob(r)], blobfee=10)])
    if fk >= PRAGUE:
        sc("noauth", [tx(fk, KEY1, nonce=5, typ=4, to=X[1])])
        sc("authcreate", [tx(fk, KEY1, nonce=5, typ=4, to="", auths=[sign_auth(1, X[2], 0, KEY3)])])
        for ln in (20, 200, 1000):      # the floor of the price of data
            for mk in (b"\1", b"\0"):
                t0 = tx(fk, KEY1, nonce=5, to=S2, data=mk * ln)
                i, f = intrinsic(fk, t0)
                for g in (i, f - 1, f, f + 1, f + 5000):
                    sc("floor", [tx(fk, KEY1, nonce=5, to=r.choice([S2, X[1]]), data=mk * ln, gas=g)])
    return out


# ------------------------------------------------------------------ P15
N = SECP_N


def sig_variants(fk, t, r, all_=False):
    """(name, transaction) with the signature or a signed field changed"""
    v, rr, s = unint(t["v"]), unint(t["r"]), unint(t["s"])
    typ = t["type"]
    out = [("plain", t)]
    w = lambda nm, **k: out.append((nm, dict(t, **{a: hx(b) for a, b in k.items()})))
    flip = v ^ 1 if typ else ((v - 35) ^ 1) + 35 if v >= 35 and (v - 35) % 2 >= 0 and v > 28 else 55 - v
    w("flip", v=flip)
    w("highs", s=N - s)
    w("highsflip", s=N - s, v=flip)
    w("r0", r=0)
    w("s0", s=0)
    w("rn", r=N)
    w("rn1", r=N - 1)
    w("rbig", r=rr + N)
    w("rmax", r=(1 << 256) - 1)
    w("sn", s=N)
    w("sbig", s=s + N)
    w("shalf", s=N // 2)
    w("shalf1", s=N // 2 + 1)
    w("r1", r=1)
    w("s1", s=1)
    for x in ((2, 3, 26, 27, 28, 37, 255) if typ else (0, 1, 2, 26, 27, 28, 29, 30, 34, 35, 36, 37, 38, 39, 40, 2709, 2710)):
        w("v%d" % x, v=x)
    for k in range(1, 40):          # the point of the signature has a coordinate above the order: refused by its parity
        x = N + k
        y2 = (x ** 3 + 7) % SECP_P
        if pow(y2, (SECP_P - 1) // 2, SECP_P) == 1:
            base = 0 if typ else 27
            w("over2", r=k, s=r.randrange(1, N // 2), v=base + 2)
            w("over3", r=k, s=r.randrange(1, N // 2), v=base + 3)
            break
    for f in ("nonce", "gas", "value"):
        w("t_" + f, **{f: unint(t[f]) + 1})
    for f in (("gasPrice",) if typ <= 1 else ("maxPrio", "maxFee")):
        w("t_" + f, **{f: unint(t[f]) + 1})
    if typ:
        w("t_chain", chainId=unint(t["chainId"]) + 1)
        w("t_chain0", chainId=0)
        out.append(("t_access", dict(t, access=t["access"] + [[X[3], []]])))
        if t["access"]:
            out.append(("t_access2", dict(t, access=[[t["access"][0][0], list(t["access"][0][1]) + ["%064x" % 9]]] + t["access"][1:])))
    out.append(("t_to", dict(t, to=X[4])))
    out.append(("t_data", dict(t, data=t["data"] + "00")))
    out.append(("t_data2", dict(t, data="01" + t["data"])))
    if typ == 3:
        w("t_blobfee", blobFee=unint(t["blobFee"]) + 1)
        out.append(("t_blobs", dict(t, blobs=t["blobs"] + [blob(r)])))
        out.append(("t_blobs2", dict(t, blobs=[t["blobs"][0][:-1] + ("0" if t["blobs"][0][-1] != "0" else "1")] + t["blobs"][1:])))
    if typ == 4:
        out.append(("t_auths", dict(t, auths=t["auths"] + [sign_auth(0, X[5], 1, KEY3)])))
        out.append(("t_auths2", dict(t, auths=[dict(t["auths"][0], nonce=hx(unint(t["auths"][0]["nonce"]) + 1))] + t["auths"][1:])))
    return out


def rich_tx(fk, typ, r, chain=1, sign_chain=None, protect=None, creation=False):
    kw = dict(typ=typ, to="" if creation and typ < 3 else "%040x" % r.getrandbits(160), value=r.choice([0, 1, r.getrandbits(60)]),
              data=bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 5, 32, 33, 55, 56, 60, 300]))), gas=r.choice([21000, 200000, 90000]),
              nonce=r.choice([0, 1, 127, 128, 1 << 20]), price=r.choice([0, 1, 7, 128, 10**10]), prio=r.choice([0, 1, 255]), maxfee=r.choice([1000, 0, 10**11]),
              chain=chain, sign_chain=sign_chain, protect=protect)
    if typ:
        kw["access"] = [("%040x" % r.getrandbits(160), ["%064x" % r.choice([0, 1, r.getrandbits(256)]) for _ in range(r.randint(0, 3))]) for _ in range(r.randint(0, 3))]
    if typ == 3:
        kw.update(blobs=[blob(r) for _ in range(r.randint(1, 3))], blobfee=r.choice([0, 1, 10**9]))
    if typ == 4:
        kw.update(auths=[sign_auth(r.choice([0, 1, 5]), X[2], r.choice([0, 5, 300]), KEY3) for _ in range(r.randint(1, 2))])
    return tx(fk, r.choice([KEY1, KEY2, 3, N - 1]), **kw)


def g_sign(fk, r, n):
    """blocks in which a changed transaction would cost nothing, so that a
    changed sender shows in the state"""
    out = []
    for typ in types_of(fk):
        for cid in r.sample([1, 1, 5, 1337, 1 << 40], 2) if fk >= SPURIOUS else [1]:
            for prot in ([False, True] if typ == 0 and fk >= SPURIOUS else [None]):
                t = tx(fk, KEY1, X[1], r.choice([0, 0, 1]), r.choice([b"\1\2", b"", b""]), 200000, 0, typ, price=0, prio=0, access=[(X[2], ["%064x" % 1])] if typ else (),
                       blobs=[blob(r)] if typ == 3 else (), auths=[sign_auth(0, X[2], 0, KEY3)] if typ == 4 else (), chain=cid, protect=prot)
                vs = sig_variants(fk, t, r)
                must = [x for x in vs[4:] if x[0] in ("v0", "v1", "v26", "v27", "v28", "v29", "v35", "r0", "s0", "rn", "sn", "shalf1")]
                rest = [x for x in vs[4:] if x not in must]
                vs = vs[:4] + (must if n > 6 else r.sample(must, 2)) + r.sample(rest, min(len(rest), max(3, n - 6)))
                for nm, t2 in vs:
                    pre = [acct(X[1], 1, 0, A("ORIGIN", 0, "SSTORE CALLER", 1, "SSTORE")), acct(X[2], 1, 0, A("STOP")), acct(S1, 0, ETH)]
                    out.append(scenario("sign_%s_%d_%d" % (nm, typ, len(out)), fk, pre, [t2], dict(baseFee="", chainId=hx(cid))))
    return out


# ------------------------------------------------------------------ P16
def g_fees(fk, r, n):
    out = []
    for i in range(n):
        # contracts that use or refund various amounts
        refunder = b"".join(A(0, k, "SSTORE") for k in range(r.randint(1, 12)))
        burner = A(0, "CALLDATALOAD", "JUMPDEST", 1, "SWAP1 SUB DUP1", 3, "JUMPI")
        scale = (1 << 75) + 1 if i % 5 == 1 else 1
        pre = [acct(S1, 0, 10**25 * scale), acct(S2, 0, 10**25 * scale), acct(X[1], 1, 5, refunder, {k: 1 for k in range(12)}), acct(X[2], 1, 0, burner),
               acct(X[3], 1, 9, A("CALLER SELFDESTRUCT")), acct(X[4], 1, 0, bytes([254])), acct(X[5], 1, 0, ENDS["revert"](fk)),
               acct(X[6], 1, 0, A("COINBASE BALANCE", 0, "SSTORE ORIGIN BALANCE", 1, "SSTORE GASPRICE", 2, "SSTORE"))]
        base = r.choice([7, 1, 10**9, 12345678901]) * scale
        ts, nonce = [], {KEY1: 0, KEY2: 0}
        for j in range(r.randint(1, 4)):
            k = r.choice([KEY1, KEY2])
            typ = r.choice(types_of(fk))
            low = base if fk >= LONDON else 0
            price = low + r.choice([0, 0, 1, 10**9]) * scale
            prio = r.choice([0, 1, 5, 10**9]) * scale
            kw = dict(typ=typ, to=r.choice([X[1], X[1], X[2], X[3], X[4], X[5], X[6], S2, GHOST, ""]), gas=r.choice([500000, 200000, 1000000]),
                      value=r.choice([0, 1, 10**18]), nonce=nonce[k], price=price, maxfee=max(prio, low + r.choice([prio, 0, 1, 3, 10**9 * scale, 10**10])), prio=prio,
                      data=r.choice([b"", (100).to_bytes(32, "big"), bytes(r.randint(0, 400)), b"\1" * r.randint(1, 1500)]))
            if kw["to"] == X[2]:
                kw["data"] = r.choice([5, 60, 150]).to_bytes(32, "big")
            if kw["to"] == "":
                kw["data"] = r.choice([initcode_for(A("STOP")), bytes([254]), A("CALLER SELFDESTRUCT"), A(1, 0, "SSTORE", 0, 0, "SSTORE")])
            if typ == 3:
                kw.update(blobs=[blob(r) for _ in range(r.choice([1, 1, 2]))], blobfee=r.choice([10**10, 10**11]))
                kw["to"] = kw["to"] or X[1]
            if typ == 4:
                kw.update(auths=[sign_auth(r.choice([0, 2]), X[5], r.choice([0, 0, 1]), r.choice([KEY3, KEY3, 77]))] * r.randint(1, 3))
                kw["to"] = kw["to"] or X[1]
            if typ and r.random() < .5:
                kw.update(access=[(X[1], ["%064x" % q for q in range(r.randint(0, 4))])])
            ts.append(tx(fk, k, **kw))
            nonce[k] += 1
        # coinbase: fresh, the sender, the recipient, a contract that dies
        out.append(scenario("fees%d" % i, fk, pre, ts, dict(baseFee=hx(base), coinbase=r.choice([COINBASE, COINBASE, S1, X[1], X[3], X[6]]),
                                                           excess=hx(r.choice([0, 10**7, 5 * 10**7])))))
    # the refund cap from both sides
    for k in (1, 2, 3, 5, 10, 20):
        code = b"".join(A(0, q, "SSTORE") for q in range(k))
        for pad in (0, 1, 6):
            pre = [acct(S1, 0, 10**20), acct(X[1], 1, 0, A(*[M256 - 1, 2, "EXP POP"] * pad) + code, {q: 1 for q in range(k)})]
            out.append(scenario("cap%d_%d" % (k, pad), fk, pre, [tx(fk, KEY1, X[1], 0, b"", 600000, 0), tx(fk, KEY1, X[1], 0, b"", 600000, 1)]))
    if fk >= PRAGUE:       # calldata floor against refund
        for k in (0, 1, 4):
            for ln in (100, 500, 1000, 2000):
                code = b"".join(A(0, q, "SSTORE") for q in range(k))
                pre = [acct(S1, 0, 10**20), acct(X[1], 1, 0, code, {q: 1 for q in range(k)})]
                out.append(scenario("floor%d_%d" % (k, ln), fk, pre, [tx(fk, KEY1, X[1], 0, b"\5" * ln, 600000, 0)]))
    return out


# ------------------------------------------------------------------ P17
def g_setcode(fk, r, n):
    if fk < PRAGUE:
        # a delegation is ordinary (invalid) code before Prague
        pre = eoas() + [acct(X[1], 1, 0, bytes.fromhex("ef0100" + X[2])), acct(X[2], 1, 0, A(1, 1, "SSTORE")),
                        acct(X[0], 1, 0, call("CALL", X[1], 0, 50000) + A("POP") + A("@" + X[1], "EXTCODESIZE POP"))]
        return [scenario("old", fk, pre, [tx(fk, KEY1, X[0]), tx(fk, KEY1, X[1], nonce=1)])]
    out = []
    A3 = key_addr(KEY3)
    keys = [KEY1, KEY2, KEY3, 0x1004, 0x1005]
    for i in range(n):
        pre = [acct(S1, 0, 10**20), acct(S2, r.choice([0, 3]), 10**20)]
        code = A("ADDRESS POP CALLER POP CALLVALUE POP CODESIZE POP", 0, "CALLDATALOAD POP", 1, 0, "SLOAD ADD", 0, "SSTORE") + \
            r.choice([b"", A("ADDRESS EXTCODESIZE POP ADDRESS EXTCODEHASH POP"), A("CODESIZE", 0, 0, "CODECOPY", 0, "MLOAD POP")]) + \
            r.choice([A(32, 0, "RETURN"), A("STOP"), bytes([254]), ENDS["revert"](fk), A("CALLER SELFDESTRUCT"), create_code(fk, A("STOP"), 0) + A("POP")])
        pre += [acct(X[1], 1, 0, code), acct(X[2], 1, 3, A(7, 7, "SSTORE", 0, 0, "LOG0")), acct(X[3], 1, 0, bytes.fromhex("ef0100" + X[1])),
                acct(X[4], 0, 5), acct(X[5], 2, 0, bytes.fromhex("ef0100" + X[3])), acct(X[6], 1, 0, bytes.fromhex("ef0100" + X[6])),
                acct(X[7], 1, 0, bytes.fromhex("ef0100" + addr(r.choice([1, 2, 4])))), acct(X[8], 1, 4, bytes.fromhex("ef0100" + GHOST))]
        for k in keys[2:]:
            m = r.randrange(6)
            if m == 1:
                pre.append(acct(key_addr(k), r.choice([0, 1]), 5))
            elif m == 2:
                pre.append(acct(key_addr(k), 1, 5, bytes.fromhex("ef0100" + X[2])))
            elif m == 3:
                pre.append(acct(key_addr(k), 1, 5, r.choice([A("STOP"), bytes.fromhex("ef0100" + X[2])[:-1], bytes.fromhex("ef0101" + X[2])])))
            elif m == 4:
                pre.append(acct(key_addr(k), r.choice([(1 << 64) - 2, (1 << 64) - 1]), 5))
            elif m == 5:
                pre.append(acct(key_addr(k), 0, 1, b"", {0: 7}))
        nonces = {a[0]: unint(a[1]) for a in pre}
        deleg = [key_addr(k) for k in keys] + X[3:9]
        top = b""
        for j in range(r.randint(2, 5)):
            a = r.choice(deleg)
            q = r.random()
            if q < .5:
                top += call(r.choice(callkinds(fk)), a, r.choice([0, 0, 1]), r.choice([100000, 60000, 3000, 2600, 5200, 100]), (0, r.choice([0, 36])), (0, 32)) + A("POP")
            elif q < .6:
                top += A("@" + a, "EXTCODESIZE POP", "@" + a, "EXTCODEHASH POP", 30, 0, 0, "@" + a, "EXTCODECOPY", 0, "MLOAD POP")
            elif q < .7:
                top += A("@" + r.choice([X[1], X[2], GHOST]), "BALANCE POP")
            elif q < .8:
                top += A("@" + a, "BALANCE POP")
            else:
                top += create_code(fk, initcode_for(bytes.fromhex("ef0100" + X[1])), 0) + A("POP")
            top += obs(fk)
        pre.append(acct(X[0], 1, 100, top))
        ts = []
        nt = {KEY1: 0, KEY2: nonces[S2]}
        seq = dict(nonces)
        for j in range(r.randint(1, 3)):
            k = r.choice([KEY1, KEY1, KEY2])
            auths = []
            for q in range(r.randint(1, 4)):
                ka = r.choice(keys)
                aa = key_addr(ka)
                cur = seq.get(aa, 0) + (1 if ka == k else 0)
                nn = r.choice([cur, cur, cur, cur + 1, 0, (1 << 64) - 1])
                a = sign_auth(r.choice([0, 1, 1, 1, 2]), r.choice([X[1], X[1], X[2], addr(0), addr(0), X[3], addr(4), key_addr(KEY3), key_addr(ka), GHOST]), nn, ka)
                if nn == cur:
                    seq[aa] = seq.get(aa, 0) + 1     # a guess that keeps later ones plausible
                m = r.randrange(14)
                if m == 0:
                    a["s"] = hx(N - unint(a["s"]))
                    a["v"] = hx(1 - unint(a["v"]))
                elif m == 1:
                    a["v"] = hx(r.choice([2, 27, 255]))
                elif m == 2:
                    a["r"] = hx(r.choice([0, N, N - 1, 1]))
                elif m == 3:
                    a["s"] = hx(r.choice([0, N, N // 2, N // 2 + 1, 1]))
                elif m == 4:
                    a["nonce"] = hx(unint(a["nonce"]) + 1)
                auths.append(a)
            to = r.choice([X[0], X[0], key_addr(KEY3), key_addr(0x1004), key_addr(0x1005), X[3], X[5], X[6], X[7], X[8], X[1], S1, S2])
            typ = 4 if r.random() < .8 else 2
            al = [(r.choice([X[1], X[2], key_addr(KEY3)]), [])] if r.random() < .3 else []
            ts.append(tx(fk, k, to, r.choice([0, 0, 1]), r.choice([b"", b"\1" * 36]), r.choice([700000, 400000, 150000 + 25000 * len(auths)]), nt[k], typ, price=10, prio=1,
                         auths=auths if typ == 4 else (), access=al))
            nt[k] += 1
            if typ == 4 and k in (KEY1, KEY2):
                nt[k] += 0
        # nonces move when a sender authorises itself: build such blocks separately
        out.append(scenario("deleg%d" % i, fk, pre, ts))
    # one authorization of each kind, then a look at all of the accounts
    for i in range(2):
        ks = [0x1100 + q for q in range(12)]
        pre = [acct(S1, 0, 10**20), acct(X[1], 1, 0, A("GAS POP"))]
        auths = []
        for q, k in enumerate(ks):
            a = sign_auth(r.choice([0, 1]), X[1], [0, 1, 5][i] if q != 7 else (1 << 64) - 1, k)
            if q == 1:
                a = sign_auth(2, X[1], i, k)
            elif q == 2:
                a = sign_auth(1, X[1], i + 1, k)
            elif q in (3, 4):
                pass
            elif q == 5:
                a["v"] = "02"
            elif q == 6:
                a["s"], a["v"] = hx(N - unint(a["s"])), hx(1 - unint(a["v"]))
            elif q == 8:
                a = sign_auth(1, addr(0), i, k)
            if i or q in (3, 4):
                pre.append(acct(key_addr(k), (1 << 64) - 1 if q == 7 else i, 3, {3: A("STOP"), 4: bytes.fromhex("ef0100" + X[1])}.get(q, b"") if q < 9 else
                                {9: bytes.fromhex("ef0101" + X[1]), 10: bytes.fromhex("ef0100" + X[1] + "00"), 11: b""}[q]))
            auths.append(a)
        z = b"".join(A("@" + key_addr(k), "BALANCE POP", "@" + key_addr(k), "EXTCODESIZE POP") for k in ks)
        pre.append(acct(X[0], 1, 0, z + b"".join(call("CALL", key_addr(k), 0, 9000) + A("POP") for k in ks)))
        out.append(scenario("each%d" % i, fk, pre, [tx(fk, KEY1, X[0], 0, b"", 900000, 0, 4, price=10, prio=1, auths=auths), tx(fk, KEY1, X[0], 0, b"", 900000, 1)]))
    # the sender authorises itself, then sends again
    for i, nn in enumerate((0, 1, 2)):
        a = sign_auth(1, X[1], nn, KEY1)
        pre = [acct(S1, 0, 10**20), acct(X[1], 1, 0, A(1, 0, "SLOAD ADD", 0, "SSTORE CALLVALUE POP"))]
        for second in (1, 2):
            out.append(scenario("self%d_%d" % (i, second), fk, pre, [tx(fk, KEY1, S1, 0, b"", 300000, 0, 4, auths=[a]),
                                                                   tx(fk, KEY1, S1, 5, b"", 300000, second, 2)]))
    return out


# ------------------------------------------------------------------ P18
def g_transient(fk, r, n):
    if fk < CANCUN:
        return [scenario("none", fk, eoas() + [acct(X[0], 1, 0, call("CALL", X[1], 0, 50000) + call("CALL", X[2], 0, 50000)), acct(X[1], 1, 0, A(1, "TLOAD")), acct(X[2], 1, 0, A(1, 1, "TSTORE"))],
                         [tx(fk, KEY1, X[0])])]
    out = []
    for i in range(n):
        k = lambda: r.choice([0, 1, 2, M256 - 1])

        def piece(d):
            q = r.random()
            if q < .35:
                return A(r.choice([0, 1, 2, 77, M256 - 1]), k(), "TSTORE")
            if q < .7:
                return A(k(), "TLOAD POP")
            if q < .75:
                return A(1, "TLOAD", r.choice([1, 2]), "SSTORE")
            if q < .8:
                return A(r.choice([0, 3]), k(), "SSTORE", k(), "SLOAD POP")
            if q < .85:
                return create_code(fk, A(5, 1, "TSTORE", 1, "TLOAD POP") + r.choice([b"", bytes([254]), A("ADDRESS SELFDESTRUCT"), ENDS["revert"](fk)]), 0, r.choice([None, 1])) + A("POP")
            return call(r.choice(callkinds(fk)), X[d], 0, r.choice([90000, 60000, 200])) + A("POP")
        prog = lambda d, a, b: b"".join(piece(d) for _ in range(r.randint(a, b)))
        ends = lambda: r.choice([A("STOP"), A("STOP"), bytes([254]), ENDS["revert"](fk), oog(fk), A("@" + S2, "SELFDESTRUCT")])
        reads = A(0, "TLOAD POP", 1, "TLOAD POP", 2, "TLOAD POP", M256 - 1, "TLOAD POP")
        pre = eoas() + [acct(X[0], 1, 9, reads + prog(1, 4, 8) + call("CALL", X[2], 0, 100000) + A("POP") + reads + r.choice([b"", b"", bytes([254])])),
                        acct(X[1], 1, 9, prog(2, 2, 5) + reads + ends()), acct(X[2], 1, 9, prog(0, 2, 4) + ends())]
        ts = [tx(fk, KEY1, r.choice([X[0], X[1]]), 0, b"", r.choice([600000, 250000]), q) for q in range(r.randint(1, 3))]
        out.append(scenario("trans%d" % i, fk, pre, ts))
    # price: 100 each, and the stipend is enough
    pre = eoas() + [acct(X[0], 1, 9, call("CALL", X[1], 1, 0) + A("POP") + call("CALL", X[2], 0, 100) + A("POP") + call("CALL", X[2], 0, 105) + A("POP") + call("CALL", X[2], 0, 106) + A("POP")),
                    acct(X[1], 1, 0, A(1, 1, "TSTORE", 1, "TLOAD POP")), acct(X[2], 1, 0, A(1, 1, "TSTORE"))]
    out.append(scenario("price", fk, pre, [tx(fk, KEY1, X[0])]))
    return out


# ------------------------------------------------------------------ P19
def g_logs(fk, r, n):
    out = []
    for i in range(n):
        def log():
            k = r.randint(0, 4)
            w = lambda: r.choice([0, 1, r.getrandbits(256), int(X[3], 16), M256 - 1])
            s, o = r.choice([(0, 0), (1, 31), (32, 0), (33, 10), (70, 0), (0, 500)])
            return A(r.getrandbits(256), 0, "MSTORE") + A(*[w() for _ in range(k)], s, o, "LOG%d" % k)
        logs = lambda a, b: b"".join(log() for _ in range(r.randint(a, b)))
        ends = lambda: r.choice([A("STOP"), A("STOP"), bytes([254]), ENDS["revert"](fk), oog(fk), A("@" + S2, "SELFDESTRUCT")])
        c = lambda a: call(r.choice(callkinds(fk)[:3]), a, r.choice([0, 0, 1]), r.choice([100000, 60000, 400])) + A("POP")
        pre = eoas() + [acct(X[0], 1, 30, logs(0, 2) + c(X[1]) + logs(0, 1) + c(X[2]) + logs(0, 2) + create_code(fk, logs(0, 2) + r.choice([b"", bytes([254])]), 0) + A("POP") + r.choice([b"", b"", bytes([254])])),
                        acct(X[1], 1, 5, logs(0, 2) + c(X[2]) + logs(0, 1) + ends()), acct(X[2], 1, 5, logs(1, 2) + ends()), acct(X[3], 1, 0, bytes([254]))]
        ts = []
        for q in range(r.randint(1, 4)):
            typ = r.choice(types_of(fk))
            kw = dict(typ=typ, to=r.choice([X[0], X[0], X[1], X[2], X[3], S2, ""]), gas=r.choice([500000, 300000]), nonce=q)
            if kw["to"] == "":
                kw["data"] = logs(0, 2) + r.choice([b"", bytes([254]), A(0, 0, "RETURN")])
            if typ == 3:
                kw.update(blobs=[blob(r)], blobfee=10)
            if typ == 4:
                kw.update(auths=[sign_auth(1, X[2], 9, KEY3)])
            if typ >= 3:
                kw["to"] = kw["to"] or X[0]
            ts.append(tx(fk, KEY1, **kw))
        out.append(scenario("logs%d" % i, fk, pre, ts))
    # many receipts: the keys of the tries change length at 128 and at 256
    many = 259 if n > 20 else 131
    pre = [acct(S1, 0, 10**20), acct(X[1], 1, 0, A("NUMBER GAS", 0, 0, "LOG2"))]
    ts = [tx(fk, KEY1, X[1] if q % 26 == 0 else S2, 1, b"", 60000, q) for q in range(many)]
    out.append(scenario("many", fk, pre, ts))
    return out


# ------------------------------------------------------------------ P25
def g_withdraw(fk, r, n):
    if fk < SHANGHAI:
        return []
    out = []
    for i in range(n):
        who = [S1, S2, X[1], X[2], X[10], X[11], GHOST, addr(2), COINBASE, SYS["beacon"]]
        pre = [acct(S1, 0, 10**20), acct(X[1], 1, 5, A(1, 1, "SSTORE", 0, 0, "LOG0")), acct(X[2], 1, 7, A("CALLER SELFDESTRUCT")), acct(X[11], 0, r.choice([1, 10**18])),
               acct(X[3], 1, 0, A("@" + X[10], "BALANCE", 0, "SSTORE", "@" + X[1], "BALANCE", 1, "SSTORE"))]
        ws = [dict(index=hx(r.choice([q, r.getrandbits(63)])), validator=hx(r.choice([0, 1, r.getrandbits(63)])), addr=r.choice(who),
                   amount=hx(r.choice([0, 0, 1, 32 * 10**9, (1 << 64) - 1, r.getrandbits(64)]))) for q in range(r.choice([0, 1, 2, 3, 16]))]
        if r.random() < .4 and ws:
            ws.append(dict(ws[0], index=hx(99)))       # the same address again
        if r.random() < .3 and ws:
            for _ in range(r.choice([1, 1, 3])):        # all of it again
                ws.insert(r.randrange(len(ws) + 1), dict(r.choice(ws)))
        ts = [tx(fk, KEY1, r.choice([X[1], X[2], X[3], S2, X[10]]), r.choice([0, 1]), b"", 100000, q) for q in range(r.randint(0, 2))]
        if r.random() < .2:
            # a payment only the withdrawal could fund comes too early
            ts.append(tx(fk, KEY3, S2, 0, b"", 21000, 0))
            ws.append(dict(index="05", validator="01", addr=key_addr(KEY3), amount=hx(10**9)))
        out.append(scenario("wd%d" % i, fk, pre, ts, dict(coinbase=r.choice([COINBASE, X[10], X[2]])), ws))
    ws = [dict(index=hx(q), validator=hx(q), addr=addr(0xFE00 + q % 7), amount=hx(q)) for q in range(131)]
    out.append(scenario("wdmany", fk, [], [], {}, ws))
    return out


# ------------------------------------------------------------------ P26
DEPTOPIC = 0x649bbc62d0e31342afea4e5cd82d4049e7e1ee912fc0889aa790803be39038c5


def deposit_data(r, **bad):
    w = lambda n: n.to_bytes(32, "big")
    offs = [160, 256, 320, 384, 512]
    sizes = [48, 32, 8, 96, 8]
    if "off" in bad:
        offs[bad["off"]] += r.choice([1, 32, -32, 1 << 200])
    if "size" in bad:
        sizes[bad["size"]] += r.choice([1, -1, 32])
    b = b"".join(w(o % M256) for o in offs)
    for s, pad in zip(sizes, (64, 32, 32, 96, 32)):
        b += w(s) + bytes(r.getrandbits(8) for _ in range(pad))
    if "len" in bad:
        b = b[:bad["len"]] if bad["len"] < 576 else b + bytes(bad["len"] - 576)
    return b


def g_system(fk, r, n):
    out = []
    if fk < CANCUN:
        # nothing happens at these addresses
        sysacc = [acct(SYS[k], 1, 0, A(1, "NUMBER SSTORE")) for k in SYS]
        return [scenario("nosys", fk, eoas() + sysacc, [tx(fk, KEY1, S2, 1)]), scenario("nosys0", fk, eoas() + sysacc, [])]
    env = b"".join(A(o, k, "SSTORE") for k, o in enumerate("CALLER ORIGIN GAS GASPRICE CALLVALUE CALLDATASIZE ADDRESS COINBASE".split())) + A(0, "CALLDATALOAD", 9, "SSTORE")
    ret = lambda b: mstore_bytes(b) + A(len(b), 0, "RETURN")
    uncheck = [lambda: STORE_INPUT, lambda: env, lambda: A(1, 1, "SSTORE") + bytes([254]), lambda: A(1, 1, "SSTORE") + ENDS["revert"](fk), lambda: oog(fk),
               lambda: call("CALL", X[1], 0, "GAS") + A(2, "SSTORE"), lambda: A("@" + S2, "SELFDESTRUCT"), lambda: A(5, 1, "TSTORE", 1, "TLOAD", 1, "SSTORE"),
               lambda: b"".join(A("@" + a, "BALANCE GAS", q, "SSTORE POP") for q, a in enumerate([SYS["beacon"], COINBASE, "ff" * 19 + "fe", addr(1), X[1]])),
               lambda: call("CALL", X[1], 1, 50000) + A("POP"), lambda: create_code(fk, initcode_for(A("STOP")), 0) + A(7, "SSTORE")]
    check = uncheck + [lambda: ret(b""), lambda: ret(bytes(r.getrandbits(8) for _ in range(r.choice([1, 32, 76, 116, 300])))), lambda: ret(b"\0"), lambda: ret(bytes(76)),
                       lambda: A("CALLER", 0, "MSTORE GAS", 32, "MSTORE ORIGIN", 64, "MSTORE CALLDATASIZE", 96, "MSTORE", 128, 0, "RETURN"),
                       lambda: A(1, 0, "SLOAD ADD DUP1", 0, "SSTORE", 0, "MSTORE", 32, 0, "RETURN"), lambda: ENDS["return"](fk),
                       lambda: mstore_bytes(deposit_data(r)) + A(DEPTOPIC, 576, 0, "LOG1") + ret(b"\7" * 9)]
    depc = A("CALLDATASIZE", 0, 0, "CALLDATACOPY", DEPTOPIC, "CALLDATASIZE", 0, "LOG1")
    for i in range(n):
        pre = eoas() + [acct(X[1], 1, 5, r.choice([A("CALLER", 3, "SSTORE"), A(0, 0, "LOG0"), bytes([254])]))]
        kinds = {}
        ok = r.random() < .6
        for k in ("beacon", "history"):
            kinds[k] = r.choice(uncheck)()
        for k in ("wreq", "creq"):
            kinds[k] = (r.choice(check[-7:]) if ok else r.choice(check))()
        sysacc = system_accounts(fk, kinds)
        if r.random() < .2:
            sysacc = [a for a in sysacc if r.random() < .7]
        if r.random() < .15 and sysacc:
            a = r.choice(sysacc)
            a[3] = ""                                    # no code
        if r.random() < .1 and fk >= PRAGUE:
            a = r.choice(sysacc) if sysacc else None
            if a:
                a[3] = "ef0100" + X[1]
        pre += sysacc
        dep = r.choice([depc, depc, depc, A("CALLDATASIZE", 0, 0, "CALLDATACOPY", 5, DEPTOPIC, "CALLDATASIZE", 0, "LOG2"), A("CALLDATASIZE", 0, 0, "CALLDATACOPY", DEPTOPIC, 5, "CALLDATASIZE", 0, "LOG2"),
                        A("CALLDATASIZE", 0, 0, "CALLDATACOPY", "CALLDATASIZE", 0, "LOG0"), A("CALLDATASIZE", 0, 0, "CALLDATACOPY", DEPTOPIC - 1, "CALLDATASIZE", 0, "LOG1"),
                        depc + depc, depc + bytes([254])])
        pre.append(acct(SYS["deposit"], 1, 0, dep))
        pre.append(acct(X[2], 1, 0, depc))               # the same event from another contract
        pre.append(acct(X[3], 1, 0, A("CALLDATASIZE", 0, 0, "CALLDATACOPY") + call("CALL", SYS["deposit"], 0, "GAS") + A("POP") +
                        A("CALLDATASIZE", 0, 0, "CALLDATACOPY", 0, 0, "CALLDATASIZE", 0, 0, "@" + SYS["deposit"], "GAS", "CALL POP") + r.choice([b"", bytes([254])])))
        ts = []
        for q in range(r.randint(0, 3)):
            bad = {}
            if r.random() < .18:
                bad = r.choice([dict(off=r.randrange(5)), dict(size=r.randrange(5)), dict(len=r.choice([0, 575, 577, 608, 160]))])
            ts.append(tx(fk, KEY1, r.choice([SYS["deposit"], SYS["deposit"], X[2], X[3], SYS["wreq"], SYS["creq"], SYS["beacon"]]), r.choice([0, 0, 1]), deposit_data(r, **bad), 700000, q))
        out.append(scenario("system%d" % i, fk, pre, ts, dict(number=(num := r.choice(["64", "64", "64", "01", "02", hx(8190), hx(8191), hx(8192), hx(16382), hx(256), hx(0x2000 * 3)])), beaconRoot=r.choice(["be" * 32] * 6 + ["00" * 32, "00" * 31 + "01"]),
                                                                 hashes=["%064x" % (r.getrandbits(256) if r.random() < .9 else 0) for _ in range(min(unint(num), 256))]), system=False))
    if fk >= PRAGUE:                # deposits of many transactions, in order
        for k in (2, 3, 5, 17) + ((131,) if n > 200 else ()):
            kinds = dict(beacon=A("STOP"), history=A("STOP"), wreq=ret(b"\1" * 76) if k != 5 else A("STOP"), creq=ret(b"\2" * 116) if k != 3 else A("STOP"))
            pre = eoas() + system_accounts(fk, kinds) + [acct(SYS["deposit"], 1, 0, depc)]
            out.append(scenario("deposits%d" % k, fk, pre, [tx(fk, KEY1, SYS["deposit"] if k < 9 or q % 5 < 2 else S2, 0, deposit_data(r) if k < 9 or q % 5 < 2 else b"", 200000, q) for q in range(k)],
                                dict(gasLimit=100000000), system=False))
    return out


# ------------------------------------------------------------------ P33
def g_blockhash(fk, r, n):
    out = []
    for num in [1, 2, 3, 100, 255, 256, 257, 258, 300, 5000, 1 << 33] if n > 2 else [1, 256, 257, r.choice([300, 5000])]:
        hs = ["%064x" % r.getrandbits(256) for _ in range(min(num, 256))]
        qs = [num, num - 1, num - 2, num - 255, num - 256, num - 257, num + 1, 0, 1, M256 - 1, num + (1 << 64), num + (1 << 32), num - 128, r.randint(0, num)]
        code = b"".join(A(q % M256, "BLOCKHASH POP") for q in qs) + A(num - 1, "BLOCKHASH", 0, "SSTORE")
        pre = eoas() + [acct(X[0], 1, 0, code + call("CALL", X[1], 0, 60000)), acct(X[1], 1, 0, A("NUMBER", 1, "SWAP1 SUB BLOCKHASH POP"))]
        out.append(scenario("hash%d" % num, fk, pre, [tx(fk, KEY1, X[0])], dict(number=hx(num), hashes=hs)))
        # an old block is forgotten even when its hash is to hand
    return out


# ------------------------------------------------------------------ P34
def pad32(n):
    return (n % M256).to_bytes(32, "big")


BNP = 21888242871839275222246405745257275088696311157297823662689037894645226208583
BNN = 21888242871839275222246405745257275088548364400416034343698204186575808495617
BLSP = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
BLSN = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
G1X = 0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb
G1Y = 0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1
G2 = (0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8,
      0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e,
      0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801,
      0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be)
BN_OUT2 = (0, 1, 5912654199736721486680175016176231956195085055698687135131307249486702594212,
           18278151005453108793778860132295291098363647455926340152056652516292830556603)     # on the twist, outside the group
BLS_OUT2 = (2, 0, 3813414062821088896965879244443358096636228247329175415943186029072982909461945441384695595240360445618611812101176,
            3568027680765585585945490907042741669558639753778547462314760963815399658271727325750766584361357481230047117262172)
BNG2 = (11559732032986387107991004021392285783925812861821192530917403151452391805634,
        10857046999023057135944570762232829481370756359578518086990519993285655852781,
        4082367875863433681332203403145435568316851327593401208105741076214120093531,
        8495653923123431417604973247489272438418190587263600148770280649306958101930)


def bn_points(r):
    from py_ecc.optimized_bn128 import multiply, G1, normalize, add  # test vectors only
    p = normalize(multiply(G1, r.randrange(1, BNN)))
    return (int(p[0]), int(p[1]))


def bn_g2(r):
    from py_ecc.optimized_bn128 import multiply, G2 as g, normalize
    p = normalize(multiply(g, r.randrange(1, BNN)))
    return (int(p[0].coeffs[1]), int(p[0].coeffs[0]), int(p[1].coeffs[1]), int(p[1].coeffs[0]))


def bls_g1(r, k=None):
    from py_ecc.optimized_bls12_381 import multiply, G1, normalize
    p = normalize(multiply(G1, k or r.randrange(1, BLSN)))
    return fe(int(p[0])) + fe(int(p[1]))


def bls_g2(r, k=None):
    from py_ecc.optimized_bls12_381 import multiply, G2 as g, normalize
    p = normalize(multiply(g, k or r.randrange(1, BLSN)))
    return fe(int(p[0].coeffs[0])) + fe(int(p[0].coeffs[1])) + fe(int(p[1].coeffs[0])) + fe(int(p[1].coeffs[1]))


def fe(n):
    return (n % (1 << 512)).to_bytes(64, "big")


def pre_inputs(fk, a, r):
    """inputs for precompile a"""
    rb = lambda n: bytes(r.getrandbits(8) for _ in range(n))
    if a == 1:
        h = rb(32)
        rr, s, bit = sign_hash(h, KEY1)
        ok = h + pad32(27 + bit) + pad32(rr) + pad32(s)
        return [ok, ok + b"\7", ok[:100], h + pad32(28 - bit) + pad32(rr) + pad32(s), h + pad32(27 + bit) + pad32(rr) + pad32(N - s), h + pad32(29) + pad32(rr) + pad32(s),
                h + pad32(bit) + pad32(rr) + pad32(s), h + pad32((1 << 128) + 27 + bit) + pad32(rr) + pad32(s), h + pad32(27) + pad32(0) + pad32(s), h + pad32(27) + pad32(N) + pad32(s),
                h + pad32(27) + pad32(rr) + pad32(0), h + pad32(28) + pad32(rr) + pad32(N), h + pad32(27) + rb(32) + pad32(r.randrange(1, N)), b"", h + pad32(27) + pad32(r.randrange(1, 50)) + pad32(5)]
    if a in (2, 3, 4):
        return [rb(k) for k in (0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 200)]
    if a == 5:
        def m(b, e, n, tail=b""):
            return pad32(len(b)) + pad32(len(e)) + pad32(len(n)) + b + e + n + tail
        out = [m(b"\3", b"\5", b"\7"), m(rb(32), rb(32), rb(32)), m(rb(64), b"\3", rb(64)), m(b"", b"", b""), m(b"\3", b"", b"\7"), m(b"", b"\5", b"\7"), m(b"\3", b"\5", b""),
               m(b"\3", b"\5", b"\0"), m(b"\3", b"\0", b"\1"), m(b"\0", b"\0", b"\5"), m(rb(33), rb(33), rb(33)), m(rb(65), rb(2), rb(65)), m(b"\2", bytes(31) + b"\1" + rb(8), rb(8)),
               m(b"\2", bytes(40), b"\5"), m(b"\2", b"\x80" + bytes(31), b"\5"), m(rb(5), rb(5), rb(5))[:100], m(rb(5), rb(5), rb(5))[:40], b"", rb(96), m(rb(5), rb(5), rb(5), b"zz"),
               m(rb(100), rb(1), rb(129)), m(b"\3", b"\1", rb(200)), m(b"\3", b"\2", bytes(3) + b"\7"),
               pad32(0) + pad32(M256 - 1) + pad32(0), pad32(0) + pad32(M256 - 1) + pad32(1), pad32(M256 - 1) + pad32(0) + pad32(0), pad32(1) + pad32(1 << 20) + pad32(1), pad32(1) + pad32(1) + pad32(1 << 40),
               pad32(1 << 64) + pad32(1) + pad32(1), pad32(1 << 31) + pad32(32) + pad32(1 << 31), pad32(0) + pad32(100000) + pad32(0) + rb(5), pad32(M256 - 1) + pad32(0) + pad32(0) + b"\1",
               m(rb(1024), b"\1", rb(1024)), m(rb(1025), b"\1", b"\2"), m(b"\1", b"\1", rb(1025)), m(b"\1", rb(1025), b"\3"), m(b"\1", rb(1024), b"\3")]
        return out
    if a in (6, 7):
        p, q = bn_points(r), bn_points(r)
        e = lambda pt: pad32(pt[0]) + pad32(pt[1])
        neg = (p[0], BNP - p[1])
        if a == 6:
            return [e(p) + e(q), e(p) + e(p), e(p) + e(neg), e(p) + e((0, 0)), e((0, 0)) + e(q), e((0, 0)) + e((0, 0)), b"", e(p), e(p) + e(q) + b"\1", e(p)[:40], e((1, 2)) + e((1, 2)),
                    e((p[0], p[1] + 1)) + e(q), e(p) + e((1, 3)), e((BNP, 0)) + e(q), e((p[0] + BNP, p[1])) + e(q), e(p) + pad32(q[0]) + pad32(q[1] + BNP), e((0, BNP)) + e(q), e(p) + e(q)[:50], e((0, 1)) + e(q),
                    e((1, 0)) + e(q), e(p) + e((0, 2)), e((BNP - 1, 1)) + e(p), e((1, BNP - 2)) + e((1, 2)), e(p) + e((0, 0)) + e(q)]
        return [e(p) + pad32(r.getrandbits(256)), e(p) + pad32(0), e(p) + pad32(1), e(p) + pad32(BNN), e(p) + pad32(BNN - 1), e(p) + pad32(M256 - 1), e((0, 0)) + pad32(9), b"", e(p), e(p) + b"\1",
                e((1, 3)) + pad32(2), e((p[0], p[1] + BNP)) + pad32(2), e(p) + pad32(5) + b"zz", e((0, 3)) + pad32(0), e((2, 0)) + pad32(1),
                e(p) + pad32(r.getrandbits(256))[:17], e(p) + pad32(2), e((1, 2)) + pad32(3), e(p) + pad32(BNN + 1), e((BNP, 0)) + pad32(0)]
    if a == 8:
        p = bn_points(r)
        ends = lambda x: [(x + x)[:192 + q] for q in (32, 64, 96, 128, 160, 191)] + [x[:q] for q in (1, 32, 64, 96, 128, 160)]
        e = lambda pt: pad32(pt[0]) + pad32(pt[1])
        g2 = b"".join(map(pad32, BNG2))
        neg = (p[0], BNP - p[1])
        q = b"".join(map(pad32, bn_g2(r)))
        return [b"", e(p) + g2 + e(neg) + g2, e(p) + g2, e((0, 0)) + g2, e(p) + bytes(128), bytes(192), e(p) + g2 + e((0, 0)) + q, e(p) + q + e(neg) + q, (e(p) + g2)[:191], e(p) + g2 + b"\0",
                e((p[0], p[1] + 1)) + g2, e(p) + g2[:127] + b"\1", e(p) + pad32(BNG2[0] + BNP) + g2[32:], e(p) + pad32(BNG2[1]) + pad32(BNG2[0]) + g2[64:], e((p[0] + BNP, p[1])) + g2,
                e(p) + pad32(0) + pad32(1) + pad32(0) + pad32(2), e((0, 4)) + g2, e((0, 0)) + b"".join(map(pad32, BN_OUT2)), e(p) + b"".join(map(pad32, BN_OUT2)),
                e((0, 0)) + pad32(0) * 3 + pad32(5), e(p) + g2[:64] + pad32(BNG2[2] + BNP) + g2[96:], e(p) + g2[:32] + pad32(BNG2[1] + BNP) + g2[64:], e(p) + g2[:96] + pad32(BNG2[3] + BNP),
                *ends(e((0, 0)) + g2), e(p) + g2 + e(p) + g2 + e((1, 3)) + g2, e((0, 0)) + bytes(127) + b"\1", e((1, 2)) + g2 + bytes(192) + e((1, BNP - 2)) + g2]
    if a == 9:
        base = rb(64) + rb(128) + rb(16)
        rd = lambda k: k.to_bytes(4, "big")
        return [rd(12) + base + b"\1", rd(12) + base + b"\0", rd(0) + base + b"\1", rd(1) + base + b"\0", rd(11) + base + b"\1", rd(12) + base + b"\2", rd(12) + base, rd(12) + base + b"\1\0", b"",
                rd(0xffffffff) + base + b"\1", rd(200) + bytes(64) + rb(128) + rb(16) + b"\1", rd(10) + base + b"\xff"]
    if a == 10:
        return KZG(r)
    if a in (11, 12, 13, 14, 15):
        g1, g1b = bls_g1(r), bls_g1(r)
        g2, g2b = bls_g2(r), bls_g2(r)
        inf1, inf2 = bytes(128), bytes(256)
        ny = fe(BLSP - int.from_bytes(g1[64:], "big"))
        n1 = g1[:64] + ny
        big1 = fe(int.from_bytes(g1[:64], "big") + BLSP) + g1[64:]
        top1 = b"\1" + g1[1:]
        bad1 = g1[:127] + bytes([g1[127] ^ 1])
        bad2 = g2[:255] + bytes([g2[255] ^ 1])
        n2 = g2[:128] + fe(BLSP - int.from_bytes(g2[128:192], "big")) + fe(BLSP - int.from_bytes(g2[192:], "big"))
        out1 = fe(0) + fe(2)     # on the curve, outside the subgroup
        out2 = b"".join(map(fe, BLS_OUT2))
        big2 = [g2[:64 * q] + fe(int.from_bytes(g2[64 * q:64 * q + 64], "big") + BLSP) + g2[64 * q + 64:] for q in range(4)]
        s = pad32(r.getrandbits(256))
        unit = {11: inf1 * 2, 12: inf1 + s, 13: inf2 * 2, 14: inf2 + s, 15: inf1 + inf2}[a]
        cuts = [unit[:q] for q in (1, 32, 64, 96, 128, 160, 192, 256, 288, 320, 352, 384) if q < len(unit)] + [unit + unit[:q] for q in (32, 64, 96, 128, 160, 192, 256, 288, 320, 384) if q < len(unit)]
        return pre_bls(a, r, g1, g1b, g2, g2b, inf1, inf2, n1, n2, big1, big2, top1, bad1, bad2, out1, out2, s) + cuts
    if a in (16, 17):
        return [b"", rb(64), fe(BLSP) * (a - 15), fe(BLSP - 1) * 3, b"\1" + bytes(64 * (a - 15) - 1), bytes(32), bytes(64), bytes(96), bytes(128), bytes(160), bytes(192), bytes(256)] + \
            ([fe(r.randrange(BLSP)) * 1 if a == 16 else fe(r.randrange(BLSP)) + fe(r.randrange(BLSP)), bytes(64 * (a - 15)), fe(BLSP - 1) * (a - 15)])
    if a == 256:
        return P256(r)
    return [b""]


def pre_bls(a, r, g1, g1b, g2, g2b, inf1, inf2, n1, n2, big1, big2, top1, bad1, bad2, out1, out2, s):
    if a == 11:
        return [g1 + g1b, g1 + g1, g1 + n1, g1 + inf1, inf1 + g1, inf1 + inf1, bad1 + g1, g1 + bad1, big1 + g1, top1 + g1, (g1 + g1b)[:255], g1 + g1b + b"\0", b"", out1 + out1, out1 + g1, g1 + fe(int.from_bytes(g1b[:64], "big")) + fe(int.from_bytes(g1b[64:], "big") + BLSP), fe(0) + fe(1) + g1, g1[:64] + b"\1" + g1[65:] + g1, b"\x80" + bytes(127) + g1]
    if a == 12:
        return [g1 + s, g1 + s + g1b + s, inf1 + s, inf1 + pad32(0), g1 + pad32(0), g1 + pad32(BLSN), g1 + pad32(1), g1 + pad32(M256 - 1), bad1 + s, out1 + s, g1 + s[:31], g1 + s + b"\0", b"", big1 + s, (g1 + s) * 3,
                inf1 + s + g1b + s, (inf1 + s) * r.randint(4, 16), (inf1 + s) * r.randint(17, 130), (inf1 + s) * 128, (inf1 + s) * 129, inf1 + s + out1 + s, g1 + s + bad1 + s]
    if a == 13:
        return [g2 + g2b, g2 + g2, g2 + n2, g2 + inf2, inf2 + g2, inf2 + inf2, bad2 + g2, g2 + bad2, b"\1" + g2[1:] + g2, (g2 + g2b)[:511], g2 + g2b + b"\0", b"", out2 + out2, out2 + g2, fe(0) * 3 + fe(1) + g2, fe(1) + fe(0) * 3 + inf2] + [x + g2 for x in big2]
    if a == 14:
        return [g2 + s, inf2 + s, g2 + pad32(0), g2 + pad32(BLSN), g2 + pad32(BLSN + 2), bad2 + s, g2 + s[:31], b"", g2 + pad32(3) + g2b + pad32(4), (inf2 + s) * r.randint(2, 16), (inf2 + s) * r.randint(17, 130), out2 + s, big2[r.randrange(4)] + s, (inf2 + s) * 128, (inf2 + s) * 129]
    return [g1 + g2 + n1 + g2, g1 + g2, inf1 + g2, g1 + inf2, inf1 + inf2, g1 + g2 + g1b + g2b, bad1 + g2, g1 + bad2, out1 + g2, (g1 + g2)[:383], g1 + g2 + b"\0", b"", g1 + g2 + g1 + n2, g1 + out2, inf1 + out2, out1 + inf2, inf1 + bad2, g1 + big2[r.randrange(4)]]


# P-256, for test vectors only
_P = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
_PN = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
_PG = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)


def _padd(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % _P == 0:
            return None
        m = (3 * a[0] * a[0] - 3) * pow(2 * a[1], -1, _P) % _P
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, _P) % _P
    x = (m * m - a[0] - b[0]) % _P
    return x, (m * (a[0] - x) - a[1]) % _P


def _pmul(k, p):
    out = None
    while k:
        if k & 1:
            out = _padd(out, p)
        p = _padd(p, p)
        k >>= 1
    return out


_PB = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b


def _plift(x):
    t = (x * x * x - 3 * x + _PB) % _P
    y = pow(t, (_P + 1) // 4, _P)
    return (x, y) if y * y % _P == t else None


def P256(r):
    d, k, h = r.randrange(1, _PN), r.randrange(1, _PN), r.getrandbits(256)
    q, c = _pmul(d, _PG), _pmul(k, _PG)
    rr = c[0] % _PN
    s = pow(k, -1, _PN) * (h + rr * d) % _PN
    e = lambda h=h, rr=rr, s=s, x=q[0], y=q[1]: pad32(h) + pad32(rr) + pad32(s) + pad32(x) + pad32(y)
    out = []
    def crafted(c, rr, s, h):
        """a key for which (rr, s) signs h, c being the point of the nonce"""
        if c is None:
            return b""
        ri = pow(rr, -1, _PN)
        q = _padd(_pmul(s * ri % _PN, c), _pmul((-h * ri) % _PN, _PG))
        return b"" if q is None else pad32(h) + pad32(rr) + pad32(s) + pad32(q[0]) + pad32(q[1])
    for s2 in (1, _PN - 1, r.randrange(1, _PN)):
        out.append(crafted(c, rr, s2, h))
    small = [_plift(x) for x in range(1, 12)]
    small = [p for p in small if p]
    out += [crafted(p, p[0], r.choice([1, 2, _PN - 1]), h) for p in small[:3]]
    wrapped = [p for p in (_plift(_PN + x) for x in range(1, 30)) if p]
    out += [crafted(p, p[0] - _PN, 5, h) for p in wrapped[:2]] + [crafted(c, rr, 7, 0), crafted(c, rr, 7, M256 - 1), crafted(c, rr, s, _PN)]
    # a zero public-key sum: u1 G + u2 Q = infinity
    rz = r.randrange(1, _PN)
    hz = (-rz * d) % _PN
    return out + [e(), e(s=_PN - s), e(s=s + 1), e(rr=0), e(s=0), e(rr=_PN), e(s=_PN), e(rr=_PN - 1), e(h=h ^ 1), e(y=_P - q[1]), e(x=q[0] + 1), e(x=0, y=0), e(x=_P), e(y=_P), e(x=q[0] + _P if q[0] + _P < M256 else _P + 1),
            e()[:159], e() + b"\0", b"", bytes(160), e(h=h + _PN if h + _PN < M256 else h - _PN if h >= _PN else h), e(h=hz, rr=rz, s=1), e(rr=M256 - 1)]


KZG_VECTOR = bytes.fromhex("01e798154708fe7789429634053cbf9f99b619f9f084048927333fce637f549b564c0a11a0f704f4fc3e8acfe0f8245f0ad1347b378fbf96e206da11a5d3630624d25032e67a7e6a4910df5834b8fe70e6bcfeeac0352434196bdf4b2485d5a18f59a8d2a1a625a17f3fea0fe5eb8c896db3764f3185481bc22f91b4aaffcca25f26936857bc3a7c2539ea8ec3a952b7873033e038326e87ed3e1276fd140253fa08e9fc25fb2d9a98527fc22a2c9612fbeafdad446cbc7bcdbdcd780af2c16a")


def comp_g1(xy):
    """compressed form of an affine point given as 128 bytes"""
    x, y = int.from_bytes(xy[:64], "big"), int.from_bytes(xy[64:], "big")
    f = (1 << 383) | ((1 << 381) if y > (BLSP - 1) // 2 else 0)
    return (x | f).to_bytes(48, "big")


def KZG(r):
    inf = b"\xc0" + bytes(47)
    k = r.randrange(1, BLSN)
    com = comp_g1(bls_g1(r, k))
    vh = lambda c: b"\1" + hashlib.sha256(c).digest()[1:]
    mk = lambda c, z, y, p: vh(c) + pad32(z) + pad32(y) + c + p
    z = r.randrange(BLSN)
    v = KZG_VECTOR
    com2 = comp_g1(fe(0) + fe(2))
    return [v, mk(com, z, k, inf), mk(com, z, k + 1, inf), mk(com, z + BLSN, k, inf), mk(com, z, k + BLSN, inf), mk(com, BLSN - 1, k, inf), b"\0" + v[1:], v[:31] + b"\0" + v[32:], v[:191] + bytes([v[191] ^ 1]), v[:191], v + b"\0", b"",
            mk(inf, z, 0, inf), mk(inf, z, 1, inf), v[:32] + pad32(5) + v[64:], mk(com, z, k, com), mk(com2, z, 1, inf), mk(com, z, k, com2), mk(b"\x40" + inf[1:], z, 0, inf), mk(com, z, k, b"\xe0" + bytes(47)), mk(com, z, k, b"\xc0" + bytes(46) + b"\1")]


SEED = 0
SECP_P = 2**256 - 2**32 - 977
PRE_FROM = {1: 0, 2: 0, 3: 0, 4: 0, 5: BYZANTIUM, 6: BYZANTIUM, 7: BYZANTIUM, 8: BYZANTIUM, 9: ISTANBUL, 10: CANCUN, 11: PRAGUE, 12: PRAGUE, 13: PRAGUE, 14: PRAGUE, 15: PRAGUE, 16: PRAGUE, 17: PRAGUE, 256: OSAKA}


def pre_cost(fk, a, d, msgs):
    return None


def g_pre8(fk, r, n):
    return g_pre(fk, r, n, which=lambda a: a == 8)


def g_pre10(fk, r, n):
    return g_pre(fk, r, n, which=lambda a: 10 <= a < 15)


def g_pre15(fk, r, n):
    return g_pre(fk, r, n, which=lambda a: 15 <= a < 18)


def g_pre(fk, r, n, light=True, which=lambda a: a < 10 and a != 8 or a == 256):
    """each precompile called directly, with varying gas, and through calls"""
    out = []
    ok = [a for a, f in PRE_FROM.items() if f <= fk and which(a)]
    heavy = {12: 14, 14: 10, 15: 12} if light else {}
    done = {}
    for a in ok:
        r = random.Random("pre/%d/%d" % (a, SEED))      # the same inputs in all forks
        ins = [(i, d) for i, d in enumerate(pre_inputs(fk, a, r))]
        if a in heavy and len(ins) > heavy[a]:
            unit = {12: 160, 14: 288, 15: 384}[a]
            whole = [x for x in ins if len(x[1]) % unit == 0]
            ins = r.sample(whole, min(len(whole), heavy[a])) + [x for x in ins if len(x[1]) % unit]
        for j, (i, d) in enumerate(ins):
            big = 50000000
            sc = scenario("p%d_%d" % (a, i), fk, eoas(), [], dict(hashes=[]), msg=message(addr(a), gas=big, data=d, value=r.choice([0, 0, 1])), system=False)
            out.append(sc)
            # learn the price, then ask for it exactly
            sc["around"] = 1 if a in (8, 10, 12, 14, 15) and j > 1 else 2
    return out


def around(sc, exp, r, how=2):
    """the same call with one unit of gas less than it uses, and with just enough"""
    import copy
    used = sc["msg"][0]["gas"] - exp["gas"]
    out = []
    if exp["err"] or exp["bad"] or exp["crash"]:
        return out
    for d in (-1, 0)[:how]:
        s2 = copy.deepcopy(sc)
        s2.pop("around", None)
        s2["msg"][0]["gas"] = max(0, used + d)
        s2["name"] += "g%d" % d
        out.append(s2)
    return out

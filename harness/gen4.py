"""Covering batteries: many small independent cells, chosen so that every pair (or triple) of choices occurs in every fork."""
import itertools
from gen3 import *
from gen2 import types_of, type_args, intrinsic, blob


def cover(r, t, **factors):
    """rows (dicts) so that every choice of t factors occurs in some row"""
    ks = list(factors)
    vs = [list(range(len(factors[k]))) for k in ks]
    t = min(t, len(ks))
    left = set()
    for c in itertools.combinations(range(len(ks)), t):
        for v in itertools.product(*(vs[i] for i in c)):
            left.add(tuple(zip(c, v)))
    order = sorted(left)
    r.shuffle(order)
    rows = []
    for seed in order:
        if seed not in left:
            continue
        best = None
        for _ in range(6):
            row = [r.choice(v) for v in vs]
            for i, v in seed:
                row[i] = v
            new = [x for x in (tuple((i, row[i]) for i in c) for c in itertools.combinations(range(len(ks)), t)) if x in left]
            if best is None or len(new) > len(best[1]):
                best = (row, new)
        left.difference_update(best[1])
        rows.append({k: factors[k][best[0][i]] for i, k in enumerate(ks)})
    r.shuffle(rows)
    return rows


def some(r, rows, n):
    return rows if n is None or n >= len(rows) else rows[:n]


def pack(fk, name, cells, per, head=b"", gas=15000000, blk=None, after=()):
    """cells: (accounts, code run by the top contract); per cells in one transaction"""
    out = []
    for i in range(0, len(cells), per):
        pre, top = eoas(), head
        for accts, code in cells[i:i + per]:
            pre += accts
            top += code
        seen, uniq = set(), []
        for p in pre:
            if p[0] not in seen:
                seen.add(p[0])
                uniq.append(p)
        uniq.append(acct(X[0], 1, 10**6, top))
        out.append(scenario("%s%d" % (name, i), fk, uniq, [tx(fk, KEY1, X[0], 0, b"", gas, 0)] + list(after), blk))
    return out


# ------------------------------------------------------------------ P03, P12
BIGS = [1 << 32, (1 << 64) - 1, 1 << 64, 1 << 255, M256 - 32, M256 - 1]


def g_windows(fk, r, n):
    """every instruction that reads or writes memory, with windows before, across and after the memory's end"""
    cells = []
    fills = [0, 32, 96, 1024]
    places = ["0", "1", "31", "32", "33", "M-32", "M-1", "M", "M+1", "M+64", "far", "big"]
    sizes = [0, 1, 31, 32, 33, 64, 100, 1000]
    one = ["MLOAD", "MSTORE", "MSTORE8", "KECCAK", "LOG0", "LOG3", "RETURN", "CREATE"] + (["REVERT"] if fk >= BYZANTIUM else []) + (["CREATE2"] if fk >= CONSTANTINOPLE else [])
    two = ["CALLDATACOPY", "CODECOPY", "EXTCODECOPY"] + (["RETURNDATACOPY"] if fk >= BYZANTIUM else []) + (["MCOPY"] if fk >= CANCUN else []) + callkinds(fk)

    def place(p, M):
        return {"M-32": max(0, M - 32), "M-1": max(0, M - 1), "M": M, "M+1": M + 1, "M+64": M + 64, "far": r.choice([4000, 9999]), "big": r.choice(BIGS)}.get(p) \
            if not p.isdigit() else int(p)

    def prefill(M):
        return b"" if M == 0 else (mstore_bytes(bytes(range(1, 97))[:M]) if M <= 96 else mstore_bytes(bytes(range(1, 65))) + A((1 << 255) - 12345, M - 32, "MSTORE"))
    k = [0]

    def cell(code, data=(0, 0)):
        a = addr(0xE0000 + k[0])
        k[0] += 1
        cells.append(([acct(a, 1, 10, code)], call("CALL", a, 0, 200000, data, r.choice([(0, 0), (3, 5), (64, 40)])) + A("POP")))
    for op in one:
        for row in some(r, cover(r, 2, M=fills, p=places, s=sizes), n * 3 if op not in ("MLOAD", "MSTORE", "MSTORE8") else 2 * n):
            M, s = row["M"], row["s"]
            o = place(row["p"], M)
            z = prefill(M)
            if op == "MLOAD":
                z += A(o, op)
            elif op in ("MSTORE", "MSTORE8"):
                z += A(r.choice([1, 0xabcd, M256 - 1, 0]), o, op, o if o < 20000 else 0, "MLOAD")
            elif op.startswith("LOG"):
                z += A(*range(1, int(op[3]) + 1), s, o, op)
            elif op == "CREATE":
                z += A(s, o, 0, op)
            elif op == "CREATE2":
                z += A(r.choice([0, 1]), s, o, 0, op)
            else:
                z += A(s, o, op)
            cell(z + A("MSIZE POP"))
    lens = dict(CALLDATACOPY=40, CODECOPY=None, EXTCODECOPY=50, RETURNDATACOPY=45)
    src = ["0", "1", "len-1", "len", "len+1", "len-s", "len-s+1", "2^32", "2^64", "2^256-s", "2^256-1"]
    for op in two:
        if op in callkinds(fk):
            for row in some(r, cover(r, 2, M=fills, p=places, q=places, s=sizes[:-1], u=sizes[:-1]), 5 * n):
                M = row["M"]
                to = r.choice([X[1], X[1], X[2], S2, addr(4), GHOST])
                z = prefill(M) + call(op, to, 0, r.choice([5000, 20000]), (place(row["p"], M), row["s"]), (place(row["q"], M), row["u"]))
                cell(z + A("MSIZE POP") + (A("RETURNDATASIZE POP") if fk >= BYZANTIUM else b""))
            continue
        for row in some(r, cover(r, 2, M=fills, p=places, q=places if op == "MCOPY" else src, s=sizes[:-1]), (12 if op == "MCOPY" else 4) * n):
            M, s = row["M"], row["s"]
            z = prefill(M)
            o = place(row["p"], M)
            if op == "MCOPY":
                z += A(s, place(row["q"], M), o, op)
                cell(z + A("MSIZE POP"))
                continue
            L = lens[op] or 60
            q = {"0": 0, "1": 1, "len-1": L - 1, "len": L, "len+1": L + 1, "len-s": max(0, L - s), "len-s+1": max(0, L - s) + 1, "2^32": 1 << 32, "2^64": 1 << 64,
                 "2^256-s": (M256 - s) % M256, "2^256-1": M256 - 1}[row["q"]]
            if op == "RETURNDATACOPY":
                z = call("CALL", X[1], 0, 20000) + A("POP") + z
            z += A(s, q, o, "@" + X[2], op) if op == "EXTCODECOPY" else A(s, q, o, op)
            z += A("MSIZE POP STOP")
            if op == "CODECOPY":
                z = z.ljust(60, b"\7")
            cell(z, (0, 40))
    r.shuffle(cells)
    head = mstore_bytes(bytes(range(1, 41)))
    sc = pack(fk, "win", cells, 24, head)
    for s in sc:
        s["pre"] += [acct(X[1], 1, 0, mstore_bytes(bytes(range(101, 146))) + A(45, 0, "RETURN")),
                     acct(X[2], 1, 0, (mstore_bytes(bytes(range(51, 91))) + A(40, 0, "REVERT" if fk >= BYZANTIUM else "RETURN")).ljust(50, b"\1")[:50])]
    return sc


# ------------------------------------------------------------------ P06, P10, P13
def kind_accounts(fk):
    ks = ["missing", "balance", "nonce", "code", "full", "dying", "failing", "pre2", "pre3", "self", "sender", "coinbase"]
    if fk < PARIS:
        ks.append("empty")
        ks.append("storage")
    if fk >= PRAGUE:
        ks += ["delegated", "selfdelegated", "delegatedpre", "delegatedmissing"]
    return ks


def kind(fk, k, a, proxy):
    """(address, accounts)"""
    if k in ("missing", "pre2", "pre3", "self", "sender", "coinbase"):
        return dict(missing=a, pre2=addr(2), pre3=addr(3), self=proxy, sender=S1, coinbase=COINBASE)[k], []
    dele = lambda t: bytes.fromhex("ef0100" + t)
    g = dict(balance=(0, 5, b""), nonce=(1, 0, b""), code=(0, 0, A("CALLVALUE", 0, "MSTORE", 32, 0, "RETURN")), full=(1, 7, A("ADDRESS CALLER POP POP CALLVALUE POP"), {1: 1}),
             dying=(1, 3, A("@" + SINKA, "SELFDESTRUCT")), failing=(1, 3, ENDS["revert"](fk)), empty=(0, 0, b""), storage=(0, 0, b"", {1: 5}),
             delegated=(1, 2, dele(X[1])), selfdelegated=(1, 2, dele(a)), delegatedpre=(0, 2, dele(addr(2))), delegatedmissing=(1, 0, dele(GHOST)))[k]
    return a, [acct(a, *g)]


def g_kinds(fk, r, n):
    """every instruction that names an account, on every kind of account"""
    ops = ["BALANCE", "EXTCODESIZE", "EXTCODECOPY", "CALL0", "CALL1", "CALLbig", "CALLCODE0", "CALLCODE1", "CALLCODEbig", "SELFDESTRUCT0", "SELFDESTRUCT1"] + \
        (["DELEGATECALL"] if fk >= HOMESTEAD else []) + (["STATICCALL"] if fk >= BYZANTIUM else []) + (["EXTCODEHASH"] if fk >= CONSTANTINOPLE else [])
    cells = []
    for j, row in enumerate(cover(r, 2, op=ops, kind=kind_accounts(fk), gas=[0, 3000, 60000, "GAS"], twice=[0, 1])):
        if row["kind"] == "self":
            row["gas"] = 3000
        proxy = addr(0xD0000 + 4 * j)
        a, accts = kind(fk, row["kind"], addr(0xD0000 + 4 * j + 1), proxy)
        op = row["op"]
        look = A("@" + a, "BALANCE POP", "@" + a, "EXTCODESIZE POP") + (A("@" + a, "EXTCODEHASH POP") if fk >= CONSTANTINOPLE else b"")
        if op in ("BALANCE", "EXTCODESIZE", "EXTCODEHASH"):
            z = A("@" + a, op, "POP")
        elif op == "EXTCODECOPY":
            z = A(8, r.choice([0, 3]), 0, "@" + a, op)
        elif op.startswith("SELFDESTRUCT"):
            z = A("@" + a, "SELFDESTRUCT")
        else:
            v = 0
            for suffix, w in (("big", 1 << 90), ("0", 0), ("1", 1)):
                if op.endswith(suffix) and op.startswith("CALL"):
                    op, v = op[:-len(suffix)], w
                    break
            z = call(op, a, v, row["gas"], (0, 4), (0, 32)) + A("POP", 0, "MLOAD POP") + (A("RETURNDATASIZE POP") if fk >= BYZANTIUM else b"")
        body = (look if r.random() < .3 else b"") + (z + z if row["twice"] and "SELF" not in op else z) + look
        accts.append(acct(proxy, 1, 0 if op == "SELFDESTRUCT0" else 40, body))
        cells.append((accts, call("CALL", proxy, 0, 250000) + A("POP") + (A("@" + a, "BALANCE POP") if r.random() < .5 else b"")))
    sc = pack(fk, "kind", some(r, cells, 10 * n), 20)
    for s in sc:
        s["pre"].append(acct(X[1], 1, 0, A("ADDRESS BALANCE", 0, "MSTORE", 32, 0, "RETURN")))
    # transactions to, and blocks paying, every kind of account
    ks = [k for k in kind_accounts(fk) if k not in ("self", "sender", "coinbase")]
    for i in range(max(1, n // 4)):
        pre, ts, acc = eoas() + [acct(X[1], 1, 0, A("ADDRESS BALANCE POP"))], [], []
        for q in range(4):
            a, more = kind(fk, r.choice(ks), addr(0xD8000 + q), "")
            pre += more
            acc.append(a)
            ts.append(tx(fk, KEY1, a, r.choice([0, 0, 1]), b"", 100000, q, price=7 if fk >= LONDON else r.choice([0, 10])))
        a, more = kind(fk, r.choice(ks), addr(0xD8010), "")
        pre += more
        ws = [dict(index=hx(q), validator="01", addr=r.choice(acc + [a]), amount=hx(r.choice([0, 0, 1]))) for q in range(2)] if fk >= SHANGHAI else []
        oms = [dict(coinbase=r.choice(acc), number=hx(98))] if fk < PARIS and r.random() < .3 else []
        seen, uniq = set(), []
        for p in pre:
            if p[0] not in seen:
                seen.add(p[0])
                uniq.append(p)
        sc.append(scenario("kindtx%d" % i, fk, uniq, ts, dict(coinbase=a), ws, oms))
    return sc


# ------------------------------------------------------------------ P08
def g_newat(fk, r, n):
    """creations at addresses where something is already, with every endowment, init code and ending"""
    pk = ["none", "balance", "nonce", "code", "storage", "storagebal"]
    data = {"none": None, "balance": (0, 55, b""), "nonce": (1, 0, b""), "code": (0, 0, b"\0"), "storage": (0, 0, b"", {1: 1}), "storagebal": (0, 9, b"", {1: 1})}
    inits = {"empty": b"", "code": initcode_for(A(1, "SLOAD", 0, "MSTORE", 32, 0, "RETURN")), "stop": A("STOP"), "fail": bytes([254]), "revert": ENDS["revert"](fk), "ef": A(0xEF, 0, "MSTORE8", 1, 0, "RETURN"),
             "die": A("@" + S2, "SELFDESTRUCT"), "dieself": A("ADDRESS SELFDESTRUCT"), "store": A(1, "SLOAD POP", 3, 1, "SSTORE ADDRESS BALANCE POP CALLVALUE POP CALLER EXTCODESIZE POP"),
             "data": call("CALL", addr(4), 0, 3000, (0, 37), (0, 0)) + A("POP") + (A(1, 0, "RETURN") if fk < BYZANTIUM else A("RETURNDATASIZE", 9, "RETURN")), "back": A(0, 0, 0, 0, 0, "CALLER", 3000, "CALL POP"), "twice": create_code(fk, A("STOP"), 0) + A("POP"), "big": A(0x6000, 0, "RETURN"), "toobig": A(0x6001, 0, "RETURN")}
    cells = []
    two = [False] + ([True] if fk >= CONSTANTINOPLE else [])
    for j, row in enumerate(cover(r, 2, pk=pk, v=[0, 1, 1 << 90], two=two, init=list(inits), fr=["call", "static", "fails", "delegate"], nonce=[0, 1, 127, 128])):
        maker = addr(0xC0000 + 4 * j)
        init = inits[row["init"]]
        fr = row["fr"]
        if fr == "static" and (fk < BYZANTIUM or r.random() < .7) or fr == "delegate" and fk < HOMESTEAD or fr == "fails" and r.random() < .5:
            fr = "call"
        who = maker if fr != "delegate" else X[0]
        nonce = row["nonce"]
        if not row["two"] and fr == "delegate":
            fr, who = "call", maker
        if row["two"]:
            a = keccak(b"\xff" + unhex(who) + pad32(j) + keccak(init))[12:].hex()
        else:
            a = keccak(rl([unhex(who), nonce]))[12:].hex()
        accts = [acct(a, *data[row["pk"]])] if data[row["pk"]] else []
        z = call("CALL", addr(4), 0, 3000, (0, r.choice([0, 33])), (0, 0)) + A("POP") if r.random() < .5 else b""
        z += create_code(fk, init, row["v"], j if row["two"] else None) + A("POP GAS POP")
        z += A("RETURNDATASIZE POP", "RETURNDATASIZE", 0, 0, "RETURNDATACOPY", 0, "MLOAD POP") if fk >= BYZANTIUM else b""
        z += A("@" + a, "BALANCE POP", "@" + a, "EXTCODESIZE POP") + call("CALL", a, r.choice([0, 1]), 50000, (0, 0), (0, 32)) + A("POP", 0, "MLOAD POP ADDRESS BALANCE POP")
        if r.random() < .5:
            z += create_code(fk, init, 0, j if row["two"] else None) + A("POP")
        if fr == "fails":
            z += ENDS[r.choice(FAILS)](fk)
        accts.append(acct(maker, nonce, 77, z))
        op = dict(static="STATICCALL", delegate="DELEGATECALL").get(fr, "CALL")
        cells.append((accts, call(op, maker, 0, 500000 if "big" not in row["init"] else 6000000) + A("POP", "@" + a, "EXTCODESIZE POP", "@" + maker, "BALANCE POP")))
    for j, (k, init) in enumerate(inits.items()):        # each plainly
        z = b"".join(create_code(fk, init, 1, s) + (A("RETURNDATASIZE POP") if fk >= BYZANTIUM else b"") + A("EXTCODESIZE POP") for s in ([None, j] if fk >= CONSTANTINOPLE else [None]))
        if "big" not in k:
            cells.insert(0, ([acct(addr(0xBE00 + j), 1, 9, z)], call("CALL", addr(0xBE00 + j), 0, 500000) + A("POP")))
    out = pack(fk, "newat", cells[:len(inits) - 2] + some(r, cells[len(inits) - 2:], 7 * n), 12, gas=19000000 if fk < OSAKA else 16000000)
    rows = cover(r, 2, pk=pk, v=[0, 5, 10**19], init=list(inits))
    for i in range(0, len(some(r, rows, 3 * n)), 4):
        pre, ts = [], []
        for q, row in enumerate(rows[i:i + 4]):
            key = 0x2000 + q
            s = key_addr(key)
            pre.append(acct(s, q, 10**18 if row["v"] < 10**18 else 10**20))
            a = keccak(rl([unhex(s), q]))[12:].hex()
            if data[row["pk"]]:
                pre.append(acct(a, *data[row["pk"]]))
            ts.append(tx(fk, key, "", row["v"], inits[row["init"]], r.choice([400000, 120000]) if "big" not in row["init"] else 5300000 if fk >= HOMESTEAD else 4990000, q))
            if r.random() < .5:
                ts.append(tx(fk, key, a, r.choice([0, 1]), b"", 100000, q + 1))
        out.append(scenario("newtx%d" % i, fk, pre, ts, dict(gasLimit=30000000)))
    return out


# ------------------------------------------------------------------ P09
def g_ends(fk, r, n):
    """self-destructs of old and new contracts, entered in every way, with every beneficiary and aftermath"""
    origin = ["old", "new", "init"] + (["new2"] if fk >= CONSTANTINOPLE else [])
    entry = ["call", "self", "selfthen", "callcode", "twice"] + (["delegate"] if fk >= HOMESTEAD else [])
    bens = ["ADDRESS", "CALLER", "ORIGIN", "@" + S2, "missing", "@" + addr(2), "@" + COINBASE, "fresh"]
    cells, late = [], []
    for j, row in enumerate(cover(r, 2, origin=origin, entry=entry, ben=bens, ben2=bens[:4], bal=[0, 5], val=[0, 1], after=["none", "pay", "call", "again", "fail", "recreate", "make"])):
        base = 0xB8000 + 8 * j
        maker, old, lib, missing, mid = (addr(base + q) for q in range(5))
        B = lambda b: A("@" + missing if b == "missing" else b)
        d0 = B(row["ben"]) if row["ben"] != "fresh" else create_code(fk, b"", 0)
        die, die2 = d0 + A("SELFDESTRUCT"), B(row["ben2"]) + A("SELFDESTRUCT")
        me = lambda v: A(0, 0, 0, 0, v, "ADDRESS", "GAS", "CALL POP ADDRESS BALANCE POP")
        run = branches([die, A(0, 0, "MSTORE") + me(0), A(0, 0, "MSTORE") + me(row["val"]) + die2,
                        A("ADDRESS BALANCE POP", 1, "SLOAD POP") + A(9, 1, "SSTORE"), die2])
        accts = [acct(lib, 1, 1, run)]
        pay = row["bal"]
        o = row["origin"]
        if o == "old":
            D, mk = old, b""
            accts.append(acct(old, 1, pay, run, {1: 4}))
        elif o == "init":
            init = A(3, 1, "SSTORE") + (A(0, 0, "MSTORE") + call("DELEGATECALL", lib, 0, 60000, (0, 32)) + A("POP") if row["entry"] == "delegate" and fk >= HOMESTEAD else die)
            D, mk = keccak(rl([unhex(maker), 1]))[12:].hex(), create_code(fk, init, pay) + A("POP")
        else:
            init = A(3, 1, "SSTORE") + initcode_small_off(run, 5)
            D = keccak(rl([unhex(maker), 1]))[12:].hex() if o == "new" else keccak(b"\xff" + unhex(maker) + pad32(j) + keccak(init))[12:].hex()
            mk = create_code(fk, init, pay, None if o == "new" else j) + A("POP")
        e = row["entry"]
        say = lambda k, op="CALL", v=0: A(k, 0, "MSTORE") + call(op, D, v, 100000, (0, 32)) + A("POP")
        z = mk
        if e in ("callcode", "delegate"):
            z += A(0, 0, "MSTORE") + call("CALLCODE" if e == "callcode" else "DELEGATECALL", D, 0, 100000, (0, 32)) + A("POP")
        else:
            z += say(dict(call=0, self=1, selfthen=2, twice=0)[e], "CALL", row["val"])
            if e == "twice":
                z += say(4)
        z += A("@" + D, "BALANCE POP", "@" + D, "EXTCODESIZE POP")
        af = row["after"]
        if af == "pay":
            z += call("CALL", D, 3, 30000) + A("POP")
        elif af == "call":
            z += say(3)
        elif af == "again":
            z += say(4, "CALL", 1)
        elif af == "fail":
            z += ENDS[r.choice(FAILS)](fk)
        elif af == "recreate":
            z += mk
        elif af == "make":
            z += create_code(fk, A("STOP"), 1) + A("POP")
        accts.append(acct(maker, 1, 60, z))
        cells.append((accts, call("CALL", maker, 0, 900000) + A("POP", "@" + D, "BALANCE POP", "@" + maker, "BALANCE POP", "@" + missing, "BALANCE POP")))
        late.append((D, pad32(r.choice([0, 1, 2, 3, 4]))))
    cells, per = some(r, cells, 3 * n), 6
    out = pack(fk, "ends", cells, per, gas=12000000)
    for i, s in enumerate(out):
        some_late = late[i * per:(i + 1) * per]
        s["txs"] += [tx(fk, KEY1, D, r.choice([0, 1]), dd, 150000, 1 + q) for q, (D, dd) in enumerate(r.sample(some_late, min(3, len(some_late))))]
    return out


# ------------------------------------------------------------------ P14
def g_gate(fk, r, n):
    """the gas a transaction must bring, for every kind of transaction, recipient, data and list, from both sides"""
    out = []
    datas = dict(none=b"", zero=b"\0", one=b"\1", word=bytes(32), long=bytes([0, 1] * 40), heavy=b"\7" * 400, huge=b"\7" * 2500, zeros=bytes(900), stop=b"\0" * 7 + b"\1" * 26)
    accesses = dict(none=[], addr=[(X[1], [])], keys=[(X[1], ["%064x" % q for q in range(3)])], twice=[(X[2], ["%064x" % 1]), (X[2], ["%064x" % 1]), (X[1], [])])
    pre = [acct(X[1], 1, 5, A(1, 0, "SSTORE")), acct(X[2], 1, 0, A("STOP")), acct(S1, 0, 10 * ETH)]
    for row in cover(r, 3 if n > 4 or fk >= PRAGUE else 2, typ=types_of(fk), to=["create", "code", "eoa", "missing", "self", "pre"], data=list(datas), access=list(accesses), gas=[-1, 0, 1, "i-1", "i", "f-1"]):
        typ, to = row["typ"], row["to"]
        if typ >= 3 and to == "create":
            to = "code"
        kw = type_args(fk, typ, r, dict(create="", code=X[1], eoa=S2, missing=GHOST, self=S1, pre=addr(4))[to])
        kw.update(data=datas[row["data"]])
        if typ:
            kw["access"] = accesses[row["access"]]
        if typ == 4:
            kw["auths"] = [sign_auth(1, X[2], 0, KEY3)] * r.choice([1, 2])
        i, f = intrinsic(fk, tx(fk, KEY1, **kw))
        g = {"i-1": i - 1, "i": i, "f-1": max(i, f - 1)}.get(row["gas"])
        if g is None:
            g = max(i, f) + row["gas"]
        out.append(scenario("gate%d" % len(out), fk, pre, [tx(fk, KEY1, gas=g, **kw)]))
    return out


# ------------------------------------------------------------------ P22
def g_blobtxs(fk, r, n):
    """blocks of several transactions with blobs, around the most a block may hold"""
    if fk < CANCUN:
        return []
    out = []
    mx, per = (6, 6) if fk == CANCUN else (9, 9 if fk == PRAGUE else 6)
    pre = [acct(X[1], 1, 5, A("BLOBBASEFEE", 0, "SSTORE", 0, "BLOBHASH", 1, "SSTORE", 5, "BLOBHASH", 2, "SSTORE")), acct(S1, 0, 10 * ETH), acct(S2, 0, 10 * ETH)]
    for i in range(n):
        goal = mx + r.choice([-1, 0, 0, 1, 1, 2])
        parts = []
        while sum(parts) < goal:
            parts.append(min(goal - sum(parts), r.choice([1, 2, 3, per])))
        r.shuffle(parts)
        nonce, ts = {KEY1: 0, KEY2: 0}, []
        # a price below what the blobs cost, sometimes
        ex = r.choice([0, 0, 10**7, 4 * 10**7])
        import chain
        price = chain.blob_price(fk, ex)
        for k in parts:
            key = r.choice([KEY1, KEY2])
            if r.random() < .3:
                ts.append(tx(fk, key, S2, 1, nonce=nonce[key]))
                nonce[key] += 1
            ts.append(tx(fk, key, X[1], 0, nonce=nonce[key], gas=100000, typ=3, blobs=[blob(r) for _ in range(k)] if r.random() < .7 else [blob(r)] * k, blobfee=price + r.choice([0, 0, 1, 10])))
            nonce[key] += 1
        if r.random() < .2:
            ts.append(tx(fk, KEY1, X[1], 0, nonce=nonce[KEY1], gas=100000, typ=3, blobs=[blob(r)], blobfee=max(0, price - 1)))
        out.append(scenario("blobtxs%d" % i, fk, pre, ts, dict(excess=hx(ex))))
    for k in range(1, per + 1):          # one hash is of another version
        bs = [blob(r) for _ in range(k)]
        bs[r.choice([-1, -1, 0])] = blob(r, r.choice(["00", "02", "81"]))
        if k % 3 == 0:
            bs = [blob(r)] * (k - 1) + [blob(r, "03")]
        out.append(scenario("version%d" % k, fk, pre, [tx(fk, KEY1, X[1], 0, nonce=0, gas=100000, typ=3, blobs=bs, blobfee=10)]))
    return out

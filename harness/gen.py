"""Scenario families, one per property (or more).  Each generator takes the
fork, a random source and a size factor, and returns scenarios."""
from randprog import *

S1, S2, S3 = key_addr(KEY1), key_addr(KEY2), key_addr(KEY3)
X = [addr(0xB0000 + i) for i in range(40)]
SINKA = addr(0x51A)


def eoas(bal=100 * ETH):
    return [acct(S1, 0, bal), acct(S2, 0, bal)]


def obs(fk, addrs=(), slots=()):
    """code that reads things (the trace shows what was read)"""
    out = b""
    for a in addrs:
        out += A("@" + a, "BALANCE POP", "@" + a, "EXTCODESIZE POP")
    for s in slots:
        out += A(s, "SLOAD POP")
        if fk >= CANCUN:
            out += A(s, "TLOAD POP")
    if fk >= BYZANTIUM:
        out += A("RETURNDATASIZE POP")
    return out + A("GAS POP")


def oog(fk):
    """burn all gas, cheaply for us"""
    return A(1 << 40, "MLOAD")


ENDS = {
    "invalid": lambda fk: bytes([254]),
    "oog": oog,
    "underflow": lambda fk: A("ADD"),
    "badjump": lambda fk: A(3, "JUMP"),
    "revert": lambda fk: A(0x1234, 0, "MSTORE", 64, 0, "REVERT") if fk >= BYZANTIUM else bytes([254]),
    "revert0": lambda fk: A(0, 0, "REVERT") if fk >= BYZANTIUM else A("POP"),
    "rdcopy": lambda fk: A(1, "RETURNDATASIZE", 0, "RETURNDATACOPY") if fk >= BYZANTIUM else A("POP"),
    "return": lambda fk: A(0xbeef, 0, "MSTORE", 40, 0, "RETURN"),
    "stop": lambda fk: A("STOP"),
    "bigret": lambda fk: A(1 << 40, 0, "RETURN"),
}
FAILS = ["invalid", "oog", "underflow", "badjump", "revert", "revert0", "rdcopy", "bigret"]


def callkinds(fk):
    return ["CALL", "CALLCODE"] + (["DELEGATECALL"] if fk >= HOMESTEAD else []) + (["STATICCALL"] if fk >= BYZANTIUM else [])


def create_code(fk, init, value=0, salt=None, off=0):
    """put init in memory and create; leaves the address on the stack"""
    if salt is not None and fk >= CONSTANTINOPLE:
        return mstore_bytes(init, off) + A(salt, len(init), off, value, "CREATE2")
    return mstore_bytes(init, off) + A(len(init), off, value, "CREATE")


def effects(fk, r, grand):
    """pieces of code with a lasting effect; grand: address of a contract to call"""
    es = [
        lambda: A(r.choice([0, 5, 9]), r.choice([0, 1, 2, 3]), "SSTORE"),
        lambda: A(7, 8, 32, 0, "LOG2"),
        lambda: A(0, 0, "LOG0"),
        lambda: call("CALL", SINKA, 3, 50000) + A("POP"),
        lambda: call("CALL", grand, r.choice([0, 2]), r.choice([30000, "GAS", 100000])) + A("POP"),
        lambda: create_code(fk, initcode_for(A(1, 2, "ADD")), r.choice([0, 1])) + A("POP"),
        lambda: A("@" + GHOST, "BALANCE POP"),
        lambda: A(r.choice([4, 5, 6]), "SLOAD POP"),
        lambda: A("@" + X[r.randint(20, 25)], "EXTCODESIZE POP"),
    ]
    if fk >= CANCUN:
        es.append(lambda: A(r.choice([0, 4]), r.choice([0, 1]), "TSTORE"))
    if fk >= HOMESTEAD:
        es.append(lambda: call("DELEGATECALL", grand, 0, 60000) + A("POP"))
    return b"".join(r.choice(es)() for _ in range(r.randint(1, 4)))


def g_atomic(fk, r, n):
    out = []
    for i in range(n):
        # grandchild: effects, then anything; sometimes self-destruct
        gc = effects(fk, r, SINKA) + r.choice([A("@" + S2, "SELFDESTRUCT"), ENDS[r.choice(FAILS)](fk), A("STOP"),
                                               ENDS["return"](fk), ENDS["revert"](fk)])
        kids, top = [], b""
        for j in range(r.randint(2, 4)):
            end = r.choice(FAILS + FAILS + ["return", "stop"])
            body = effects(fk, r, X[0])
            if r.random() < 0.3:
                body += call("CALL", X[0], 0, 100000) + A("POP")
            body += ENDS[end](fk) if r.random() < 0.9 else A("@" + S2, "SELFDESTRUCT")
            if r.random() < 0.3:     # as init code
                top += create_code(fk, body, r.choice([0, 1]), r.choice([None, 3])) + A("POP")
            else:
                kids.append(acct(X[2 + j], 1, 20, body, {0: 1, 1: 5, 4: 4}))
                top += call(r.choice(callkinds(fk)), X[2 + j], r.choice([0, 1]), r.choice([60000, 150000, 150000, 400000]), (0, 4),
                            (64, r.choice([0, 5, 80]))) + A("POP")
            top += obs(fk, [S2, SINKA, X[0], X[2 + j]], [0, 1, 4])
        pre = eoas() + [acct(X[0], 1, 9, gc, {0: 1, 2: 3}), acct(X[1], 1, 50, top + r.choice([A("STOP"), A("STOP"), ENDS[r.choice(FAILS)](fk)]), {0: 2, 1: 5})] + kids
        t = [tx(fk, KEY1, X[1], r.choice([0, 4]), b"", r.choice([900000, 900000, 300000]), 0)]
        if r.random() < 0.3:
            t.append(tx(fk, KEY1, "", r.choice([0, 1]), effects(fk, r, X[0]) + ENDS[r.choice(FAILS)](fk), 300000, 1))
        out.append(scenario("atomic%d" % i, fk, pre, t))
    return out


# ------------------------------------------------------------------ P02
def g_ether(fk, r, n):
    out = []
    for i in range(n):
        vals = [0, 1, 5, 10**6, 10**6 + 1, M256 - 1]
        body = b""
        for j in range(r.randint(2, 6)):
            v = r.choice(vals)
            to = r.choice([X[1], X[2], X[3], S1, S2, GHOST, addr(2), COINBASE, X[0]])
            k = r.random()
            if k < 0.6:
                body += call(r.choice(["CALL", "CALL", "CALLCODE"]), to, v, r.choice([0, 60000, 100000])) + A("POP")
            elif k < 0.75:
                body += create_code(fk, r.choice([b"", A("@" + r.choice([S2, X[2]]), "SELFDESTRUCT"), initcode_for(A("STOP")), bytes([254])]), v) + A("POP")
            elif k < 0.85:
                body += call("CALL", X[3], v if v < 10 else 1, 60000) + A("POP")
            else:
                body += A("SELFBALANCE POP") if fk >= ISTANBUL else A("ADDRESS BALANCE POP")
            body += obs(fk, [X[0], X[1], S2])
        x1 = r.choice([A("STOP"), bytes([254]), call("CALL", "CALLER" if False else X[2], 2, 30000) + A("POP"),
                       A("@" + X[2], "SELFDESTRUCT"), A("ADDRESS SELFDESTRUCT"), A("CALLER SELFDESTRUCT")])
        pre = [acct(S1, 0, r.choice([ETH, 10 * ETH])), acct(S2, 0, ETH),
               acct(X[0], 1, 10**6, body), acct(X[1], 1, 7, x1), acct(X[2], 1, r.choice([0, 3]), A("STOP")),
               acct(X[3], 1, 100, A("@" + r.choice([S2, X[3], GHOST]), "SELFDESTRUCT"))]
        if r.random() < 0.15:
            # a payee whose balance is near the top of the range
            pre.append(acct(X[4], 0, M256 - 10**30))
        cb = r.choice([COINBASE, COINBASE, S1, S2, X[0]])
        ts = []
        for q in range(r.randint(1, 3)):
            ts.append(tx(fk, KEY1, r.choice([X[0], X[0], X[1], X[3], S2, S1, GHOST]), r.choice([0, 1, 1000]), b"",
                         r.choice([400000, 100000]), q, price=r.choice([7, 10, 1000]), prio=r.choice([0, 3]),
                         typ=2 if fk >= LONDON and r.random() < .5 else 0, maxfee=1000))
        ws = [dict(index=hx(k), validator="01", addr=r.choice([S2, X[1], GHOST]), amount=hx(r.choice([0, 1, 10**9])))
              for k in range(r.randint(0, 2))] if fk >= SHANGHAI else []
        oms = [dict(coinbase=r.choice([SINKA, COINBASE, S1]), number=hx(100 - r.randint(1, 6)))] if fk < PARIS and r.random() < .4 else []
        out.append(scenario("ether%d" % i, fk, pre, ts, dict(coinbase=cb), ws, oms))
    return out


# ------------------------------------------------------------------ P03
def op_cases(fk, r):
    """[(name, code)] one or more per instruction of the fork"""
    cs = []
    add = lambda nm, *p: cs.append((nm, A(*p)))
    for op in "ADD MUL SUB DIV SDIV MOD SMOD SIGNEXTEND LT GT SLT SGT EQ AND OR XOR BYTE".split():
        add(op, r.choice(WORDS), r.choice(WORDS), op)
    for op in ("ADDMOD", "MULMOD"):
        add(op, r.choice(WORDS), r.choice(WORDS), r.choice(WORDS), op)
    for e in [0, 1, 255, 256, 65535, 65536, 1 << 128, M256 - 1]:
        add("EXP", e, r.choice([0, 2, 3]), "EXP")
    for op in ("ISZERO", "NOT"):
        add(op, r.choice(WORDS), op)
    if fk >= CONSTANTINOPLE:
        for op in ("SHL", "SHR", "SAR"):
            add(op, r.choice(WORDS), r.choice([0, 1, 255, 256]), op)
    if fk >= OSAKA:
        add("CLZ", r.choice(WORDS), "CLZ")
    sizes = [0, 1, 31, 32, 33, 64, 65, 255, 1024, 22 * 1024, 23168, 23200, 100000]
    for s in r.sample(sizes, 5):
        o = r.choice([0, 0, 1, 31, 5000])
        add("KECCAK", s, o, "KECCAK")
        add("CALLDATACOPY", s, 0, o, "CALLDATACOPY")
        add("CODECOPY", s, 0, o, "CODECOPY")
        add("LOG%d" % (s % 5), *[1] * (s % 5), s, o, "LOG%d" % (s % 5))
        add("RETURN", s, o, "RETURN")
        add("MLOAD", s, "MLOAD")
        add("MSTORE", 1, s, "MSTORE")
        add("MSTORE8", 1, s, "MSTORE8")
        if fk >= BYZANTIUM:
            add("REVERT", s, o, "REVERT")
            add("RETURNDATACOPY", 0, 0, o, "RETURNDATACOPY")
        if fk >= CANCUN:
            add("MCOPY", s, o, r.choice([0, 64, s]), "MCOPY")
        add("EXTCODECOPY", s, 0, o, "@" + r.choice([X[0], GHOST]), "EXTCODECOPY")
        if s <= 49152:
            add("CREATE", min(s, 24000), o, 0, "CREATE")
            if fk >= CONSTANTINOPLE:
                add("CREATE2", s % 7, min(s, 24000), o, 0, "CREATE2")
    for op in "ADDRESS ORIGIN CALLER CALLVALUE CALLDATASIZE CODESIZE GASPRICE COINBASE TIMESTAMP NUMBER PREVRANDAO GASLIMIT PC MSIZE GAS JUMPDEST".split():
        add(op, op)
    add("CALLDATALOAD", 0, "CALLDATALOAD")
    add("BLOCKHASH", 99, "BLOCKHASH")
    if fk >= BYZANTIUM:
        add("RETURNDATASIZE", "RETURNDATASIZE")
    if fk >= ISTANBUL:
        add("CHAINID", "CHAINID"), add("SELFBALANCE", "SELFBALANCE")
    if fk >= LONDON:
        add("BASEFEE", "BASEFEE")
    if fk >= CANCUN:
        add("BLOBHASH", 0, "BLOBHASH"), add("BLOBBASEFEE", "BLOBBASEFEE"), add("TLOAD", 1, "TLOAD"), add("TSTORE", 1, 1, "TSTORE")
    if fk >= SHANGHAI:
        add("PUSH0", "PUSH0")
    for a in (X[0], GHOST, S2):
        add("BALANCE", "@" + a, "BALANCE", "@" + a, "BALANCE")
        add("EXTCODESIZE", "@" + a, "EXTCODESIZE", "@" + a, "EXTCODESIZE")
        if fk >= CONSTANTINOPLE:
            add("EXTCODEHASH", "@" + a, "EXTCODEHASH", "@" + a, "EXTCODEHASH")
    for k in (0, 1, 9):
        add("SLOAD", k, "SLOAD", k, "SLOAD")
        add("SSTORE", k, k, "SSTORE", 3, k, "SSTORE")
        add("SSTORE", 0, k, "SSTORE")
    add("POP", 1, "POP")
    add("JUMP", 4, "JUMP", 1, "JUMPDEST")
    add("JUMP", 3, "JUMP JUMPDEST")
    add("JUMPI", 1, 5, "JUMPI JUMPDEST"), add("JUMPI", 0, 9, "JUMPI")
    for k in (1, 2, 16, 31, 32):
        add("PUSH", push(5, k))
    for k in (1, 2, 15, 16):
        add("DUP", *range(1, k + 1), "DUP%d" % k)
        add("SWAP", *range(1, k + 2), "SWAP%d" % k)
    for op in callkinds(fk):
        for to in (X[0], GHOST, S2, addr(4), X[1]):
            for v in ((0, 1) if op in ("CALL", "CALLCODE") else (0,)):
                cs.append((op, call(op, to, v, r.choice([0, 100, 1000, "GAS", 60000]), (0, r.choice([0, 64])), (r.choice([0, 96]), r.choice([0, 32])))))
    for to in (X[0], GHOST, S2, "self"):
        cs.append(("SELFDESTRUCT", A("ADDRESS" if to == "self" else "@" + to, "SELFDESTRUCT")))
    add("STOP", "STOP")
    return cs


def frame_gas(fk, pre, target, gas=4000000):
    """gas the code of target uses when called with plenty (measured on the code under test)"""
    sc = scenario("probe", fk, pre, [], msg=message(target, gas=gas), system=False)
    ev, exp = run_block(sc)
    return gas - exp["gas"] if not exp["crash"] else 50000


def g_prices(fk, r, n):
    """every instruction, with plenty of gas, with exactly enough and with one less"""
    out = []
    cases = op_cases(fk, r)
    per = 14
    for i in range(0, len(cases), per):
        grp = cases[i:i + per]
        pre = eoas() + [acct(X[0], 1, 5, A(1, 2, "ADD POP")), acct(X[1], 1, 5, bytes([254]))]
        kids = [acct(addr(0xCC00 + j), 1, 10, c, {1: 1, 9: 2}) for j, (_, c) in enumerate(grp)]
        pre = pre + kids
        top = b""
        for j in range(len(grp)):
            a = addr(0xCC00 + j)
            g = frame_gas(fk, pre, a)
            # the caller's own call adds nothing to the callee's gas when no value is sent
            for gg in (g + r.randint(1, 500), g, max(0, g - 1)):
                if gg < 4000000:
                    top += call("CALL", a, 0, gg) + A("POP")
        pre.append(acct(X[9], 1, 0, top))
        out.append(scenario("price%d" % i, fk, pre, [tx(fk, KEY1, X[9], 0, b"", 15000000, 0)]))
    return out


# ------------------------------------------------------------------ P04
def g_sstore(fk, r, n):
    out = []
    vals = [0, 1, 2]
    import itertools
    seqs = [(o, s) for o in vals for L in (1, 2, 3) for s in itertools.product(vals, repeat=L)]
    r.shuffle(seqs)
    size = 30
    for i in range(0, len(seqs), size):
        grp = seqs[i:i + size]
        code, st = b"", {}
        for k, (o, s) in enumerate(grp):
            if o:
                st[k] = o
            if r.random() < 0.3:
                code += A(k, "SLOAD POP")
            for v in s:
                code += A(v, k, "SSTORE")
        pre = eoas() + [acct(X[0], 1, 0, code, st)]
        t = [tx(fk, KEY1, X[0], 0, b"", 6000000, 0)]
        if r.random() < 0.5:
            t.append(tx(fk, KEY1, X[0], 0, b"", 6000000, 1))
        out.append(scenario("sstore%d" % i, fk, pre, t))
    # refund cap, failing frames, stipend boundary, created accounts
    for i in range(n):
        k = r.randint(0, 6)
        clear = b"".join(A(0, j, "SSTORE") for j in range(k))
        setc = b"".join(A(r.choice([0, 1, 3]), j, "SSTORE") for j in range(6))
        st = {j: 1 for j in range(6)}
        child = setc + r.choice([A("STOP"), bytes([254]), ENDS["revert"](fk), A("@" + S2, "SELFDESTRUCT")])
        dc = r.choice(["CALL", "CALLCODE"] + (["DELEGATECALL"] if fk >= HOMESTEAD else []))
        pad = A(*["GAS POP"] * r.choice([0, 10, 200]))
        top = clear + call(dc, X[1], 0, r.choice([70000, 150000, 20000])) + A("POP") + pad + clear
        pre = eoas() + [acct(X[0], 1, 0, top + r.choice([A("STOP"), A("STOP"), ENDS["revert"](fk)]), st), acct(X[1], 1, 0, child, st)]
        txs = [tx(fk, KEY1, X[0], 0, bytes(r.choice([0, 0, 300])), 800000, 0)]
        if fk >= PRAGUE and r.random() < .5:
            txs.append(tx(fk, KEY1, X[0], 0, b"\1" * 1500, 800000, 1))
        out.append(scenario("refund%d" % i, fk, pre, txs))
    # a write with little gas left
    for i in range(max(2, n // 6)):
        st = {0: 1, 1: 0}
        kid = lambda v, k, warm: (A(k, "SLOAD POP") if warm else b"") + A(v, k, "SSTORE")
        top, pre = b"", eoas()
        for j in range(12):
            warm = r.random() < .5
            code = kid(r.choice([0, 1, 2]), r.choice([0, 1]), warm)
            pre.append(acct(X[2 + j], 1, 0, code, st))
            base = 6 + ((SL(fk) + 5) if warm else 0)
            g = r.choice([2300, 2299, 2301, 2300 + 100, 5000, 4999, 5001, 20000, 19999, 22100, 22099, 2900, 2899, 800, 3000, 2200])
            top += call("CALL", X[2 + j], 0, g + base) + A("POP")
        # with the stipend only
        for j, (v, k, warm) in enumerate([(0, 0, 0), (1, 0, 1), (2, 0, 1), (0, 1, 1), (3, 1, 0)] if i == 0 else []):
            pre.append(acct(addr(0xB100 + j), 1, 0, kid(v, k, warm), st))
            for g in (2299, 2300, 2301):
                top += call("CALL", addr(0xB100 + j), 0, g + 6 + ((SL(fk) + 5) if warm else 0)) + A("POP")
        top += call("CALL", X[2], 1, 0) + A("POP")
        pre.append(acct(X[1], 1, 100, top))
        out.append(scenario("stip%d" % i, fk, pre, [tx(fk, KEY1, X[1], 0, b"", 900000, 0)]))
    # writes in accounts made by this transaction
    for i in range(max(2, n // 6)):
        init = A(1, 0, "SSTORE", 0, 0, "SSTORE", 2, 1, "SSTORE", r.choice([0, 2, 3]), 1, "SSTORE")
        run = A(0, 1, "SSTORE", 5, 1, "SSTORE", 2, 1, "SSTORE", 1, 2, "SSTORE")
        code = init + initcode_small_off(run, len(init))
        top = create_code(fk, code) + A(0, 0, 0, 0, 0, "DUP6", 200000, "CALL POP POP")
        pre = eoas() + [acct(X[0], 1, 0, top)]
        out.append(scenario("sscreate%d" % i, fk, pre, [tx(fk, KEY1, X[0], 0, b"", 900000, 0), tx(fk, KEY2, "", 0, code, 900000, 0)]))
    return out


def SL(fk):
    return 50 if fk < TANGERINE else 200 if fk < ISTANBUL else 800 if fk < BERLIN else 2100


def initcode_small_off(run, off):
    h = lambda n: A(len(run), push(n), 0, "CODECOPY", len(run), 0, "RETURN")
    return h(off + len(h(off + 20))) + run if len(h(off + len(h(off + 20)))) == len(h(off + 20)) else h(off + 20) + run


# ------------------------------------------------------------------ P05
def g_access(fk, r, n):
    if fk < BERLIN:
        n = max(2, n // 8)
    out = []
    for i in range(n):
        addrs = [X[0], X[1], X[2], S1, S2, COINBASE, addr(1), addr(9), addr(10), addr(17), addr(256), addr(18), GHOST,
                 SYS["beacon"], X[5], X[6]]

        def touch():
            a = r.choice(addrs)
            k = r.randrange(9)
            if k == 0:
                return A("@" + a, "BALANCE POP")
            if k == 1:
                return A("@" + a, "EXTCODESIZE POP")
            if k == 2:
                return A(0, 0, 0, "@" + a, "EXTCODECOPY")
            if k == 3 and fk >= CONSTANTINOPLE:
                return A("@" + a, "EXTCODEHASH POP")
            if k == 4:
                return call(r.choice(callkinds(fk)), r.choice([X[1], X[2], GHOST, addr(4), S2, X[5]]), r.choice([0, 0, 1]), r.choice([0, 40000])) + A("POP")
            if k in (5, 6):
                return A(r.choice([0, 1, 2, 3, 7]), "SLOAD POP")
            if k == 7:
                return A(r.choice([0, 1]), r.choice([0, 1, 2, 3]), "SSTORE")
            return A("@" + a, "BALANCE POP")

        t = lambda a, b: b"".join(touch() for _ in range(r.randint(a, b)))
        end = lambda: r.choice([A("STOP"), bytes([254]), ENDS["revert"](fk), A("@" + r.choice(addrs), "SELFDESTRUCT")])
        pre = eoas() + [acct(X[1], 1, 5, t(2, 4) + end(), {1: 1}), acct(X[2], 1, 5, t(2, 4) + end(), {2: 1}),
                        acct(X[5], 1, 5, t(1, 3) + end()), acct(X[6], 1, 0, A("STOP"))]
        top = t(3, 5)
        for _ in range(3):
            top += call(r.choice(callkinds(fk)), r.choice([X[1], X[2]]), 0, r.choice([60000, 100000, 3000])) + A("POP") + t(1, 3)
        if r.random() < 0.5:
            init = t(1, 2) + r.choice([b"", bytes([254]), ENDS["revert"](fk)])
            nonce = 1
            created = keccak(rl([unhex(X[0]), nonce]))[12:].hex()
            addrs.append(created)
            top += create_code(fk, init, 0, r.choice([None, None, 5])) + A("POP", "@" + created, "BALANCE POP") + t(1, 2)
        pre.append(acct(X[0], 1, 50, top, {0: 1, 3: 2}))
        al = []
        if fk >= BERLIN and r.random() < 0.7:
            al = [(r.choice(addrs if r.random() < .4 else [X[0], X[1], X[2]]), ["%064x" % r.choice([0, 1, 2, 3]) for _ in range(r.randint(0, 3))]) for _ in range(r.randint(1, 3))]
            if r.random() < .5:      # one account in two places of the list
                al.insert(r.randrange(len(al) + 1), (r.choice(al)[0], ["%064x" % r.choice([0, 1, 2, 3]) for _ in range(r.randint(1, 2))]))
        typ = (r.choice([1, 2]) if fk >= LONDON else 1) if al else 0
        ts = [tx(fk, KEY1, X[0], 0, b"", 900000, 0, typ, access=al, price=10)]
        if r.random() < 0.5:
            ts.append(tx(fk, KEY2, r.choice([X[0], X[1], ""]), 0, t(1, 3) if r.random() < .5 else b"", 400000, 0))
        if r.random() < 0.3:
            ts.append(tx(fk, KEY2, "", 0, t(2, 3), 400000, len([1 for x in ts if x["r"]]) - 1 if len(ts) > 1 else 0))
        out.append(scenario("access%d" % i, fk, pre, ts, dict(coinbase=r.choice([COINBASE, X[6], S2]))))
    return out


# ------------------------------------------------------------------ P06
CONTEXT = A("ADDRESS CALLER CALLVALUE CALLDATASIZE ORIGIN CODESIZE GAS", 0, "CALLDATALOAD",
            "ADDRESS BALANCE", "CALLER BALANCE", "POP POP POP POP POP POP POP POP POP POP")


def g_calls(fk, r, n):
    out = []
    for i in range(n):
        rets = lambda: r.choice([b"", A(0x1122, 0, "MSTORE", r.choice([0, 1, 32, 50]), r.choice([0, 30]), "RETURN"),
                                 ENDS["revert"](fk), bytes([254]), A("STOP"), A("CODESIZE", 0, 0, "CODECOPY CODESIZE", 0, "RETURN")])
        pre = eoas() + [acct(X[1], 1, 5, CONTEXT + rets()), acct(X[2], 1, 5, call(r.choice(callkinds(fk)), X[1], r.choice([0, 1, 6]), "GAS", (0, 36), (0, 40)) + CONTEXT + rets()),
                        acct(X[3], 1, 0, b"")]
        top = b""
        for j in range(r.randint(3, 6)):
            g = r.choice(["GAS", 0, 1, 2300, 10000, 50000, 100000, 1 << 62, M256 - 1, A("GAS", r.choice([63, 64, 65]), "SWAP1 DIV"),
                          A(r.choice([64, 65]), "GAS DIV GAS SUB"), A(r.randint(1, 4000), "GAS SUB")])
            v = r.choice([0, 0, 1, 100, 1000, 1001, M256 - 1])
            top += call(r.choice(callkinds(fk)), r.choice([X[1], X[1], X[2], X[2], X[3], GHOST, S2, addr(4), addr(1)]), v, g,
                        r.choice([(0, 0), (0, 4), (28, 40), (100, 1)]), r.choice([(0, 0), (0, 32), (10, 100), (200, 3)])) + A("POP")
            top += obs(fk)
            if r.random() < .3:
                top += A(0, "MLOAD POP")
            if fk >= BYZANTIUM and r.random() < .5:
                top += A("RETURNDATASIZE", 0, 7, "RETURNDATACOPY", 0, "MLOAD POP")
        pre.append(acct(X[0], 1, 1000, top))
        if r.random() < .25:   # near the depth limit
            out.append(scenario("depth%d" % i, fk, pre, [], msg=message(r.choice([X[0], X[2]]), gas=r.choice([300000, 60000]), depth=r.choice([1022, 1023, 1024, 1024]),
                                                                       aA=[X[0]] if r.random() < .5 else [])))
        else:
            out.append(scenario("calls%d" % i, fk, pre, [tx(fk, KEY1, r.choice([X[0], X[0], X[2]]), r.choice([0, 1]), b"\1\2\3\4\5", r.choice([600000, 120000, 80000]), 0)]))
    # recursion through the depth limit from below; creation at the limit
    rec = call("CALL", X[0], 0, "GAS") + A("POP GAS POP")
    for d in (1020, 1023, 1024):
        for body in (rec, create_code(fk, A("STOP"), 0) + A("POP GAS POP"), call("CALL", X[1], 1, 50000) + A("POP"),
                     create_code(fk, initcode_for(A("STOP")), 0, 7) + A("POP GAS POP ADDRESS BALANCE POP")):
            pre = eoas() + [acct(X[0], 1, 10, body), acct(X[1], 1, 0, A("GAS POP"))]
            out.append(scenario("deep%d_%d" % (d, len(out)), fk, pre, [], msg=message(X[0], gas=300000, depth=d)))
    return out


# ------------------------------------------------------------------ P07
def g_static(fk, r, n):
    if fk < BYZANTIUM:
        return []
    out = []
    muts = [A(1, 0, "SSTORE"), A(0, 1, "SSTORE"), A(0, 0, "LOG0"), A(1, 2, 32, 0, "LOG2"), create_code(fk, b"", 0) + A("POP"),
            A("@" + S2, "SELFDESTRUCT"), call("CALL", S2, 1, 30000) + A("POP"), call("CALL", S2, 0, 30000) + A("POP"),
            call("CALLCODE", X[5], 1, 30000) + A("POP"), A(0, "SLOAD POP"), A(1, 1, 1, 1, 1, 0, 32, "LOG4" if False else "POP POP POP POP POP POP POP")]
    muts.append(A(3, 0, 0, "LOG1"))
    muts.append(A(1, 2, 3, 0, 0, "LOG3"))
    muts.append(A(1, 2, 3, 4, 0, 0, "LOG4"))
    if fk >= CONSTANTINOPLE:
        muts.append(create_code(fk, A("STOP"), 0, 1) + A("POP"))
    if fk >= CANCUN:
        muts += [A(1, 0, "TSTORE"), A(0, "TLOAD POP"), A(1, 5, "TSTORE")]
    allm = muts
    for i in range(n):
        # chain: X0 -static-> X1 -k-> X2 -k-> X3, a mutation in one of them
        pre = eoas()
        where = r.randint(1, 3)
        for d in (3, 2, 1):
            body = b""
            if d == where or r.random() < .2:
                body += r.choice(allm)
            if d < 3:
                body += call(r.choice(callkinds(fk)), X[d + 1], 0, r.choice([100000, 200000, "GAS"])) + A("POP")
                if r.random() < .3:
                    body += r.choice(allm)
            body += r.choice([A("STOP"), A(32, 0, "RETURN")])
            pre.append(acct(X[d], 1, 9, body, {0: 3, 1: 4}))
        pre.append(acct(X[5], 1, 0, A(1, 0, "SSTORE")))
        top = call("STATICCALL", X[1], 0, 300000) + A("POP") + r.choice(allm) + obs(fk, [S2], [0, 1])
        if r.random() < .5:
            top = create_code(fk, top, 0) + A("POP") + r.choice(allm)
        pre.append(acct(X[0], 1, 9, top, {0: 3, 1: 4}))
        if r.random() < .2:
            out.append(scenario("staticmsg%d" % i, fk, pre, [], msg=message(X[r.randint(0, 3)], gas=500000, static=True)))
        else:
            out.append(scenario("static%d" % i, fk, pre, [tx(fk, KEY1, X[0], 0, b"", 1200000, 0)]))
    # each mutation alone, directly and through each kind of call
    pre, top = eoas(), b""
    for j, mcode in enumerate(muts):
        pre.append(acct(addr(0xCD00 + j), 1, 9, mcode, {0: 3}))
        top += call("STATICCALL", addr(0xCD00 + j), 0, 40000) + A("POP")
    pre.append(acct(X[5], 1, 0, A(1, 0, "SSTORE")))
    for k in ("CALL", "CALLCODE", "DELEGATECALL"):
        fwd = A(0, 0, 0, 0) + (A(0) if k != "DELEGATECALL" else b"") + A(0, "CALLDATALOAD", 60000, k, "POP")
        fa = addr(0xCE00 + ["CALL", "CALLCODE", "DELEGATECALL"].index(k))
        pre.append(acct(fa, 1, 9, fwd, {0: 3}))
        for j in range(len(muts)):
            top += A("@" + addr(0xCD00 + j), 0, "MSTORE") + call("STATICCALL", fa, 0, 100000, (0, 32)) + A("POP")
    # and by a contract that calls itself to do it
    for k in callkinds(fk):
        for j, mcode in enumerate(r.sample(muts, 4) + [muts[0]]):
            again = call(k, b"\x30", 0, 60000, (0, 1)) + A("POP")
            pre.append(acct(addr(0xCF00 + len(pre)), 1, 9, A("CALLDATASIZE", push(6 + len(again), 2), "JUMPI") + again + A("STOP JUMPDEST") + mcode, {0: 3}))
            top += call("STATICCALL", pre[-1][0], 0, 100000) + A("POP")
    pre.append(acct(X[0], 1, 9, top + A(1, 7, "SSTORE", 0, 0, "LOG0")))
    out.append(scenario("staticall", fk, pre, [tx(fk, KEY1, X[0], 0, b"", 15000000, 0)]))
    return out


# ------------------------------------------------------------------ P08
def g_create(fk, r, n):
    out = []

    def inits():
        ln = r.choice([0, 1, 5, 32, 33])
        return r.choice([
            b"", initcode_for(bytes([1] * ln)), initcode_for(bytes([0xEF]) + b"\1" * ln), A("STOP"), bytes([254]),
            ENDS["revert"](fk), A(1, 0, "SSTORE") + initcode_small_off(A("STOP"), 5), A("@" + S2, "SELFDESTRUCT"),
            A("ADDRESS BALANCE POP ADDRESS EXTCODESIZE POP") + ENDS["return"](fk),
            A("CALLER CALLVALUE CALLDATASIZE CODESIZE POP POP POP POP") + ENDS["stop"](fk),
            create_code(fk, initcode_for(A("STOP")), 0) + A("POP"), call("CALL", X[0], 0, 30000) + A("POP"), A(0xEF, 0, "MSTORE8", 1, 0, "RETURN"),
        ])
    for i in range(n):
        pre = eoas()
        body = b""
        maker, mnonce = X[0], r.choice([1, 1, 1, 0, 200, (1 << 64) - 2, (1 << 64) - 1])
        for j in range(r.randint(1, 4)):
            init = inits()
            v = r.choice([0, 0, 1, 10, 99, 101])
            salt = r.choice([None, 0, 1, M256 - 1]) if fk >= CONSTANTINOPLE else None
            if r.random() < .35:
                a = keccak(rl([unhex(maker), mnonce + j]))[12:].hex() if salt is None else \
                    keccak(b"\xff" + unhex(maker) + salt.to_bytes(32, "big") + keccak(init))[12:].hex()
                if a not in [p[0] for p in pre]:
                    k = r.randrange(5)
                    pre.append(acct(a, *[(0, 55, b""), (1, 0, b""), (0, 1, b"\0"), (0, 3, b"", {1: 1}) if fk < SPURIOUS or True else None, (0, 7, b"")][k]))
            body += create_code(fk, init, v, salt)
            body += r.choice([A("POP"), A("POP"), A("DUP1 EXTCODESIZE POP BALANCE POP"), A(0, 0, 0, 0, 1, "DUP6", 50000, "CALL POP POP")])
            body += obs(fk)
        pre.append(acct(maker, mnonce, 100, body))
        gas = r.choice([2000000, 400000, 150000])
        ts = [tx(fk, KEY1, maker, 0, b"", gas, 0)]
        if r.random() < .5:
            init = inits()
            a = keccak(rl([unhex(S2), 0]))[12:].hex()
            if r.random() < .4 and a not in [p[0] for p in pre]:
                pre.append(acct(a, *r.choice([(0, 55, b""), (1, 0, b""), (0, 1, b"\0"), (0, 3, b"", {1: 1})])))
            ts.append(tx(fk, KEY2, "", r.choice([0, 5]), init, r.choice([300000, 60000 + 200 * len(init)]), 0))
        out.append(scenario("create%d" % i, fk, pre, ts))
    # deposit cost boundary, code size limits, init code limits
    ret = lambda s: A(s, 0, "RETURN")
    for s in (24575, 24576, 24577) if fk >= SPURIOUS else (24577,):
        out.append(scenario("size%d" % s, fk, eoas(), [tx(fk, KEY1, "", 0, ret(s), 9000000, 0)]))
    for s in (1, 100):
        base = 0
        sc = scenario("p", fk, eoas(), [tx(fk, KEY1, "", 0, ret(s), 900000, 0)])
        _, e = run_block(sc)
        if not e["crash"] and not e["bad"]:
            for d in (-1, 0, 1, -200 * s, -200 * s - 1):
                g = e["gas"] + d
                out.append(scenario("dep%d_%d" % (s, d), fk, eoas(), [tx(fk, KEY1, "", 0, ret(s), max(g, 53600), 0)]))
        maker = create_code(fk, ret(s), 0) + A("DUP1 EXTCODESIZE POP GAS POP")
        for g in (32000 + 200 * s + 60, 32000 + 200 * s + 100, 32000 + 203 * s + 200):
            out.append(scenario("depin%d_%d" % (s, g), fk, eoas() + [acct(X[0], 1, 0, maker), acct(X[1], 1, 0, call("CALL", X[0], 0, g) + A("POP GAS POP"))],
                                [tx(fk, KEY1, X[1], 0, b"", 400000, 0)]))
    if fk >= PARIS:
        for s in (49151, 49152, 49153):
            out.append(scenario("init%d" % s, fk, eoas(), [tx(fk, KEY1, "", 0, b"\0" * s, 2000000, 0)]))
            out.append(scenario("initop%d" % s, fk, eoas() + [acct(X[0], 1, 0, A(s, 0, 0, "CREATE POP", 1, s, 0, 0, "CREATE2 POP GAS POP"))],
                                [tx(fk, KEY1, X[0], 0, b"", 2000000, 0)]))
    if fk >= CONSTANTINOPLE:
        # destroy and create again at the same address
        kill = initcode_for(A("@" + S2, "SELFDESTRUCT"))
        again = create_code(fk, kill, 1, 9) + A("DUP1", 0, "SSTORE POP")
        callit = A(0, 0, 0, 0, 0, 0, "SLOAD", 50000, "CALL POP")
        out.append(scenario("recreate", fk, eoas() + [acct(X[0], 1, 9, again + callit + again + A("GAS POP"))],
                            [tx(fk, KEY1, X[0], 0, b"", 900000, 0), tx(fk, KEY1, X[0], 0, b"", 900000, 1)]))
    return out


# ------------------------------------------------------------------ P09
def g_destruct(fk, r, n):
    out = []
    for i in range(n):
        bens = [S2, X[0], X[1], X[2], GHOST, addr(3), COINBASE, "ADDRESS", "CALLER", "ORIGIN"]
        ben = lambda: (lambda b: b if b.isupper() and not b[0].isdigit() and len(b) < 10 else "@" + b)(r.choice(bens))
        die = lambda: A(r.choice([1, 0, 7]), 2, "SSTORE") * r.randint(0, 1) + A(ben(), "SELFDESTRUCT")
        pre = eoas() + [acct(X[1], 1, r.choice([0, 50]), die(), {0: 1, 5: 6}), acct(X[2], 1, r.choice([0, 60]), die(), {1: 1})]
        body = b""
        for j in range(r.randint(2, 5)):
            k = r.random()
            if k < .5:
                body += call(r.choice(callkinds(fk)[:3]), r.choice([X[1], X[2]]), r.choice([0, 0, 3]), r.choice([60000, 100000, 5000, 30000])) + A("POP")
            elif k < .65:
                body += call("CALL", X[3], 0, 120000) + A("POP")         # wrapper that fails afterwards
            elif k < .85:
                run = die()
                body += create_code(fk, r.choice([initcode_for(run), run, A(1, 1, "SSTORE") + run]), r.choice([0, 2]), r.choice([None, 1])) + \
                    r.choice([A("POP"), A(0, 0, 0, 0, r.choice([0, 1]), "DUP6", 60000, "CALL POP") * r.randint(1, 2) + A("EXTCODESIZE POP")])
            else:
                body += call("CALL", r.choice([X[1], X[2]]), 5, 0) + A("POP")
            body += obs(fk, [X[1], X[2], S2])
        pre += [acct(X[3], 1, 4, call("CALL", r.choice([X[1], X[2]]), 1, 60000) + A("POP") + r.choice([bytes([254]), ENDS["revert"](fk), A("STOP")])),
                acct(X[0], 1, 40, body + r.choice([b"", b"", A(ben(), "SELFDESTRUCT"), bytes([254])]))]
        ts = [tx(fk, KEY1, X[0], r.choice([0, 2]), b"", r.choice([700000, 300000]), 0)]
        ts.append(tx(fk, KEY1, r.choice([X[1], X[2], X[0]]), r.choice([0, 3]), b"", 200000, 1))
        if r.random() < .4:
            ts.append(tx(fk, KEY2, "", r.choice([0, 3]), r.choice([die(), initcode_for(die())]), 300000, 0))
        out.append(scenario("die%d" % i, fk, pre, ts, dict(coinbase=r.choice([COINBASE, X[1], S2]))))
    return out


# ------------------------------------------------------------------ P10
def g_empty(fk, r, n):
    out = []
    RIP = addr(3)
    for i in range(n):
        stale = [X[10], X[11], RIP, COINBASE, SINKA] if fk < PARIS else []
        pre = eoas() + [acct(a, 0, 0, b"") for a in stale if r.random() < .7]
        some = [X[10], X[11], RIP, addr(2), GHOST, SINKA, X[12], COINBASE]

        def t():
            a = r.choice(some)
            k = r.random()
            if k < .6:
                return call(r.choice(callkinds(fk)), a, r.choice([0, 0, 0, 1]), r.choice([0, 30000, 100])) + A("POP")
            if k < .7:
                return A("@" + a, "EXTCODESIZE POP")
            if k < .8:
                return create_code(fk, r.choice([b"", bytes([254])]), 0) + A("POP")
            return call("CALL", r.choice([X[1], X[2]]), 0, r.choice([60000, 90000])) + A("POP")
        T = lambda a, b: b"".join(t() for _ in range(r.randint(a, b)))
        fails = [bytes([254]), ENDS["revert"](fk), A("STOP")]
        pre += [acct(X[2], 1, 0, call("CALL", r.choice([RIP, X[10]]), 0, 30000) + A("POP") + r.choice(fails + [A("@" + r.choice(some), "SELFDESTRUCT")])),
                acct(X[1], 1, r.choice([0, 5]), T(1, 2).replace(b"", b"") + r.choice(fails + [A("@" + r.choice(some), "SELFDESTRUCT")])),
                acct(X[0], 1, 3, T(2, 4) + r.choice(fails + [A("STOP")] * 3))]
        price = r.choice([0, 0, 10]) if fk < LONDON else 7
        ts = [tx(fk, KEY1, r.choice([X[0], X[0], X[0], X[10], RIP, GHOST, X[12], ""]), r.choice([0, 0, 1]), b"", 600000, 0, price=price,
                 typ=0)]
        if r.random() < .5:
            ts.append(tx(fk, KEY1, r.choice([X[1], X[11], GHOST]), 0, b"", 300000, 1, price=price))
        oms = [dict(coinbase=r.choice([X[10], X[12]]), number=hx(99))] if fk < PARIS and r.random() < .3 else []
        ws = [dict(index=hx(q), validator="01", addr=r.choice([GHOST, X[12], X[10], S2]), amount=hx(r.choice([0, 0, 1]))) for q in range(r.randint(0, 2))] if fk >= SHANGHAI else []
        out.append(scenario("empty%d" % i, fk, pre, ts, dict(coinbase=r.choice([COINBASE, X[12], X[10], S2]), baseFee="07"), ws, oms))
    return out


# ------------------------------------------------------------------ P11
def g_arith(fk, r, n):
    """straight line programs of arithmetic over corner values"""
    out = []
    corner = [0, 1, 2, 3, 31, 32, 255, 256, 257, M256 - 1, M256 - 2, 1 << 255, (1 << 255) - 1, (1 << 255) + 1, 1 << 128, (1 << 64) - 1, 0x7f, 0x80, 0x8000, 0x7fff,
              (1 << 127), 10**18, M256 - 32, M256 - 256]
    two = ARITH2 + (ARITH2C if fk >= CONSTANTINOPLE else [])
    val = lambda: r.choice(corner) if r.random() < .75 else r.getrandbits(r.choice([8, 64, 128, 255, 256]))
    prog, progs = b"", []
    count = 0
    lst = []
    for op in two:
        idx = op in ("BYTE", "SIGNEXTEND", "SHL", "SHR", "SAR")
        for _ in range(n if not idx else n * 2):
            a = (r.choice(list(range(0, 35)) + [127, 128, 254, 255, 256, 257, 1 << 64, M256 - 1]) if idx else val())
            lst.append(A(val(), a, op, "POP"))
        # the pairs of the most delicate corners, all of them
        if not idx:
            cc = [0, 1, 2, M256 - 1, M256 - 2, 1 << 255, (1 << 255) - 1, (1 << 255) + 1, M256 - 7, 7]
            for a in cc:
                for b in cc:
                    if r.random() < (1 if op in ("SDIV", "SMOD", "SLT", "SGT") else .25):
                        lst.append(A(a, b, op, "POP"))
        elif op == "BYTE":
            lst += [A(int.from_bytes(bytes(range(0xc0, 0xe0)), "big"), k, op, "POP") for k in list(range(34)) + [256, 1 << 255]]
        elif op == "SIGNEXTEND":
            for k in list(range(33)) + [256, 1 << 255]:
                top = 1 << (8 * min(k, 31) + 7)
                lst += [A(x, k, op, "POP") for x in r.sample([top, top - 1, M256 - 1, M256 - 1 - top, top | (top << 8) & (M256 - 1)], 3)]
        else:
            for k in (0, 1, 7, 8, 254, 255, 256, 257, 511, 1 << 32, 1 << 255, M256 - 1):
                lst += [A(x, k, op, "POP") for x in (M256 - 1, 1 << 255, (1 << 255) - 1, M256 - 5)]
    for op in ("ADDMOD", "MULMOD"):
        for _ in range(n * 2):
            lst.append(A(r.choice([0, 1, 2, val(), val(), val()]), val(), val(), op, "POP"))
    for op in ["ISZERO", "NOT"] + (["CLZ"] if fk >= OSAKA else []):
        for _ in range(n):
            lst.append(A(r.choice([val(), 1 << r.randrange(256), (1 << r.randrange(1, 256)) - 1]), op, "POP"))
    for _ in range(n):
        lst.append(A(val(), 0, "MSTORE", val(), 32, "MSTORE", r.choice([0, 1, 31, 32, 33, 64]), r.choice([0, 1, 31]), "KECCAK POP"))
    lst.append(A(136, 0, "KECCAK POP", 135, 0, "KECCAK POP", 137, 0, "KECCAK POP", 272, 0, "KECCAK POP"))
    r.shuffle(lst)
    for i in range(0, len(lst), 120):
        out.append(scenario("arith%d" % i, fk, eoas() + [acct(X[0], 1, 0, b"".join(lst[i:i + 120]))],
                            [tx(fk, KEY1, X[0], 0, b"", 3000000, 0)]))
    return out


# ------------------------------------------------------------------ P12
def g_flow(fk, r, n):
    out = []
    kids = []
    deep = lambda k: A(1) + A(*["DUP1"] * (k - 1))
    kids += [deep(1024), deep(1025), deep(1023) + A("PC PC"), deep(1023) + A("PC"), deep(1024) + A("DUP16"), deep(1024) + A("SWAP16 POP"),
             deep(1024) + A("ADDRESS"), deep(1024) + push(1, 32), deep(1024) + A("MLOAD"), deep(1024) + A("ADD PC PC")]
    # underflow: every instruction one item short, and with exactly its items
    for op in range(256):
        nm = NAMES.get(op)
        if nm is None:
            continue
        need = {**{o: 2 for o in range(1, 32)}, 8: 3, 9: 3, 21: 1, 25: 1, 30: 1, 32: 2, 49: 1, 53: 1, 55: 3, 57: 3, 59: 1, 60: 4, 62: 3, 63: 1, 64: 1, 73: 1,
                80: 1, 81: 1, 82: 2, 83: 2, 84: 1, 85: 2, 86: 1, 87: 2, 92: 1, 93: 2, 94: 3, 240: 3, 241: 7, 242: 7, 243: 2, 244: 6, 245: 4, 250: 6, 253: 2, 255: 1,
                **{128 + k: k + 1 for k in range(16)}, **{144 + k: k + 2 for k in range(16)}, **{160 + k: k + 2 for k in range(5)}}.get(op, 0)
        if need:
            kids.append(A(*[1] * (need - 1)) + bytes([op]))
            if r.random() < .5:
                kids.append(A(*[0] * need) + bytes([op]) + A("PC"))
    # jumps
    kids += [bytes.fromhex("6003565b00"), bytes.fromhex("600456605b00"), bytes.fromhex("6005565b605b00"), A(M256 - 1, "JUMP"), A(1 << 64, "JUMP"),
             bytes.fromhex("600160065700605b5b00"), bytes.fromhex("6001600857005b605b5b00"), bytes.fromhex("6000600957fe00"), bytes.fromhex("60ff56"),
             bytes.fromhex("600456" + "7f" + "5b" * 32 + "5b"), bytes.fromhex("602456" + "7f" + "5b" * 32 + "5b5800"), bytes.fromhex("605b605b565b"),
             bytes.fromhex("6006565f5f5b5800"), bytes.fromhex("600856" + "62" + "5b5b5b" + "60" + "5b" + "5b"), A(0, "JUMP"), bytes.fromhex("5b600056")[:3],
             A((1 << 32) + 4, "JUMP JUMPDEST"), A((1 << 64) + 11, "JUMP JUMPDEST"), A(1, M256 - 1, "JUMPI"), A(0, M256 - 1, "JUMPI PC")]
    # truncated pushes, end of code
    kids += [bytes([0x60]), bytes([0x7f, 1, 2]), bytes([0x61, 5]) + b"", bytes([0x5b]), b"\x58"]
    for k in range(1, 33):
        kids.append(push(int.from_bytes(bytes(range(1, k + 1)), "big"), k) + (A("PC") if k % 2 else b""))
        if k % 5 == 0:
            kids.append(bytes([95 + k]) + bytes(range(1, k)))
    for k in range(1, 17):
        items = list(range(100, 117))
        kids.append(A(*items, "DUP%d" % k, "PC"))
        kids.append(A(*items, "SWAP%d" % k, "PC"))
    # memory and data windows
    for _ in range(n):
        offs = [0, 1, 31, 32, 33, 63, 64, 100, 2000]
        big = [M256 - 1, 1 << 255, 1 << 64, (1 << 64) - 1, 1 << 32, M256 - 31]
        o, s = r.choice(offs), r.choice([0, 1, 31, 32, 33, 65])
        p = [A(0x1122334455667788, r.choice(offs), "MSTORE", "MSIZE", r.choice(offs), "MLOAD"),
             A(0xabcdef, r.choice(offs), "MSTORE8", "MSIZE", r.choice(offs), "MLOAD"),
             A(r.choice(offs + big), "CALLDATALOAD"), A(s, r.choice(offs + big), o, "CALLDATACOPY MSIZE", 0, "MLOAD"),
             A(s, r.choice(offs + big), o, "CODECOPY MSIZE", o, "MLOAD"), A(s, r.choice(offs + big), o, "@" + X[1], "EXTCODECOPY MSIZE", o, "MLOAD"),
             A(0, r.choice(big), "MLOAD"), A(0, r.choice(big), "KECCAK MSIZE"), A(0, 0, r.choice(big), "CALLDATACOPY MSIZE"), A(0, r.choice(big), "LOG0 MSIZE"),
             A(0, r.choice(big), "RETURN"), A(r.choice(big), 0, "KECCAK"), A(1, r.choice(big), "MSTORE")]
        if fk >= CANCUN:
            p.append(mstore_bytes(bytes(range(1, 65))) + A(s, r.choice(offs), o, "MCOPY MSIZE", 0, "MLOAD", 32, "MLOAD"))
            p.append(mstore_bytes(bytes(range(1, 97))) + A(r.choice([33, 40, 64]), r.choice([0, 1, 5, 32]), r.choice([0, 1, 7, 30]), "MCOPY", 0, "MLOAD", 32, "MLOAD"))
            p.append(A(0, r.choice(big), r.choice(big), "MCOPY MSIZE"))
        if fk >= BYZANTIUM:
            p.append(call("CALL", X[1], 0, 30000) + A(r.choice([0, 1, 20, 40, 41]), r.choice([0, 1, 20, 40, 41] + big), o, "RETURNDATACOPY MSIZE", o, "MLOAD"))
            p.append(call("CALL", X[1], 0, 30000, (0, 0), (r.choice([0, 5]), r.choice([0, 1, 39, 40, 41, 64]))) + A("MSIZE", 0, "MLOAD", 32, "MLOAD RETURNDATASIZE"))
            p.append(call("CALL", X[1], 0, 30000) + call("CALL", S2, 0, 100) + A("RETURNDATASIZE"))
            p.append(call("CALL", X[1], 0, 30000) + create_code(fk, r.choice([A("STOP"), ENDS["revert"](fk), A(1, 0, "RETURN")])) + A("RETURNDATASIZE"))
            p.append(call("CALL", X[1], 0, 30000) + create_code(fk, A("STOP"), 10**30) + A("RETURNDATASIZE"))
            p.append(call("CALL", X[1], 0, 30000) + call("CALL", S2, 10**30, 100) + A("RETURNDATASIZE"))
        kids += r.sample(p, min(len(p), 8))
    groups = [[c] for c in kids[:10]] + [kids[i:i + 16] for i in range(10, len(kids), 16)]
    for i, grp in enumerate(groups):
        pre = eoas() + [acct(X[1], 1, 0, mstore_bytes(bytes(range(1, 41))) + A(40, 0, "RETURN"))]
        top = A(0x0102030405060708 << 192, 0, "MSTORE")
        for j, c in enumerate(grp):
            pre.append(acct(addr(0xCC00 + j), 1, 10, c))
            top += call("CALL", addr(0xCC00 + j), 0, 100000, (0, r.choice([0, 5, 36]))) + A("POP")
        pre.append(acct(X[0], 1, 0, top))
        out.append(scenario("flow%d" % i, fk, pre, [tx(fk, KEY1, X[0], 0, b"", 8000000, 0)]))
    return out


# ------------------------------------------------------------------ P13
def g_opcodes(fk, r, n):
    out = []
    kids = [A(*[1] * 17) + bytes([op]) + A("PC") for op in range(256)]
    kids += [A(0, 0, 0, 0, 0, 0, 0, 0) + bytes([op]) + A("PC") for op in range(256) if op >= 0x1b and r.random() < .4]
    per = 20
    for i in range(0, len(kids), per):
        pre, top = eoas(), b""
        for j, c in enumerate(kids[i:i + per]):
            pre.append(acct(addr(0xCC00 + j), 1, 10, c, {1: 2}))
            top += call("CALL", addr(0xCC00 + j), 0, 100000, (0, 36)) + A("POP")
        pre.append(acct(X[0], 1, 0, top))
        out.append(scenario("ops%d" % i, fk, pre, [tx(fk, KEY1, X[0], 0, b"", 8000000, 0)]))
    # precompile availability
    top = b""
    for a in list(range(0, 22)) + [255, 256, 257, 0x10001, 1 << 159]:
        top += call("CALL", addr(a), 0, 3000, (0, 4), (0, 32)) + A("POP", 0, "MLOAD POP") + (A("RETURNDATASIZE POP") if fk >= BYZANTIUM else b"")
        top += A("@" + addr(a), "BALANCE POP")
    out.append(scenario("pre", fk, eoas() + [acct(X[0], 1, 0, top)], [tx(fk, KEY1, X[0], 0, b"", 8000000, 0)]))
    for a in list(range(1, 20)) + [256]:
        out.append(scenario("pretx%d" % a, fk, eoas(), [tx(fk, KEY1, addr(a), r.choice([0, 1]), b"\1\2\3", 100000, 0)]))
    # environment values
    ops = ENV0 + ["CALLDATASIZE"] + (["RETURNDATASIZE"] if fk >= BYZANTIUM else []) + (["CHAINID", "SELFBALANCE"] if fk >= ISTANBUL else []) + \
        (["BASEFEE"] if fk >= LONDON else []) + (["BLOBBASEFEE"] if fk >= CANCUN else [])
    env = A(*[o + " POP" for o in ops]) + A("ADDRESS BALANCE POP", 0, "CALLDATALOAD POP", 5, "CALLDATALOAD POP", 64, "BLOCKHASH POP")
    env += A(*[z for k in (1, 2, 31, 32, 33, 255, 256, 1 << 16, (1 << 31) + 1, 1 << 32, (1 << 63) + 1, (1 << 64) + 1, 1 << 128, M256 - 31, M256 - 1) for z in (k, "CALLDATALOAD POP")])
    if fk >= CANCUN:
        env += b"".join(A(k, "BLOBHASH POP") for k in (0, 1, 2, 6, 1 << 70))
    if fk >= CONSTANTINOPLE:
        env += b"".join(A("@" + a, "EXTCODEHASH POP") for a in (X[0], S1, GHOST, X[1], addr(1), COINBASE))
    for i in range(n):
        hs = [("%064x" % r.getrandbits(256)) for _ in range(40)]
        blk = dict(coinbase="%040x" % r.getrandbits(160), time=hx(r.getrandbits(40)), number=hx(40),
                   hashes=hs, difficulty=hx(r.getrandbits(60)), randao="%064x" % r.getrandbits(256), gasLimit=r.randint(3000000, 30000000),
                   chainId=hx(r.choice([1, 5, 1337])), baseFee=hx(r.choice([7, 1000, 10**9])), excess=hx(r.choice([0, 5 * 131072, 10**7, 10**8])))
        cid = unint(blk["chainId"])
        hop = call(r.choice(callkinds(fk)), X[1], r.choice([0, 3]), 200000, (0, r.choice([0, 3, 40]))) + A("POP")
        pre = [acct(S1, 0, 10**30), acct(X[0], 1, 77, env + hop), acct(X[1], 1, 5, env)]
        ts = [tx(fk, KEY1, X[0], r.randint(0, 100), bytes(r.getrandbits(8) for _ in range(r.choice([0, 3, 33]))), 500000, 0, price=10**9 + r.randint(0, 99), chain=cid)]
        if fk >= LONDON:
            ts.append(tx(fk, KEY1, X[0], 1, b"", 500000, 1, 2, maxfee=10**9 + r.randint(0, 10**9), prio=r.randint(0, 10**9), chain=cid))
        if fk >= CANCUN:
            ts.append(tx(fk, KEY1, X[0], 1, b"", 500000, 2, 3, maxfee=10**10, prio=1, blobfee=10**18, blobs=["01" + "%062x" % r.getrandbits(248) for _ in range(r.randint(1, 3))], chain=cid))
        out.append(scenario("env%d" % i, fk, pre, ts, blk))
    return out

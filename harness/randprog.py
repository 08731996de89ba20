"""Random programs: stack-aware, biased towards the interesting corners."""
from asm import *

SMALL = [0, 1, 2, 3, 5, 7, 31, 32, 33, 64, 255, 256]
WORDS = SMALL + [M256 - 1, M256 - 2, 1 << 255, (1 << 255) - 1, (1 << 255) + 1, 1 << 128, (1 << 64) - 1, 1 << 64,
                 0x8000, 0x7f, 0x80, 0xff80]
EOA = addr(0xE0A)            # has only balance
GHOST = addr(0x6057)         # does not exist
CON = [addr(0xA0001), addr(0xA0002), addr(0xA0003), addr(0xA0004)]

ARITH2 = "ADD MUL SUB DIV SDIV MOD SMOD EXP SIGNEXTEND LT GT SLT SGT EQ AND OR XOR BYTE".split()
ARITH2C = "SHL SHR SAR".split()
ENV0 = "ADDRESS ORIGIN CALLER CALLVALUE CALLDATASIZE CODESIZE GASPRICE COINBASE TIMESTAMP NUMBER PREVRANDAO GASLIMIT PC MSIZE GAS".split()


class Gen:
    def __init__(self, fk, rng, w=None):
        self.fk, self.r = fk, rng
        self.w = dict(arith=10, env=4, mem=6, storage=8, transient=4, account=6, call=10, create=3, log=3,
                      destruct=1, jump=3, stack=4, hash=2, copy=3, precompile=3, junk=0.3, stop=0.5)
        if w:
            self.w.update(w)
        if fk < CANCUN:
            self.w["transient"] = 0

    def word(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return r.choice(SMALL)
        if k < 0.8:
            return r.choice(WORDS)
        if k < 0.9:
            return r.getrandbits(256)
        return r.getrandbits(r.choice([8, 16, 32, 64, 128, 160]))

    def address(self):
        r = self.r
        k = r.random()
        if k < 0.55:
            return r.choice(CON)
        if k < 0.65:
            return EOA
        if k < 0.75:
            return GHOST
        if k < 0.8:
            return key_addr(KEY1)
        if k < 0.84:
            return COINBASE
        if k < 0.97:
            return addr(r.randint(1, 18))
        return "%040x" % r.getrandbits(160)

    def off(self):
        r = self.r
        return r.choice([0, 0, 0, 1, 4, 31, 32, 33, 64, 96, 100]) if r.random() < 0.985 else \
            r.choice([1000, 5000, 1 << 20, 1 << 24, 1 << 32, 1 << 64, M256 - 1])

    def size(self):
        r = self.r
        return r.choice([0, 0, 1, 4, 31, 32, 32, 33, 64, 65]) if r.random() < 0.985 else \
            r.choice([1000, 1 << 20, 1 << 24, 1 << 32, 1 << 64, M256 - 1])

    def key(self):
        return self.r.choice([0, 1, 2, 3, 1, 2, M256 - 1]) if self.r.random() < 0.95 else self.word()

    def gas(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            return "GAS"
        if k < 0.8:
            return r.choice([0, 1, 700, 2300, 2301, 5000, 10000, 20000, 30000, 50000])
        if k < 0.9:
            return r.choice([1 << 20, 1 << 31, 1 << 64, M256 - 1])
        return ["GAS", r.choice([2, 3, 64]), "SWAP1 DIV"]

    def value(self):
        r = self.r
        return 0 if r.random() < 0.5 else r.choice([1, 2, 5, 1000, 10**6, 10**19, M256 - 1])

    def snippet(self, depth):
        r, fk = self.r, self.fk
        kinds, ws = zip(*self.w.items())
        k = r.choices(kinds, ws)[0]
        f = getattr(self, "g_" + k)
        return f(depth)

    def sink(self):
        """what to do with a value on the stack"""
        r = self.r
        k = r.random()
        if k < 0.35:
            return A("POP")
        if k < 0.6:
            return A(self.key(), "SSTORE")
        if k < 0.85:
            return A(r.choice([0, 32, 64, 1]), "MSTORE")
        return b""

    def g_arith(self, d):
        r = self.r
        k = r.random()
        if k < 0.7:
            op = r.choice(ARITH2 + (ARITH2C if self.fk >= CONSTANTINOPLE else []))
            a, b = self.word(), self.word()
            if op in ("BYTE", "SIGNEXTEND", "SHL", "SHR", "SAR") and r.random() < 0.7:
                b = r.randint(0, 34 if op in ("BYTE", "SIGNEXTEND") else 258)
            return A(a, b, op) + self.sink()
        if k < 0.85:
            return A(self.word(), self.word(), self.word(), r.choice(["ADDMOD", "MULMOD"])) + self.sink()
        ops = ["ISZERO", "NOT"] + (["CLZ"] if self.fk >= OSAKA else [])
        return A(self.word(), r.choice(ops)) + self.sink()

    def g_env(self, d):
        r, fk = self.r, self.fk
        ops = list(ENV0)
        if fk >= BYZANTIUM:
            ops.append("RETURNDATASIZE")
        if fk >= ISTANBUL:
            ops += ["CHAINID", "SELFBALANCE"]
        if fk >= LONDON:
            ops.append("BASEFEE")
        if fk >= CANCUN:
            ops.append("BLOBBASEFEE")
        if r.random() < 0.25:
            n = 100
            return A(r.choice([0, n, n + 1, n - 1, n - 2, n - 20, n - 21, n - 256, n - 257, M256 - 1]) % M256,
                     "BLOCKHASH") + self.sink()
        if fk >= CANCUN and r.random() < 0.1:
            return A(r.choice([0, 1, 2, 1 << 64]), "BLOBHASH") + self.sink()
        return A(r.choice(ops)) + self.sink()

    def g_mem(self, d):
        r = self.r
        k = r.random()
        if k < 0.35:
            return A(self.word(), self.off(), "MSTORE")
        if k < 0.6:
            return A(self.word(), self.off(), "MSTORE8")
        if k < 0.9 or self.fk < CANCUN:
            return A(self.off(), "MLOAD") + self.sink()
        return A(self.size(), self.off(), self.off(), "MCOPY")

    def g_storage(self, d):
        r = self.r
        if r.random() < 0.4:
            return A(self.key(), "SLOAD") + self.sink()
        v = r.choice([0, 0, 1, 2, 7]) if r.random() < 0.9 else self.word()
        return A(v, self.key(), "SSTORE")

    def g_transient(self, d):
        r = self.r
        if r.random() < 0.5:
            return A(self.key(), "TLOAD") + self.sink()
        return A(r.choice([0, 1, 2, 9]), self.key(), "TSTORE")

    def g_account(self, d):
        r = self.r
        ops = ["BALANCE", "EXTCODESIZE"] + (["EXTCODEHASH"] if self.fk >= CONSTANTINOPLE else [])
        if r.random() < 0.75:
            return A("@" + self.address(), r.choice(ops)) + self.sink()
        return A(self.size(), self.off(), self.off(), "@" + self.address(), "EXTCODECOPY")

    def g_copy(self, d):
        r = self.r
        ops = ["CALLDATACOPY", "CODECOPY"] + (["RETURNDATACOPY"] if self.fk >= BYZANTIUM and r.random() < 0.5 else [])
        op = r.choice(ops)
        if op == "RETURNDATACOPY" and r.random() < 0.6:
            return A("RETURNDATASIZE", 0, self.off(), "RETURNDATACOPY")
        if r.random() < 0.2:
            return A(self.word(), "CALLDATALOAD") + self.sink()
        return A(self.size(), self.off(), self.off(), op)

    def callop(self):
        ops = ["CALL", "CALL", "CALLCODE"]
        if self.fk >= HOMESTEAD:
            ops.append("DELEGATECALL")
        if self.fk >= BYZANTIUM:
            ops += ["STATICCALL", "STATICCALL"]
        return self.r.choice(ops)

    def g_call(self, d, to=None):
        return call(self.callop(), to or self.address(), self.value(), self.gas(), (self.off(), self.size()),
                    (self.off(), self.size())) + (self.sink() if self.r.random() < 0.8 else b"")

    def g_precompile(self, d):
        r = self.r
        to = addr(r.choice([1, 2, 3, 4, 4, 5, 6, 7, 9, 3, 2]))
        return A(self.word(), 0, "MSTORE", self.word(), 32, "MSTORE") + \
            call(self.callop(), to, 0, r.choice(["GAS", 3000, 100, 60, 700]), (0, r.choice([0, 1, 32, 64, 96, 128])),
                 (r.choice([0, 32]), r.choice([0, 32, 64]))) + self.sink()

    def g_create(self, d):
        r = self.r
        if d <= 0:
            return b""
        k = r.random()
        if k < 0.6:
            run = self.code(d - 1, r.randint(1, 4))
            init = self.code(d - 1, r.randint(0, 2), end=False) + initcode_small(run) if r.random() < 0.5 else initcode_small(run)
        elif k < 0.9:
            init = self.code(d - 1, r.randint(1, 4))
        else:
            init = r.choice([b"", A(0xEF, 0, "MSTORE8", 1, 0, "RETURN"), A(24577, 0, "RETURN"), A(24576, 0, "RETURN"),
                             A(0, 0, "REVERT"), bytes([254])])
        init = init[:200]
        pre = mstore_bytes(init)
        v = r.choice([0, 0, 0, 1, 5, 10**19])
        if self.fk >= CONSTANTINOPLE and r.random() < 0.5:
            return pre + A(r.choice([0, 1]), len(init), 0, v, "CREATE2") + self.after_create()
        return pre + A(len(init), 0, v, "CREATE") + self.after_create()

    def after_create(self):
        r = self.r
        if r.random() < 0.5:
            return self.sink()
        # call what was created
        return A(0, 0, 0, 0, self.value(), "DUP6", 30000, "CALL POP POP")

    def g_log(self, d):
        n = self.r.randint(0, 4)
        return A([self.word() for _ in range(n)], self.size(), self.off(), "LOG%d" % n)

    def g_destruct(self, d):
        return A("@" + self.address() if self.r.random() < 0.8 else "ADDRESS", "SELFDESTRUCT")

    def g_jump(self, d):
        r = self.r
        body = self.snippet(d - 1) if d > 0 else b""
        if isinstance(body, tuple):
            body = body[2]
        body = body[:100]
        k = r.random()
        if k < 0.4:      # conditional skip
            return ("skip", A(r.choice([0, 1, "CALLVALUE", "GAS"])), body)
        if k < 0.8:
            return ("goto", b"", body)
        return A(self.word(), r.choice(["JUMP", "JUMPI"]))

    def g_stack(self, d):
        r = self.r
        n = r.randint(1, 16)
        return A([self.word() for _ in range(n)], r.choice(["DUP%d" % n, "SWAP%d" % max(1, n - 1)])) + \
            A(*(["POP"] * r.randint(0, n)))

    def g_hash(self, d):
        return A(self.size(), self.off(), "KECCAK") + self.sink()

    def g_junk(self, d):
        r = self.r
        return r.choice([bytes([r.randrange(256)]), A("POP"), bytes([254]), A("ADD"), bytes(r.randrange(256) for _ in range(3))])

    def g_stop(self, d):
        r = self.r
        ops = ["RETURN"] + (["REVERT"] if self.fk >= BYZANTIUM else [])
        if r.random() < 0.3:
            return A("STOP")
        return A(self.size(), self.off(), r.choice(ops))

    def code(self, depth=2, n=8, end=True):
        out = b""
        for _ in range(n):
            s = self.snippet(depth)
            if isinstance(s, tuple):
                kind, cond, body = s
                if kind == "skip":
                    out += cond
                    dest = len(out) + 4 + len(body)
                    out += push(dest, 2) + A("JUMPI") + body + A("JUMPDEST")
                else:
                    dest = len(out) + 4 + len(body)
                    out += push(dest, 2) + A("JUMP") + body + A("JUMPDEST")
            else:
                out += s
        if end:
            out += self.g_stop(depth) if self.r.random() < 0.7 else b""
        return out


def initcode_small(run):
    run = run[:120]
    h = lambda n: A(len(run), push(n), 0, "CODECOPY", len(run), 0, "RETURN")
    return h(len(h(0))) + run


def random_scenario(name, fk, seed, weights=None, ntx=None, types=True, blk=None, gas=None):
    r = random.Random("%s/%s/%s" % (name, fk, seed))
    g = Gen(fk, r, weights)
    pre = [acct(key_addr(KEY1), 0, 100 * ETH), acct(key_addr(KEY2), 0, 100 * ETH), acct(EOA, 0, 77)]
    for c in CON:
        code = g.code(2, r.randint(2, 9))
        if fk >= PRAGUE and r.random() < 0.1:
            code = bytes.fromhex("ef0100" + g.address())
        pre.append(acct(c, 1 if r.random() < 0.8 else 0, r.choice([0, 1, 10, 10**6]), code or b"\0",
                        {k: r.choice([1, 2, 7]) for k in (0, 1, 2) if r.random() < 0.5}))
    txs = []
    nonce = {KEY1: 0, KEY2: 0}
    for i in range(ntx or r.randint(1, 3)):
        key = r.choice([KEY1, KEY1, KEY2])
        to = r.choice(CON + CON + [EOA, GHOST, "", addr(r.randint(1, 10))])
        data = bytes(r.choice([0, 1, 255, r.randrange(256)]) for _ in range(r.choice([0, 4, 32, 36, 70])))
        typ = 0
        if types:
            typ = r.choice([t for t, f in ((0, 0), (1, BERLIN), (2, LONDON), (4, PRAGUE)) if f <= fk])
        if to == "":
            data = g.code(2, r.randint(1, 5))
            if r.random() < 0.5:
                data = initcode_small(data)
            if typ == 4:
                typ = 2
        acc = []
        if typ and r.random() < 0.5:
            acc = [(g.address(), ["%064x" % g.key() for _ in range(r.randint(0, 2))]) for _ in range(r.randint(1, 3))]
        auths = []
        if typ == 4:
            for _ in range(r.randint(1, 3)):
                k3 = r.choice([KEY1, KEY2, KEY3])
                auths.append(sign_auth(r.choice([0, 1, 1, 2]), r.choice(CON + [addr(0), addr(4), EOA]),
                                       r.choice([0, 0, 1, nonce.get(k3, 0)]), k3))
        txs.append(tx(fk, key, to, r.choice([0, 0, 1, 100]), data, (gas or r.choice([60000, 100000, 200000, 400000])) + 53000 + 25000 * len(auths)
                      + 4400 * sum(1 + len(a[1]) for a in acc), nonce[key], typ, price=r.choice([10, 10, 7, 1000]),
                      prio=r.choice([0, 2, 7]), maxfee=r.choice([10, 1000]), access=acc, auths=auths))
        nonce[key] += 1
        for a in auths:
            pass
    return scenario(name, fk, pre, txs, blk)

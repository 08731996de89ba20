"""Functions of the code, sampled into rows <<operation, inputs, result>> for RowTrace.tla."""
import contextlib, inspect, json, os, random
from rec import *
from chain import header, header_list, TEXTS
import gen2
from gen2 import rich_tx, sig_variants, types_of


def err(e):
    return type(e).__name__


def row(op, args, f, errors=(EthereumException, RLPException)):
    """f() -> the result as a string"""
    try:
        res = f()
    except errors as e:
        res = "InvalidBlock" if err(e) == "InvalidBlock" else err(e)
    except Exception as e:   # noqa
        res = "crash " + err(e) + ": " + str(e)[:100]
    return [op, args, res]


def fn(module, name, n):
    """the function, or None if it is not there in the form we know"""
    f = getattr(module, name, None)
    try:
        if f is None or len(inspect.signature(f).parameters) != n:
            return None
    except (TypeError, ValueError):
        return None
    return f


def batch(name, fk, rows, size=200):
    return [dict(name="%s%d" % (name, i // size), fork=fk, rows=rows[i:i + size]) for i in range(0, len(rows), size)]


yes = lambda b: "true" if b else "false"


# ------------------------------------------------------------------ P31
def crit(c):
    from ethereum import fork_criteria as F
    return [F.ByBlockNumber, F.ByTimestamp, lambda v: F.Unscheduled()][c[0]](c[1])


def uncrit(c):
    return "%d:%s" % (c._internal[0], hx(c._internal[1])) if hasattr(c, "_internal") else kindof(c)


def kindof(c):
    n = type(c).__name__
    return "0:" + hx(c.block_number) if n == "ByBlockNumber" else "1:" + hx(c.timestamp) if n == "ByTimestamp" else "2:"


def show(f):
    return " %s:%s" % (f.short_name, kindof(f.criteria))


def jc(c):
    return [hx(c[0]), hx(c[1])]


def sched(r, n, small=True):
    """an ascending schedule of n criteria, the first of them block 0"""
    v = lambda: r.randrange(8) if small else r.choice([r.randrange(1 << 30), r.randrange(5), 1 << 40])
    cs = sorted([(r.choice([0, 0, 1, 1, 2]), v()) for _ in range(n - 1)])
    return [(0, 0)] + [(k, 0 if k == 2 else x) for k, x in cs]


def g_criteria(fk, r, n):
    """runs once (fork 0): criteria, schedules, the forks of the main network"""
    if fk:
        return []
    from ethereum_spec_tools.forks import Hardfork
    rows = []
    vals = [0, 1, 2, 255, 256, 15537394, 1681338455, (1 << 64) - 1, 1 << 64, (1 << 256) - 1]
    cs = [(0, v) for v in vals] + [(1, v) for v in vals] + [(2, 0)]
    for c in cs:
        for d in cs:
            def f():
                a, b = crit(c), crit(d)
                if a == b and hash(a) != hash(b):
                    return "hash"
                return " ".join(yes(x) for x in (a < b, a <= b, a == b, a != b, a >= b, a > b))
            rows.append(row("compare", jc(c) + jc(d), f))
    for c in cs:
        for num in sorted({0, 1, max(c[1] - 1, 0), c[1], c[1] + 1, 1 << 70}):
            for time in sorted({0, max(c[1] - 1, 0), c[1], min(c[1] + 1, (1 << 256) - 1), (1 << 256) - 1}):
                rows.append(row("met", jc(c) + [hx(num), hx(time)], lambda: yes(crit(c).check(Uint(num), U256(time)))))
    forks = Hardfork.discover()
    rows.append(row("discover", [], lambda: "".join(show(f) for f in Hardfork.discover())))
    rows.append(row("discover", [], lambda: "".join(" %s:%s" % (f.short_name, kindof(f.criteria)) for f in sorted(Hardfork.discover(), key=lambda f: f.criteria))))
    from ethereum_spec_tools.sync import ForkTracking
    edge = [0, 1] + [x for f in forks for x in ([int(f.block) - 1, int(f.block), int(f.block) + 1] if kindof(f.criteria)[0] == "0" and int(f.block) else [])]
    times = [0, 1] + [x for f in forks for x in ([int(f.timestamp) - 1, int(f.timestamp), int(f.timestamp) + 1] if kindof(f.criteria)[0] == "1" else [])] + [(1 << 256) - 1]
    for num in edge:
        rows.append(row("mainnet", [hx(num), ""], lambda: ForkTracking(forks, Uint(num), U256(0)).active_fork.short_name))
    for t in times:
        for num in (15537393, 15537394, 1 << 60):
            rows.append(row("mainnet", [hx(num), hx(t)], lambda: ForkTracking(forks, Uint(num), U256(t)).active_fork.short_name))
    rows += schedules(r, 60 * n)
    rows += loads(r, 12)
    return batch("criteria", fk, rows)


class FakeFork:
    def __init__(self, c):
        self.c = crit(c)

    def has_activated(self, *a):
        from ethereum_spec_tools.forks import Hardfork

        class M:
            FORK_CRITERIA = self.c
        return Hardfork(M).has_activated(*a)


def schedules(r, n):
    from ethereum_spec_tools.sync import ForkTracking
    rows = []
    for i in range(n):
        small = r.random() < .8
        s = sched(r, r.randint(1, 7), small)
        fs = [FakeFork(c) for c in s]
        num, time = (r.randrange(4), r.randrange(6)) if small else (r.choice([0, r.randrange(1 << 30)]), r.randrange(1 << 30))
        rows.append(row("active", [[jc(c) for c in s], hx(num), hx(time)], lambda: str(ForkTracking(fs, Uint(num), U256(time)).active_fork_index + 1)))
        times, t = [], time
        for q in range(r.randint(1, 10)):
            t += r.choice([1, 1, 2, 5]) if small else r.choice([1, 13, 1 << 29])
            times.append(t)

        def f():
            k = ForkTracking(fs, Uint(num), U256(time))
            o = ""
            for x in times:
                new = k.advance_block(U256(x))
                o += " %d%s" % (k.active_fork_index + 1, "+" if new else "")
            return o
        rows.append(row("follow", [[jc(c) for c in s], hx(num), hx(time), [hx(x) for x in times]], f))
    return rows


def loads(r, n):
    """Hardfork.load and load_from_json, which change the modules: in a process of its own"""
    jobs = []
    for i in range(n):
        k = r.randint(1, 7)
        cs = [(0, 0)] + r.sample([(0, v) for v in range(1, 9)] + [(1, v) for v in range(9)] + [(2, 0)], k - 1)
        names = r.sample(FORKS, k)
        z = list(zip(cs, names))
        r.shuffle(z)
        jobs.append(("load", z))
    keys = ["homesteadBlock", "eip150Block", "eip155Block", "byzantiumBlock", "constantinopleBlock", "istanbulBlock", "berlinBlock", "londonBlock",
            "mergeForkBlock"]
    names = ["homestead", "tangerine_whistle", "spurious_dragon", "byzantium", "constantinople", "istanbul", "berlin", "london", "paris"]
    for i in range(4):
        vs = sorted(r.sample(range(1, 100), len(keys)))
        t = r.randrange(200)
        jobs.append(("json", dict(zip(keys, vs), shanghaiTime=t), [((0, 0), "frontier")] + [((0, v), m) for v, m in zip(vs, names)] + [((1, t), "shanghai")]))
    rd, wr = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.write(wr, json.dumps([_load(j) for j in jobs]).encode())
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as fh:
        res = json.load(fh)
    os.waitpid(pid, 0)
    return [["load", [[jc(c) + [m] for c, m in (j[1] if j[0] == "load" else j[2])]], x] for j, x in zip(jobs, res)]


def _load(j):
    from ethereum_spec_tools.forks import Hardfork
    try:
        fs = Hardfork.load({crit(c): m for c, m in j[1]}) if j[0] == "load" else Hardfork.load_from_json(dict(config=j[1]))
        return "".join(show(f) for f in fs)
    except Exception as e:   # noqa
        return "crash " + err(e) + str(e)[:100]


# ------------------------------------------------------- functions of the parent
def g_basefee(fk, r, n):
    rows = []
    f = fn(mod(fk, "fork"), "calculate_base_fee_per_gas", 4)
    g = fn(mod(fk, "fork"), "check_gas_limit", 2)
    if g:
        for pl in (5000, 5001, 5003, 6144, 1024 * 1024, 30_000_000):
            for lim in (4998, 4999, 5000, 5001, pl, pl + pl // 1024, pl + pl // 1024 - 1, pl - pl // 1024, pl - pl // 1024 + 1):
                rows.append(row("gaslimit", [hx(lim), hx(pl)], lambda: yes(g(Uint(lim), Uint(pl)))))
    for q in range(n):
        pl = r.choice([5000, 5001, 6000, 10**6, 30_000_000, r.randrange(5000, 10**8), r.randrange(5000, 1 << 62)])
        d = pl // 1024
        lim = max(0, r.choice([pl, pl, pl, pl + d - 1, pl + d, pl - d + 1, pl - d, pl + 1, 4999, 5000]))
        if g:
            rows.append(row("gaslimit", [hx(lim), hx(pl)], lambda: yes(g(Uint(lim), Uint(pl)))))
        if f:
            t = pl // 2
            used = max(0, r.choice([0, t, t - 1, t + 1, pl, r.randrange(pl + 1), t + r.randrange(100), max(t - r.randrange(100), 0)]))
            fee = r.choice([0, 1, 6, 7, 8, 9, 15, 16, 1000, 10**9, r.randrange(10**11), r.randrange(1 << 80)])
            rows.append(row("basefee", [hx(lim), hx(pl), hx(used), hx(fee)], lambda: hx(f(Uint(lim), Uint(pl), Uint(used), Uint(fee)))))
    return batch("basefee", fk, rows)


def real_header(fk, h):
    return rlp.decode_to(mod(fk, "blocks").Header, rl(header_list(h)))


def g_blobgas(fk, r, n):
    if fk < CANCUN:
        return []
    rows = []
    G = mod(fk, "vm.gas")
    B = 131072
    ex, pr, tot, fee = fn(G, "calculate_excess_blob_gas", 1), fn(G, "calculate_blob_gas_price", 1), fn(G, "calculate_total_blob_gas", 1), fn(G, "calculate_data_fee", 2)
    tx = lambda t: mod(fk, "transactions").decode_transaction(block_tx(fk, t))
    for q in range(n):
        e = r.choice([0, 1, B, 3 * B, 6 * B, 9 * B, r.randrange(30) * B, r.randrange(1 << 22), r.randrange(1 << 27), r.randrange(1 << 28)])
        pfk = r.choice([fk, fk, fk, fk - 1])
        used = r.choice([0, B, 3 * B, 6 * B, 9 * B, r.randrange(10) * B])
        bf = r.choice([0, 1, 7, 16, 17, 1000, 10**9, r.randrange(10**9)])
        if r.random() < .3:                     # near the reserve price
            bf = max(0, int(G.calculate_blob_gas_price(U64(e + r.choice([0, 0, used])))) * 16 + r.choice([-1, 0, 1])) if pr else bf
        elif r.random() < .3 and fk >= OSAKA and pr:      # between the prices before and after the parent's blobs
            e, used = r.choice([r.randrange(1 << 26), 10**7, 5 * 10**7, 9 * B]), r.choice([6, 7, 8, 9]) * B
            bf = max(0, r.randint(int(G.calculate_blob_gas_price(U64(e))) * 16, int(G.calculate_blob_gas_price(U64(e + used))) * 16))
        if ex:
            # the two terms straddle the target
            if r.random() < .3:
                e = max(0, (3 if fk == CANCUN else 6) * B - used + r.choice([-1, 0, 1, -B, B]))
            h = header(pfk, excess=e, blobGas=used, baseFee=int(bf))
            if pfk != fk:
                h = dict(h, fk=pfk)
            rows.append(row("excess", [hx(pfk), hx(e), hx(used), hx(bf)], lambda: hx(ex(real_header(pfk, h)))))
        if pr:
            rows.append(row("blobprice", [hx(e)], lambda: hx(pr(U64(e)))))
        t = rich_tx(fk, r.choice(types_of(fk) + [3, 3]), r)
        if tot:
            rows.append(row("blobgas", [t], lambda: hx(tot(tx(t)))))
        if fee and t["type"] == 3:
            rows.append(row("datafee", [hx(e), t], lambda: hx(fee(U64(e), tx(t)))))
    return batch("blobgas", fk, rows)


def g_difficulty(fk, r, n):
    if fk >= PARIS:
        return []
    f = fn(mod(fk, "fork"), "calculate_block_difficulty", 4 if fk < BYZANTIUM else 5)
    if not f:
        return []
    rows = []
    delay = [0] * 5 + [3000000, 5000000, 5000000, 9000000, 9000000, 9700000, 10700000, 11400000]
    for q in range(n):
        num = r.choice([1, 2, 199999, 200000, 200001, 300000, delay[fk] + 100000 * r.randint(0, 6) + r.choice([-1, 0, 1]), delay[fk] + r.randrange(3000000),
                        r.randrange(20000000)])
        num = max(1, num)
        pt = r.choice([0, 1000, 1 << 32])
        dt = r.choice([1, 8, 9, 10, 12, 13, 14, 17, 18, 19, 20, 26, 27, 899, 900, 901, 989, 990, 991, 1000, 1009, 1010, 10**6, 1 << 40, r.randrange(1, 1200)])
        pd = r.choice([131072, 131073, 131136, 2048 * 70, 10**6, 17179869184, r.randrange(131072, 1 << 40), r.randrange(131072, 1 << 70)])
        un = r.random() < .5
        if q < 18:                     # where the bomb steps
            num = max(1, delay[fk] + 100000 * [2, 3, 7][q // 6] + [-1, 0, 1][q % 3])
            pd, un = r.choice([131072, 10**6]), q % 2 == 0
        a = [Uint(num), U256(pt + dt), U256(pt), Uint(pd)] + ([un] if fk >= BYZANTIUM else [])
        rows.append(row("difficulty", [hx(num), hx(pt + dt), hx(pt), hx(pd), yes(un)], lambda: hx(f(*a))))
    return batch("difficulty", fk, rows)


# ------------------------------------------------------------------ transactions
def decoded(fk, t):
    T = mod(fk, "transactions")
    b = block_tx(fk, t)
    return b if fk < BERLIN else T.decode_transaction(b)


def g_txs(fk, r, n):
    """sender, hash, encoding, intrinsic gas, static validity"""
    T = mod(fk, "transactions")
    rows = []
    rec_, ic, va, gh = fn(T, "recover_sender", 1 if fk < SPURIOUS else 2), fn(T, "calculate_intrinsic_cost", 1), fn(T, "validate_transaction", 1), fn(T, "get_transaction_hash", 1)
    for q in range(n):
        for typ in types_of(fk):
            cid = r.choice([1, 1, 1, 5, 1337, (1 << 64) - 40 if typ else 1 << 60])
            t = rich_tx(fk, typ, r, chain=cid, creation=r.random() < .2)
            vs = sig_variants(fk, t, r)
            for nm, t2 in [vs[0]] + r.sample(vs, min(6, len(vs))):
                if fk < SPURIOUS and r.random() < .5:
                    cid = 1
                c2 = r.choice([cid, cid, cid, cid + 1, 1])
                try:
                    x = decoded(fk, t2)
                except Exception:   # noqa
                    continue                     # not a transaction of the fork: P14
                if rec_:
                    a = ([] if fk < SPURIOUS else [U64(c2)]) + [x]
                    o = row("sender", [hx(c2), t2], lambda: bytes(rec_(*a)).hex())
                    if o[2] in ("InvalidSignatureError", "InvalidBlock", "InvalidTransaction"):
                        o[2] = ""
                    rows.append(o)
                if gh and r.random() < .4:
                    rows.append(row("txhash", [t2], lambda: bytes(gh(block_tx(fk, t2))).hex()))
                if r.random() < .4 and fk >= BERLIN:
                    rows.append(row("encode", [t2], lambda: enc_receipt(fk, T.encode_transaction(x)).hex()))
            big = dict(t, data=bytes(r.choice([0, 0, 1, 255]) for _ in range(r.choice([0, 1, 31, 32, 33, 700, 3000]))).hex())
            if ic:
                def f():
                    v = ic(decoded(fk, big))
                    return "%d %d" % (v if isinstance(v, tuple) else (v, 0))
                rows.append(row("intrinsic", [big], f))
            if va:
                ic0 = max(gen2.intrinsic(fk, big))
                c = dict(big, gas=hx(max(0, r.choice([ic0 - 1, ic0, ic0 + 1, 2 * ic0, (1 << 24), (1 << 24) + 1]))))
                if r.random() < .2:
                    c["nonce"] = hx(r.choice([(1 << 64) - 2, (1 << 64) - 1, 1 << 64]) if typ != 4 else (1 << 64) - r.choice([1, 2]))
                if r.random() < .2 and typ < 3:
                    c["to"], c["data"], c["gas"] = "", "00" * r.choice([49151, 49152, 49153]), hx(4000000)

                def f():
                    va(decoded(fk, c))
                    return "true"
                o = row("valid", [c], f)
                if not o[2].startswith("crash") and o[2] != "true":
                    o[2] = "false"
                rows.append(o)
    return batch("txs", fk, rows)


def g_auths(fk, r, n):
    if fk < PRAGUE:
        return []
    f = fn(mod(fk, "vm.eoa_delegation"), "recover_authority", 1)
    A = getattr(mod(fk, "fork_types"), "Authorization", None)
    if not f or not A:
        return []
    rows = []
    for q in range(n):
        cid, nonce, addr = r.choice([0, 1, 5, 1 << 200]), r.choice([0, 1, 127, 128, 1 << 40, (1 << 64) - 1]), "%040x" % r.choice([0, 1, r.getrandbits(160)])
        a = sign_auth(cid, addr, nonce, r.choice([gen2.KEY1, 3, SECP_N - 1]))
        v, x, s = unint(a["v"]), unint(a["r"]), unint(a["s"])
        for v, x, s in ((v, x, s), (1 - v, x, s), (2, x, s), (v, 0, s), (v, x, 0), (v, SECP_N, s), (v, SECP_N - 1, s), (v, x, SECP_N - s), (1 - v, x, SECP_N - s), (v, x, SECP_N // 2), (v, x, SECP_N // 2 + 1),
                        (27 + v, x, s), (255, x, s)):
            from ethereum_types.numeric import U8

            def g():
                return bytes(f(A(chain_id=U256(cid), address=mod(fk, "fork_types").Address(unhex(addr)), nonce=U64(nonce), y_parity=U8(v), r=U256(x), s=U256(s)))).hex()
            o = row("authority", [hx(cid), addr, hx(nonce), hx(v), hx(x), hx(s)], g)
            if o[2] == "InvalidSignatureError":
                o[2] = ""
            rows.append(o)
    return batch("auths", fk, rows)


def g_addresses(fk, r, n):
    U = mod(fk, "utils.address")
    f, g = fn(U, "compute_contract_address", 2), fn(U, "compute_create2_contract_address", 3)
    ft = mod(fk, "fork_types")
    rows = []
    for q in range(n):
        a = "%040x" % r.choice([0, 1, r.getrandbits(160)])
        k = r.choice([0, 1, 127, 128, 255, 256, 65535, 65536, (1 << 64) - 2, r.getrandbits(40)])
        if f:
            rows.append(row("create", [a, hx(k)], lambda: bytes(f(ft.Address(unhex(a)), Uint(k))).hex()))
        if g:
            salt, code = "%064x" % r.choice([0, 1, r.getrandbits(256)]), bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 32, 135, 136, 137, 300]))).hex()
            rows.append(row("create2", [a, salt, code], lambda: bytes(g(ft.Address(unhex(a)), Bytes32(unhex(salt)), bytearray(unhex(code)))).hex()))
    return batch("addresses", fk, rows)


def g_blooms(fk, r, n):
    f = fn(mod(fk, "bloom"), "logs_bloom", 1)
    L = mod(fk, "blocks").Log
    ft = mod(fk, "fork_types")
    rows = []
    for q in range(n):
        logs = [["%040x" % r.choice([0, r.getrandbits(160)]), ["%064x" % r.choice([0, 1, r.getrandbits(256)]) for _ in range(r.randint(0, 4))], "00" * r.choice([0, 3])] for _ in range(r.choice([0, 1, 2, 7]))]
        rows.append(row("bloom", [logs], lambda: bytes(f(tuple(L(address=ft.Address(unhex(a)), topics=tuple(Bytes32(unhex(t)) for t in ts), data=Bytes(unhex(d))) for a, ts, d in logs))).hex()))
    return batch("blooms", fk, rows) if f else []


def g_requests(fk, r, n):
    if fk < PRAGUE:
        return []
    M = mod(fk, "requests")
    f, g = fn(M, "compute_requests_hash", 1), fn(M, "extract_deposit_data", 1)
    rows = []
    for q in range(n):
        rs = [bytes([r.randrange(4)] + [r.getrandbits(8) for _ in range(r.choice([0, 1, 76, 192]))]).hex() for _ in range(r.randint(0, 4))]
        if f:
            rows.append(row("requests", [rs], lambda: bytes(f([Bytes(unhex(x)) for x in rs])).hex()))
        d = bytearray(gen2.deposit_data(r))
        k = r.random()
        if k < .5:
            i = r.choice([31, 63, 95, 127, 159, 191, 287, 351, 415, 543])
            d[i] = (d[i] + r.choice([1, 255, 32])) % 256
        elif k < .6:
            d[32 * r.choice([0, 1, 2, 3, 4, 5, 8, 10, 12, 16]) + r.randrange(31)] ^= r.choice([1, 128])
        elif k < .7:
            d = d[:-r.choice([1, 32])] if r.random() < .5 else d + bytes(r.choice([1, 32]))
        if g:
            rows.append(row("deposit", [bytes(d).hex()], lambda: bytes(g(Bytes(d))).hex()))
    return batch("requests", fk, rows)


def g_headers(fk, r, n):
    """the encodings a header is known by"""
    rows = []
    F = mod(fk, "fork")
    seal = fn(F, "generate_header_hash_for_pow", 1)
    for q in range(n):
        h = rand_header(fk, r)
        if fk < PARIS and seal:
            rows.append(row("sealhash", [h], lambda: bytes(seal(real_header(fk, h))).hex()))
        rows.append(row("headerhash", [h], lambda: keccak(rlp.encode(real_header(fk, h))).hex()))
    return batch("headers", fk, rows)


def g_blocksize(fk, r, n):
    """blocks just below and just above the largest size"""
    if fk < OSAKA:
        return []
    import chain as C
    rows = []
    key = gen2.KEY1
    limit = 10485760 - 2097152
    for q in range(n):
        p = header(fk, gasLimit=hx(120000000), gasUsed=hx(60000000), number=hx(r.choice([100, 20000000])), extra="")
        pre = gen2.eoas(10**26) + gen2.system_accounts(fk, dict(beacon=gen2.STORE_INPUT, history=gen2.STORE_INPUT))
        c = C.Chain(fk, pre, [dict(h=p, ommers=[])])
        ws = [dict(index=hx(k), validator=hx(k), addr=gen2.X[9], amount=hx(1)) for k in range(r.randint(0, 3))]
        fixed = dict(gas=16777216, price=unint(p["baseFee"]) + 1, prio=0, maxfee=unint(p["baseFee"]) + 1)
        kinds = [r.choice([0, 1, 2]) for _ in range(6)]
        big = [r.randint(1400000, 1450000) for _ in range(5)]

        def build(sizes, extra):
            ts = []
            for k, z in enumerate(sizes):
                kw = gen2.type_args(fk, kinds[k], random.Random(k), gen2.X[9])
                kw["data"] = bytes(z)
                ts.append(gen2.tx(fk, key, nonce=k, **dict(fixed, **kw)))
            h = dict(C.follow(fk, p, 12), extra=extra)
            return h, ts
        for extra in ("", "ab" * 32):
            h, ts = build(big + [1300000], extra)
            z = 1300000 + limit - len(C.block_bytes(fk, c.finish(h, ts, [], ws), ts, [], ws))
            for d in (-1, 0, 1, 2, 3) if extra else (0, 1):
                h, ts = build(big + [z + d], extra)
                g = c.finish(h, ts, [], ws)
                lens = [hx(len(unhex(t["data"]))) for t in ts]
                o = c.block(g, ts, [], ws, probe=True)["exp"]
                rows.append(["blocksize", [g, [dict(t, data="") for t in ts], lens, ws], "false" if o["bad"] == "InvalidBlock" else o["bad"] or o["crash"] or "true"])
    return batch("blocksize", fk, rows)


def rand_header(fk, r):
    h = header(fk)
    for k in list(h):
        if k in TEXTS and k not in ("extra",):
            h[k] = "%0*x" % (len(h[k]), r.getrandbits(4 * len(h[k])))
    h["extra"] = "ab" * r.choice([0, 1, 13, 32])
    for k in ("difficulty", "number", "gasLimit", "gasUsed", "time", "baseFee"):
        h[k] = hx(r.choice([0, 1, 127, 128, r.getrandbits(40)]))
    for k in ("blobGas", "excess"):
        h[k] = hx(r.choice([0, 131072]))
    return h


# ------------------------------------------------------------------ P35
@contextlib.contextmanager
def small_ethash(cache_lines, data_lines):
    """a proof of work with a cache and a dataset of about this many lines"""
    from ethereum import ethash as E
    old = {k: getattr(E, k) for k in ("INITIAL_CACHE_SIZE", "INITIAL_DATASET_SIZE", "CACHE_EPOCH_GROWTH_SIZE", "DATASET_EPOCH_GROWTH_SIZE")}
    E.INITIAL_CACHE_SIZE, E.INITIAL_DATASET_SIZE = Uint(64 * (cache_lines + 1)), Uint(128 * (data_lines + 1))
    E.CACHE_EPOCH_GROWTH_SIZE, E.DATASET_EPOCH_GROWTH_SIZE = Uint(0), Uint(0)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(E, k, v)


PRIMES = [11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101]


def flat(cache):
    return b"".join(int(x).to_bytes(4, "little") for l in cache for x in l)


def g_ethash(fk, r, n):
    """runs on few forks only: the functions are shared"""
    if fk > 3:
        return []
    from ethereum import ethash as E
    from ethereum_types.numeric import U32
    from ethereum.utils import numeric as nu
    rows = []
    for q in range(10 * n):
        num = r.choice([0, 1, 29999, 30000, 30001, 59999, 60000, r.randrange(20000000), 30000 * r.randrange(600) + r.choice([0, 29999])])
        rows.append(row("epoch", [hx(num)], lambda: hx(E.epoch(Uint(num)))))
        a, b = [r.choice([0, 1, 0xFFFFFFFF, 0x80000000, r.getrandbits(32)]) for _ in range(2)]
        rows.append(row("fnv", [a.to_bytes(4, "little").hex(), b.to_bytes(4, "little").hex()], lambda: int(E.fnv(U32(a), U32(b))).to_bytes(4, "little").hex()))
    for q in range(n):
        ep = r.choice([0, 1, 2, 100, 500, r.randrange(2048)])
        num = 30000 * ep + r.randrange(30000)

        def size(f, unit):
            v = int(f(Uint(num)))
            return "%d" % (v // unit) if v % unit == 0 else "not a multiple"
        rows.append(row("cachelines", [hx(ep)], lambda: size(E.cache_size, 64)))
        rows.append(row("datalines", [hx(ep)], lambda: size(E.dataset_size, 128)))
        ep = r.choice([0, 1, 2, 7, 40])
        num = 30000 * ep + r.choice([0, 29999])
        rows.append(row("seed", [hx(ep)], lambda: bytes(E.generate_seed(Uint(num))).hex()))
    out = batch("ethash", fk, rows)
    rows = []
    lines, dl = r.choice(PRIMES), r.choice(PRIMES)
    with small_ethash(lines, dl):
        ep = r.choice([0, 1, 3])
        num = Uint(30000 * ep + r.choice([0, 29999]))
        cache = []

        def f():
            cache.append(E.generate_cache(num))
            return keccak(flat(cache[0])).hex()
        rows.append(row("cache", [hx(lines), hx(ep)], f))
        if cache:
            c = cache[0]
            for q in range(n):
                i = r.choice([0, 1, lines - 1, lines, 2 * lines + 3, 256, r.randrange(1 << 23), (1 << 28)])
                rows.append(row("item", [hx(lines), hx(ep), hx(i)], lambda: bytes(E.generate_dataset_item(c, Uint(i))).hex()))
            for q in range(2):
                hh, nonce = keccak(bytes([q, r.randrange(256)])).hex(), "%016x" % r.getrandbits(64)
                size = 128 * r.choice([dl, 1, 2, 65537, 8388593])

                def f():
                    m, x = E.hashimoto_light(Bytes32(unhex(hh)), Bytes8(unhex(nonce)), c, Uint(size))
                    return bytes(m).hex() + " " + bytes(x).hex()
                rows.append(row("hashimoto", [hx(lines), hx(ep), hx(size), hh, nonce], f))
    return out + [dict(name="ethash_small", fork=fk, rows=rows)]


def g_pow(fk, r, n):
    """the acceptance of headers, on a small cache and dataset"""
    if fk >= PARIS:
        return []
    from ethereum import ethash as E
    F = mod(fk, "fork")
    v = fn(F, "validate_proof_of_work", 1)
    if not v:
        return []
    rows = []
    lines, dl = r.choice(PRIMES), r.choice(PRIMES)

    def ok(h):
        try:
            v(real_header(fk, h))
            return "true"
        except EthereumException as e:
            return "false" if err(e) == "InvalidBlock" else err(e)
        except Exception as e:   # noqa
            return "crash " + err(e) + str(e)[:80]
    with small_ethash(lines, dl):
        ep = r.choice([0, 1, 2])
        h = rand_header(fk, r)
        h["number"] = hx(30000 * ep + r.choice([0, 7, 29999]))
        h["difficulty"] = hx(r.choice([1, 1, 2, 3]))
        args = lambda x: [hx(lines), hx(ep), hx(128 * dl), x]
        seal = fn(F, "generate_header_hash_for_pow", 1)
        if not seal:
            return []
        c = E.generate_cache(Uint(unint(h["number"])))
        good = None
        for q in range(4):
            h["nonce"] = "%016x" % r.getrandbits(64)
            m, x = E.hashimoto_light(seal(real_header(fk, h)), Bytes8(unhex(h["nonce"])), c, Uint(128 * dl))
            h["mix"] = bytes(m).hex()
            o = ok(h)
            rows.append(["pow", args(dict(h)), o])
            if int.from_bytes(x, "big") <= (1 << 256) // unint(h["difficulty"]):
                break
        # other contents under the same nonce and mix digest
        fields = ["parent", "stateRoot", "number", "time", "nonce", "mix", "extra", "difficulty", "gasUsed", "ommersHash", "bloom", "coinbase", "txRoot", "receiptRoot", "gasLimit"]
        if fk >= LONDON:
            fields.append("baseFee")
        for k in r.sample(fields, 2 + n):
            g = dict(h)
            if k == "number":
                g[k] = hx(unint(g[k]) ^ 1)
                if unint(g[k]) // 30000 != ep:
                    continue
            elif k in TEXTS:
                g[k] = (g[k][:-2] + ("00" if g[k][-2:] != "00" else "01")) if g[k] else "aa"
            else:
                g[k] = hx(unint(g[k]) + 1)
            rows.append(["pow", args(g), ok(g)])
    # the limit itself, with a stand-in for the hash
    called = []
    mixb, res = [keccak(b"mix")], [None]

    def stand_in(*a, **k):
        called.append(a)
        return mixb[0], Bytes32(res[0].to_bytes(32, "big"))
    olds = [(m, getattr(m, "hashimoto_light")) for m in (F, E) if hasattr(m, "hashimoto_light")]
    oldc = [(m, getattr(m, "generate_cache")) for m in (F, E) if hasattr(m, "generate_cache")]
    try:
        for m, _ in olds:
            m.hashimoto_light = stand_in
        for m, _ in oldc:
            m.generate_cache = lambda n: ((0,) * 16,)
        for q in range(8):
            d = r.choice([2, 3, 131072, 17179869184, r.randrange(2, 1 << 60)])
            lim = (1 << 256) // d
            for x in (lim - 1, lim, lim + 1, 0, (1 << 256) - 1):
                for mm in ([mixb[0]] * 3 + [keccak(b"other")])[:4]:
                    res[0] = x
                    h = dict(header(fk), difficulty=hx(d), mix=mm.hex())
                    called.clear()
                    o = ok(h)
                    if called:
                        rows.append(["powlimit", [mixb[0].hex(), "%064x" % x, mm.hex(), hx(d)], o])
    finally:
        for m, f in olds:
            m.hashimoto_light = f
        for m, f in oldc:
            m.generate_cache = f
    return [dict(name="pow", fork=fk, rows=rows)]

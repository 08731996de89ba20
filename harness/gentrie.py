"""Recorder and generator for histories of trie operations."""
from rec import *
import genstate as G


def keyset(r):
    kind = r.choice(["rlp", "fixed", "prefix", "mixed", "deep"])
    if kind == "rlp":
        return [rl(i) for i in r.choice([range(3), range(20), range(120, 136), range(250, 262), [0, 127, 128, 255, 256, 65535, 65536]])]
    if kind == "fixed":
        n = r.choice([1, 2, 20, 32])
        return list({bytes(r.choice([0, 0, 1, 15, 16, 255, r.randrange(256)]) for _ in range(n)) for _ in range(r.choice([2, 5, 17, 40]))})
    if kind == "deep" and r.random() < .4:      # keys of 20 to 33 bytes which part at the very end
        p = bytes(r.randrange(256) for _ in range(r.choice([19, 31, 32])))
        return [p[:-1] + bytes([x, y]) for x in (p[-1], p[-1] ^ 1, p[-1] ^ 16) for y in (0, 1, 16, 255)] + [p[:4] + bytes(len(p) - 3)]
    if kind == "deep":
        p = bytes(r.randrange(256) for _ in range(r.choice([1, 5, 30])))
        return [p + bytes([x]) for x in r.sample(range(256), r.choice([2, 3, 18]))] + [bytes([p[0] ^ 1]) + p, bytes([p[0] ^ 16]) + p]
    if kind == "prefix":
        p = bytes(r.randrange(256) for _ in range(6))
        return [p[:i] for i in range(7)] + [p[:3] + b"\x00", p[:3] + b"\x10\x20", p[:2] + bytes([p[2] ^ 1])]
    return [bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3]))) for _ in range(12)] + [b"\x00", b"\x00\x00", b""]


def value(r):
    k = r.choice([1, 1, 2, 5, 20, 28, 29, 30, 31, 32, 33, 55, 56, 100])
    return bytes(r.choice([0, 1, 0x7F, 0x80, 0xFF, r.randrange(256)]) for _ in range(k))


def g_trie(fk, r, n):
    T = mod(fk, "trie")
    out = []
    for i in range(n):
        secured = r.random() < .35
        default = r.choice([None, b""])
        f = T.Trie(secured=secured, default=default)
        g = T.Trie(secured=secured, default=default)
        keys = keyset(r)
        ops = []
        vals = [value(r) for _ in range(4)]
        for q in range(r.choice([5, 15, 15, 50])):
            op = r.choices(["set", "get", "root", "copy", "swap"], [10, 2, 2, .7, .7])[0]
            k, v, res = b"", b"", ""
            try:
                if op == "set":
                    k = r.choice(keys)
                    v = b"" if r.random() < .3 else r.choice(vals) if r.random() < .6 else value(r)
                    T.trie_set(f, Bytes(k), default if v == b"" else Bytes(v))
                elif op == "get":
                    k = r.choice(keys)
                    x = T.trie_get(f, Bytes(k))
                    res = "absent" if x is None and default is not None else "" if x is None else bytes(x).hex()
                elif op == "root":
                    res = bytes(T.root(f)).hex()
                elif op == "copy":
                    g = T.copy_trie(f)
                else:
                    f, g = g, f
            except Exception as e:   # noqa
                res = type(e).__name__
            ops.append([op, k.hex(), v.hex(), res])
        for op in ("root", "swap", "root"):
            res = ""
            try:
                if op == "swap":
                    f, g = g, f
                else:
                    res = bytes(T.root(f)).hex()
            except Exception as e:   # noqa
                res = type(e).__name__
            ops.append([op, "", "", res])
        out.append(dict(name="trie%d" % i, fork=fk, secured=secured, ops=ops))
    return out


def g_order(fk, r, n):
    """the same content reached in several ways; large contents"""
    T = mod(fk, "trie")
    out = []
    for i in range(n):
        secured = r.random() < .5
        keys = list({k for _ in range(3) for k in keyset(r)})
        kv = {k: value(r) for k in keys}
        ops = []
        for way in range(3):
            f = T.Trie(secured=secured, default=b"")
            ks = list(kv)
            r.shuffle(ks)
            seq = [(k, kv[k]) for k in ks]
            if way:
                for _ in range(len(seq) // 2):           # detours
                    k = r.choice(keys)
                    j = next(x for x in range(len(seq)) if seq[x][0] == k)
                    seq.insert(r.randint(0, j), (k, r.choice([b"", value(r)])))
            for k, v in seq:
                T.trie_set(f, Bytes(k), Bytes(v))
                if way == 0:
                    ops.append(["set", k.hex(), v.hex(), ""])
            try:
                ops.append(["root", "", "", bytes(T.root(f)).hex()])
            except Exception as e:   # noqa
                ops.append(["root", "", "", type(e).__name__])
        out.append(dict(name="order%d" % i, fork=fk, secured=secured, ops=ops))
    return out


def g_worlds(fk, r, n):
    """many accounts with storage: state and storage roots"""
    out = []
    O = G.O
    for i in range(n):
        st = G.Store(fk)
        ops = []
        as_ = ["%040x" % r.getrandbits(160) for _ in range(r.choice([1, 2, 3, 17, 40]))]
        todo = []
        for a in as_:
            rr = [hx(r.choice([0, 1, 127, 128, 256, 2**56])), hx(r.choice([0, 1, 127, 128, r.getrandbits(70)])), r.choice(["", "", "00", "60" * 33])]
            todo.append(O("setAccount", a, r=rr))
            for q in range(r.choice([0, 0, 1, 2, 5])):
                todo.append(O("setStorage", a, k=hx(r.choice([0, 1, 2, 2**255, r.getrandbits(256)])), v=hx(r.choice([0, 1, 127, 128, 255, 256, r.getrandbits(256)]))))
            if r.random() < .3:
                todo.append(O("setStorage", a, k=hx(q), v=""))
            if r.random() < .15:
                todo.append(O("destroyStorage", a))
            if r.random() < .15:
                todo.append(O("destroyAccount", a))
        for o in todo:
            ops.append(st.run(o))
        ops.append(st.run(O("stateRoot")))
        for a in as_[:5]:
            ops.append(st.run(O("storageRoot", a)))
        # one thing changes, and changes back
        a = as_[0]
        for o in (O("setAccount", a, r=("05", "09", "")), O("stateRoot"), O("setStorage", a, k="07", v="01"), O("stateRoot"), O("setStorage", a, k="07", v="02"),
                  O("stateRoot"), O("setStorage", a, k="07", v=""), O("stateRoot"), O("setCode", a, v="01"), O("stateRoot"), O("setBalance", a, v="0a"), O("stateRoot"),
                  O("incNonce", a), O("stateRoot"), O("destroyAccount", a), O("stateRoot")):
            ops.append(st.run(o))
        out.append(dict(name="worlds%d" % i, fork=fk, ops=ops))
    return out

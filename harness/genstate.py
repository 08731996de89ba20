"""Recorder and generator for histories of state operations."""
import random
from rec import *

ADDRS = ["00" * 19 + "aa", "00" * 19 + "bb", "ff" * 20, "12" * 20]
KEYS = ["", "01", "80" + "00" * 31]
VALS = ["", "01", "02", "ff" * 32, "80", "0100"]


def opt_patch(fk):
    """replace the fork's store by the database-backed one; returns the undo"""
    from ethereum_optimized.state_db import get_optimized_state_patches
    m = mod(fk, "state")
    ps = get_optimized_state_patches(FORKS[fk])
    old = {k: getattr(m, k) for k in ps if hasattr(m, k)}
    for k, v in ps.items():
        setattr(m, k, v)

    def undo():
        for k in ps:
            if k in old:
                setattr(m, k, old[k])
            else:
                delattr(m, k)
    return undo


class Store:
    def __init__(self, fk, opt=False):
        self.fk, self.opt = fk, opt
        self.m, self.ft = mod(fk, "state"), mod(fk, "fork_types")
        self.s = self.m.State()
        self.t = self.m.TransientStorage() if fk >= CANCUN else None

    def close(self):
        self.m.close_state(self.s)

    def addr(self, a):
        return self.ft.Address(unhex(a))

    def key(self, k):
        return Bytes32(unint(k).to_bytes(32, "big"))

    def show(self, acc):
        return [hx(acc.nonce), hx(acc.balance), bytes(acc.code).hex()]

    def do(self, o):
        """perform an operation; the result as the specification shows it"""
        m, s, fk = self.m, self.s, self.fk
        op, a, b, k = o["op"], self.addr(o["a"]), self.addr(o["b"]), self.key(o["k"])
        v = U256(unint(o["v"])) if op != "setCode" else o["v"]
        tr = (s, self.t) if fk >= CANCUN else (s,)
        B = lambda x: ["true" if x else "false"]
        acct = lambda r: self.ft.Account(nonce=Uint(unint(r[0])), balance=U256(unint(r[1])), code=Bytes(unhex(r[2])))
        if op == "begin":
            m.begin_transaction(*tr)
        elif op == "commit":
            m.commit_transaction(*tr)
        elif op == "rollback":
            m.rollback_transaction(*tr)
        elif op == "setAccount":
            m.set_account(s, a, acct(o["r"]))
        elif op == "dropAccount":
            m.set_account(s, a, None)
        elif op == "destroyAccount":
            m.destroy_account(s, a)
        elif op == "destroyStorage":
            m.destroy_storage(s, a)
        elif op == "created":
            m.mark_account_created(s, a)
        elif op == "setStorage":
            m.set_storage(s, a, k, v)
        elif op == "getStorage":
            return [hx(m.get_storage(s, a, k))]
        elif op == "original":
            return [hx(m.get_storage_original(s, a, k))]
        elif op == "setTransient":
            m.set_transient_storage(self.t, a, k, v)
        elif op == "getTransient":
            return [hx(m.get_transient_storage(self.t, a, k))]
        elif op == "getAccount":
            return self.show(m.get_account(s, a))
        elif op == "exists":
            return B(m.account_exists(s, a))
        elif op == "hasCodeOrNonce":
            return B(m.account_has_code_or_nonce(s, a))
        elif op == "hasStorage":
            return B(m.account_has_storage(s, a))
        elif op == "existsEmpty":
            return B(m.account_exists_and_is_empty(s, a))
        elif op == "alive":
            return B(m.is_account_alive(s, a))
        elif op == "move":
            m.move_ether(s, a, b, v)
        elif op == "setBalance":
            m.set_account_balance(s, a, v)
        elif op == "createEther":
            m.create_ether(s, a, v)
        elif op == "incNonce":
            m.increment_nonce(s, a)
        elif op == "setCode":
            m.set_code(s, a, Bytes(unhex(o["v"])))
        elif op == "touch":
            m.touch_account(s, a)
        elif op == "dropEmpty":
            m.destroy_touched_empty_accounts(s, [self.addr(x) for x in o["as"]])
        elif op == "storageRoot":
            return [bytes(m.storage_root(s, a)).hex()]
        elif op == "stateRoot":
            return [bytes(m.state_root(s)).hex()]
        elif op == "all":
            return self.all(o["as"], o["ks"], o["deep"])
        elif op == "save":
            if self.opt:
                m.commit_db_transaction(s)
                m.begin_db_transaction(s)
        elif op == "restore":
            m.rollback_db_transaction(s)
            m.begin_db_transaction(s)
        else:
            raise KeyError(op)
        return []

    def all(self, as_, ks, deep):
        m, s, fk = self.m, self.s, self.fk
        out = []
        for x in as_:
            a = self.addr(x)
            acc = m.get_account_optional(s, a)
            out.append([[] if acc is None else self.show(acc),
                        [hx(m.get_storage(s, a, self.key(k))) for k in ks],
                        [hx(m.get_storage_original(s, a, self.key(k))) for k in ks] if fk >= ISTANBUL and deep else [],
                        [hx(m.get_transient_storage(self.t, a, self.key(k))) for k in ks] if fk >= CANCUN else []])
        return out

    def run(self, o):
        try:
            o["res"] = self.do(o)
        except Exception as e:   # noqa
            o["res"] = [type(e).__name__]
        return o


def O(op, a=ADDRS[0], b=ADDRS[0], k="", v="", r=("", "", ""), as_=(), ks=(), deep=False):
    return dict(op=op, a=a, b=b, k=k, v=v, r=list(r), ks=list(ks), deep=deep, **{"as": list(as_)})


def history(fk, r, n, opt=False, look="some"):
    """a random history; the choice of operations follows a small abstract of
    the store: which accounts exist (worlds), and what the database cannot do"""
    st = Store(fk, opt)
    ops = []
    stack, rooted = [], False
    zeroed, stored = set(), set()        # written to zero / written since the last flush (database only)
    addrs = r.sample(ADDRS, r.choice([1, 2, 3]))
    keys = r.sample(KEYS, r.choice([1, 2, 3]))
    # what the plain map holds is tracked to know the balances
    bal = lambda a: unint(st.show(st.m.get_account(st.s, st.addr(a)))[1])

    def do(o):
        st.run(o)
        ops.append(o)
        return o["res"]

    def exists(a):
        return st.m.account_exists(st.s, st.addr(a))
    depth_bias = r.choice([.3, .5, .7])
    w = {"begin": 4, "commit": 2, "rollback": 3, "setAccount": 2, "destroyAccount": 1.5, "destroyStorage": 2, "created": 1, "setStorage": 8, "getStorage": 1,
         "original": 2, "setTransient": 3, "getTransient": 1, "getAccount": .5, "exists": .5, "hasCodeOrNonce": .3, "hasStorage": .7, "existsEmpty": .5,
         "alive": .5, "move": 2, "setBalance": 1, "createEther": .5, "incNonce": 1, "setCode": 1, "touch": .5, "dropEmpty": .7, "storageRoot": .4,
         "stateRoot": .4, "save": .4, "restore": .4, "dropAccount": .4, "all": {"always": 0, "some": 2, "never": .1}[look]}
    if r.random() < .4:
        for x in r.sample(sorted(w), 6):
            w[x] *= 4
    off = set()
    if fk < ISTANBUL:
        off |= {"original", "created"}
    if fk < CANCUN:
        off |= {"setTransient", "getTransient"}
    if fk >= PARIS:
        off |= {"touch", "createEther", "dropEmpty"}
    if fk < SPURIOUS:
        off |= {"dropEmpty", "existsEmpty", "alive"}
    if not opt:
        off |= {"restore"}
    names = [x for x in sorted(w) if x not in off]
    while len(ops) < n:
        if not stack and fk >= ISTANBUL and r.random() < .04:      # the memory of a creation ends with the transaction
            a, k = r.choice(addrs), r.choice(keys)
            nest = r.choice([0, 0, 1])
            seq = [O("setAccount", a, r=("01", "", "")), O("setStorage", a, k=k, v=r.choice(VALS[1:]))] + [O("begin")] * (1 + nest) + \
                [O("created", a), O("original", a, k=k)] + [O(r.choice(["commit", "rollback"])) for _ in range(1 + nest)] + \
                [O("begin"), O("original", a, k=k), O(r.choice(["commit", "rollback"]))]
            stored.add(a)
            for o in seq:
                do(dict(o))
            continue
        if not stack and fk >= ISTANBUL and r.random() < .03:      # so do the memories of several
            seq = [O("setAccount", a, r=("01", "", "")) for a in ADDRS] + [O("setStorage", a, k=keys[0], v=r.choice(VALS[1:])) for a in ADDRS] + \
                [O("begin")] + [O("created", a) for a in ADDRS] + [O("original", r.choice(ADDRS), k=keys[0]), O(r.choice(["commit", "rollback"])), O("begin")] + \
                [O("original", a, k=keys[0]) for a in ADDRS] + [O(r.choice(["commit", "rollback"]))]
            stored.update(ADDRS)
            for o in seq:
                do(dict(o))
            continue
        op = r.choices(names, [w[x] for x in names])[0]
        a, b, k = r.choice(addrs), r.choice(addrs), r.choice(keys)
        if op in ("commit", "rollback", "original") and not stack:
            op = "begin"
        if op in ("stateRoot", "storageRoot", "save", "restore") and stack:
            continue
        if op == "begin" and len(stack) > 5:
            continue
        if op == "restore" and rooted:
            continue                        # the database library does not undo what it has hashed
        o = O(op, a, b, k)
        if op == "setStorage":
            if not exists(a):
                o = O("setAccount", a, r=("01", "", ""))
            else:
                o["v"] = r.choice(VALS)
        if op == "setTransient":
            o["v"] = r.choice(VALS)
        if op == "setAccount":
            o["r"] = [r.choice(["", "", "01", "ff" * 7]), r.choice(["", "", "05", "ff" * 16]), r.choice(["", "", "00", "60" * 40])]
        if op == "dropAccount" and opt and a in stored:
            continue                        # to remove an account with storage is what destroy_account is for
        if op == "move":
            o["v"] = hx(r.choice([0, 1, bal(a), bal(a), bal(a) + 1, bal(a) // 2]))
            if bal(a) + 1 == unint(o["v"]) and r.random() < .8:
                continue
        if op in ("setBalance", "createEther"):
            o["v"] = r.choice(["", "", "01", "05"])
        if op == "setCode":
            o["v"] = r.choice(["", "00", "60" * 40])
        if op == "dropEmpty":
            o["as"] = r.sample(addrs, r.randint(0, len(addrs)))
        if op == "all":
            o.update(**{"as": addrs, "ks": keys, "deep": bool(stack)})
        if opt and op == "hasStorage" and a in zeroed:
            continue
        res = do(o)
        if res and res[0] in ("AttributeError", "KeyError", "TypeError", "AssertionError", "Exception", "OverflowError", "IndexError") and op != "move":
            break
        if o["op"] in ("stateRoot", "storageRoot"):
            rooted = True
        elif o["op"] == "save":
            rooted = False
        if o["op"] == "begin":
            stack.append(0)
        elif o["op"] in ("commit", "rollback"):
            stack.pop()
        if o["op"] == "setStorage":
            stored.add(a)
        if o["op"] == "setStorage" and o["v"] == "":
            zeroed.add(a)
        if opt and (o["op"] in ("stateRoot", "storageRoot", "save", "restore") or (o["op"] in ("begin", "commit") and len(stack) <= 1)):
            if not stack or o["op"] == "begin" and len(stack) == 1:
                zeroed.clear()
        if look == "always" and o["op"] != "all":
            do(O("all", as_=addrs, ks=keys, deep=bool(stack)))
    for q in range(len(stack)):
        do(O(r.choice(["commit", "rollback"])))
    do(O("all", as_=addrs, ks=keys))
    do(O("stateRoot"))
    for a in addrs:
        do(O("storageRoot", a))
    st.close()
    return ops


def g_state(fk, r, n, opt=False):
    out = []
    for i in range(n):
        look = r.choice(["always", "some", "never"])
        out.append(dict(name="state%d" % i, fork=fk, ops=history(fk, r, r.choice([10, 25, 25, 60]), opt, look)))
    return out


def g_optstate(fk, r, n):
    undo = opt_patch(fk)
    try:
        return g_state(fk, r, n, True)
    finally:
        undo()


def g_optzero(fk, r, n):
    """the storage of an account is emptied slot by slot inside a transaction"""
    undo = opt_patch(fk)
    try:
        st = Store(fk, True)
        ops = [st.run(o) for o in (O("setAccount", r=("01", "", "")), O("setStorage", v="05"), O("begin"), O("setStorage", v=""), O("hasStorage"))]
        st.run(O("rollback"))
        st.close()
        return [dict(name="emptied-slot-by-slot", fork=fk, ops=ops)]
    finally:
        undo()

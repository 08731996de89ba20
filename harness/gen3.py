"""Batteries: every way of doing a thing in every kind of frame and with every ending, spread over the forks."""
from gen2 import *


def deal(r, combos, fk, n):
    """n of the combinations, different ones in different forks"""
    z = list(combos)
    random.Random(str(len(z)) + str(r.random())).shuffle(z)
    return z[:n] if n < len(z) else z


def in_frame(fk, kind, code, gas=150000, value=0, target=None):
    """code (as a contract at `target`, or as init code) run in a frame of that kind; returns (caller code, accounts)"""
    if kind in ("CREATE", "CREATE2"):
        return create_code(fk, code, value, 77 if kind == "CREATE2" else None) + A("POP"), []
    return call(kind, target, value, gas) + A("POP"), [acct(target, 1, 20, code, {0: 1, 1: 5, 4: 4})]


def framekinds(fk):
    return ["CALL", "CALLCODE", "CREATE"] + (["DELEGATECALL"] if fk >= HOMESTEAD else []) + (["CREATE2"] if fk >= CONSTANTINOPLE else [])


# ------------------------------------------------------------------ P01
def lasting(fk, self_, fresh, helper, dead):
    """name -> code with one lasting effect; helper does the effect `HELP` when called, dead self-destructs"""
    e = {
        "new": A(3, 9, "SSTORE"), "clear": A(0, 1, "SSTORE"), "reset": A(6, 1, "SSTORE"), "restore": A(0, 1, "SSTORE", 5, 1, "SSTORE"),
        "log": A(7, 0, 0, "LOG1"), "log2": A(7, 8, 32, 0, "LOG2", 0, 0, "LOG0"),
        "pay": call("CALL", SINKA, 3, 50000) + A("POP"), "paynew": call("CALL", fresh, 1, 50000) + A("POP"),
        "touch": call("CALL", fresh, 0, 50000) + A("POP"),
        "create": create_code(fk, initcode_for(A(1, 2, "ADD")), 1) + A("POP"),
        "createstore": create_code(fk, A(1, 1, "SSTORE", 0, 0, "LOG0"), 0) + A("POP"),
        "createfail": create_code(fk, bytes([254]), 0) + A("POP"),
        "createpoor": create_code(fk, A("STOP"), 1 << 90) + A("POP"),
        "warm": A("@" + fresh, "BALANCE POP"), "warmslot": A(6, "SLOAD POP"),
        "help": call("CALL", helper, 0, 60000) + A("POP"),
        "die": call("CALL", dead, 0, 30000) + A("POP"),
        "suicide": A("@" + SINKA, "SELFDESTRUCT"),
        "payback": call("CALL", helper, 2, 60000) + A("POP"),
    }
    if fk >= HOMESTEAD:
        e["helpd"] = call("DELEGATECALL", helper, 0, 60000) + A("POP")
    if fk >= CONSTANTINOPLE:
        e["create2"] = create_code(fk, initcode_for(A(1, 2, "ADD")), 1, 9) + A("POP")
    if fk >= CANCUN:
        e["transient"] = A(6, 2, "TSTORE")
        e["transient0"] = A(0, 2, "TSTORE")
    return e


def g_undo(fk, r, n):
    out = []
    fails = ["invalid", "oog", "revert", "underflow", "badjump", "bigret"] + (["rdcopy", "revert0"] if fk >= BYZANTIUM else [])
    names = list(lasting(fk, X[0], X[1], X[2], X[3]))
    combos = [(e, k, d) for e in names for k in framekinds(fk) for d in range(3)]
    combos = deal(r, combos, fk, 5 * n)
    for i in range(0, len(combos), 5):
        pre, top = eoas() + [acct(SINKA, 1, 0, b"")], b""
        for j, (e, k, d) in enumerate(combos[i:i + 5]):
            proxy, code, helper, dead, fresh, mid = (addr(0xF000 + 16 * j + q) for q in range(6))
            eff = lasting(fk, proxy, fresh, helper, dead)
            also = r.choice([b"", b"", eff[r.choice([x for x in names if x != "suicide"])]])
            end = ENDS[r.choice(fails)](fk) if e != "suicide" else b""
            body = also + eff[e] + end
            pre.append(acct(helper, 1, 7, r.choice([A(8, 8, "SSTORE"), A(0, 1, "SSTORE"), A(0, 0, "LOG0"), A(4, 2, "TSTORE") if fk >= CANCUN else A(1, 3, "SSTORE")]), {1: 1}))
            pre.append(acct(dead, 1, 5, A("@" + SINKA, "SELFDESTRUCT")))
            gas = r.choice([120000, 120000, 200000, 45000])
            do, more = in_frame(fk, k, body, gas, r.choice([0, 0, 1]) if k != "DELEGATECALL" else 0, code)
            if d == 2:           # the frame succeeds, the one around it fails
                body2 = do + ENDS[r.choice(fails)](fk)
                do, more2 = in_frame(fk, r.choice(callkinds(fk)[:3]), body2, 300000, 0, mid)
                more += more2
            elif d == 1 and e != "suicide":     # done before and undone after
                do = r.choice([eff["new"], eff["transient"] if fk >= CANCUN else eff["reset"], eff["warm"]]) + do
            look = obs(fk, [SINKA, fresh, helper], [1, 2, 6, 9]) + A("GAS POP") + call("CALL", helper, 0, 60000) + A("POP GAS POP")
            pre.append(acct(proxy, 1, 40, do + look, {1: 5, 4: 4}))
            pre += more
            top += call("CALL", proxy, 0, 900000) + A("POP")
            top += A("@" + dead, "EXTCODESIZE POP", "@" + fresh, "BALANCE POP GAS POP")
        pre.append(acct(X[0], 1, 50, top, {1: 5}))
        out.append(scenario("undo%d" % i, fk, pre, [tx(fk, KEY1, X[0], 0, b"", 4000000, 0)]))
    # the outermost frame
    names = [x for x in names if x != "suicide"]
    for i in range(n):
        e = r.choice(names)
        eff = lasting(fk, X[1], X[5], X[6], X[7])
        body = eff[e] + eff[r.choice(names)] + ENDS[r.choice(fails)](fk)
        pre = eoas() + [acct(X[1], 1, 9, body, {1: 5}), acct(X[6], 1, 7, A(0, 1, "SSTORE"), {1: 1}), acct(X[7], 1, 5, A("@" + SINKA, "SELFDESTRUCT")),
                        acct(X[2], 1, 0, obs(fk, [X[5], SINKA, X[7]], [1, 2]))]
        to = r.choice([X[1], ""])
        out.append(scenario("top%d" % i, fk, pre, [tx(fk, KEY1, to, r.choice([0, 3]), body if to == "" else b"", 400000, 0),
                                                   tx(fk, KEY1, X[2], 0, b"", 200000, 1)]))
    return out


def g_nest(fk, r, n):
    """chains of frames one in another, each with effects before and after the next one, and with an ending of its own"""
    out = []
    fails = ["invalid", "oog", "revert", "underflow", "badjump"] + (["revert0", "revert0"] if fk >= BYZANTIUM else [])
    first = r.randrange(len(fails))
    for i in range(n):
        depth = r.choice([3, 4] if i % 3 == 0 else [6, 8, 11])
        here = [addr(0xE000 + q) for q in range(depth)]
        fresh, helper, dead = X[5], X[6], X[7]
        names = [x for x in lasting(fk, X[0], fresh, helper, dead) if x not in ("suicide", "createfail", "createpoor")]
        code = b""
        pre = eoas() + [acct(SINKA, 1, 0, b""), acct(helper, 1, 7, A(8, 8, "SSTORE"), {1: 1}), acct(dead, 1, 5, A("@" + SINKA, "SELFDESTRUCT"))]
        kind, bodies, gas, broken = "", {}, 120000, r.randrange(1 if i % 3 == 0 else 4, depth)
        for q in reversed(range(depth)):
            eff = lasting(fk, here[q], fresh, helper, dead)
            body = eff[r.choice(names)] if q % 2 or r.random() < .5 else b""
            if q < depth - 1:
                kind = r.choice(framekinds(fk) if len(code) < 1500 else framekinds(fk)[:2])
                do, more = in_frame(fk, kind, code, gas, 1 if kind != "DELEGATECALL" and r.random() < .1 else 0, here[q + 1])
                bodies[here[q + 1]] = more
                body += do
                if r.random() < .6:
                    body += eff[r.choice(names)]
            if q == broken:
                body = eff[r.choice(["new", "reset", "log", "pay", "transient" if fk >= CANCUN else "clear"])] + body
            end = fails[(first + i) % len(fails)] if q == broken else r.choice(fails + ["stop", "return"]) if q > broken or q and r.random() < .1 else r.choice(["stop", "return"])
            code = body + ENDS[end](fk)
            gas += 150000
        for a, more in bodies.items():
            pre += more
        pre.append(acct(X[0], 1, 90, code, {1: 5, 4: 4}))
        look = acct(X[2], 1, 0, obs(fk, sorted(set(here))[:6] + [fresh, SINKA, dead], [1, 2]))
        pre.append(look)
        out.append(scenario("nest%d" % i, fk, pre, [tx(fk, KEY1, X[0], 1, b"", 5000000, 0), tx(fk, KEY1, X[2], 0, b"", 200000, 1)]))
    return out


# ------------------------------------------------------------------ P05
def probes(fk, a, slot=6):
    """instructions whose price depends on the account (or slot) being warm"""
    p = {"BALANCE": A("@" + a, "BALANCE POP"), "EXTCODESIZE": A("@" + a, "EXTCODESIZE POP"), "EXTCODECOPY": A(0, 0, 0, "@" + a, "EXTCODECOPY"),
         "CALL": call("CALL", a, 0, 0) + A("POP"), "CALLCODE": call("CALLCODE", a, 0, 0) + A("POP")}
    if fk >= HOMESTEAD:
        p["DELEGATECALL"] = call("DELEGATECALL", a, 0, 0) + A("POP")
    if fk >= BYZANTIUM:
        p["STATICCALL"] = call("STATICCALL", a, 0, 0) + A("POP")
    if fk >= CONSTANTINOPLE:
        p["EXTCODEHASH"] = A("@" + a, "EXTCODEHASH POP")
    return p


def g_warm(fk, r, n):
    out = []
    if fk < BERLIN:
        n = max(1, n // 6)
    from chain import header  # noqa
    fails = ["invalid", "oog", "revert"]
    combos = []
    for i in range(n):
        pre, top = eoas() + [acct(X[30], 1, 5, b"", {})], b""
        for j in range(4):
            base = 0xF000 + 16 * j
            proxy, code, target, dead = (addr(base + q) for q in range(4))
            ways = dict(probes(fk, target))
            created = keccak(rl([unhex(proxy), 1]))[12:].hex()
            init = r.choice([A("STOP"), initcode_for(A(1, 2, "ADD")), bytes([254]), ENDS["revert"](fk), A(6, "SLOAD POP"), A(1, 6, "SSTORE"), A("@" + target, "BALANCE POP") + bytes([254])])
            ways.update({
                "sload": A(6, "SLOAD POP"), "sstore": A(r.choice([0, 1, 6]), 6, "SSTORE"),
                "create": create_code(fk, init, r.choice([0, 1])) + A("POP"),
                "createpoor": create_code(fk, init, 1 << 90) + A("POP"),
                "createpoor2": create_code(fk, init, 1 << 90, 7) + A("POP"),
                "create2": create_code(fk, init, 0, 7) + A("POP"),
                "callpoor": call("CALL", target, 1 << 90, 30000) + A("POP"),
                "callvalue": call("CALL", target, 1, 30000) + A("POP"),
                "dead": call("CALL", dead, 0, 40000) + A("POP"),
                "deadself": A("@" + target, "SELFDESTRUCT"),
                "none": b"",
            })
            if fk >= SHANGHAI:
                ways["createlong"] = A(49153, 0, 0, "CREATE POP")
            way = r.choice(list(ways))
            if way.startswith("create") and r.random() < .7:
                look = created
                if way in ("create2", "createpoor2"):
                    look = keccak(b"\xff" + unhex(proxy) + (7).to_bytes(32, "big") + keccak(init))[12:].hex()
            else:
                look = target
            pre.append(acct(dead, 1, r.choice([0, 5]), A("@" + target, "SELFDESTRUCT")))
            how = r.choice(["direct", "child", "childfail", "childfail", "delegate"])
            act = ways[way]
            if way == "deadself" and how == "direct":
                how = "child"
            slot = r.choice(["code", "proxy"])
            seen = b"".join(r.sample(list(probes(fk, look).values()), 2))
            if how == "direct":
                body = act
            elif how == "delegate" and fk >= HOMESTEAD:
                body, more = in_frame(fk, "DELEGATECALL", act + r.choice([b"", ENDS[r.choice(fails)](fk)]), 200000, 0, code)
                pre += more
            else:
                kind = r.choice(["CALL", "CALLCODE"])
                if how == "childfail":
                    act = act + ENDS[r.choice(fails)](fk)
                body, more = in_frame(fk, kind, act, 200000, 0, code)
                pre += more
            pre.append(acct(proxy, 1, 40, body + seen + A(6, "SLOAD POP GAS POP"), {6: 1}))
            if r.random() < .5:
                pre.append(acct(target, r.choice([0, 1]), 1, r.choice([b"", A("STOP"), A(6, "SLOAD POP")])))
            top += call("CALL", proxy, 0, 600000) + A("POP")
            top += b"".join(r.sample(list(probes(fk, r.choice([look, target, dead])).values()), 2)) + A("GAS POP")
            top += call("CALL", code, 0, 60000) + A("POP GAS POP")
        pre.append(acct(X[0], 1, 50, top, {6: 2}))
        al, typ = [], 0
        if fk >= BERLIN and r.random() < .6:
            al = [(addr(0xF000 + 16 * r.randrange(4) + r.randrange(4)), ["%064x" % r.choice([6, 7]) for _ in range(r.randint(0, 2))]) for _ in range(r.randint(1, 3))]
            if r.random() < .5:
                al.append((r.choice(al)[0], ["%064x" % r.choice([6, 7])]))
            typ = r.choice([1, 2]) if fk >= LONDON else 1
        ts = [tx(fk, KEY1, X[0], 0, b"", 3500000, 0, typ, access=al), tx(fk, KEY1, X[0], 0, b"", 3500000, 1)][:r.choice([1, 1, 2])]
        if r.random() < .3:      # a creation as the transaction
            ts.append(tx(fk, KEY2, "", 0, r.choice([A("ADDRESS BALANCE POP", 6, "SLOAD POP"), A("@" + COINBASE, "BALANCE POP", "@" + S2, "BALANCE POP")]), 300000, 0))
        out.append(scenario("warm%d" % i, fk, pre, ts, dict(coinbase=r.choice([COINBASE, addr(0xF002), addr(0xF013)]))))
    # creation at the depth limit, and with the last nonce
    for depth, nonce in ((1024, 1), (1023, 1), (0, (1 << 64) - 1)):
        for salt in ((None, 7) if fk >= CONSTANTINOPLE else (None,)):
            made = (keccak(rl([unhex(X[0]), nonce])) if salt is None else keccak(b"\xff" + unhex(X[0]) + (7).to_bytes(32, "big") + keccak(A("STOP"))))[12:].hex()
            pre = eoas() + [acct(X[0], nonce, 10, create_code(fk, A("STOP"), 0, salt) + A("POP", "@" + made, "BALANCE POP GAS POP"))]
            out.append(scenario("edge%d_%s_%s" % (depth, nonce, salt), fk, pre, [], msg=message(X[0], gas=300000, depth=depth)))
    return out


# ------------------------------------------------------------------ P10
def g_touch(fk, r, n):
    out = []
    failing = [1 + q for q in range(4 if fk < BYZANTIUM else 8 if fk < ISTANBUL else 9 if fk < CANCUN else 10 if fk < PRAGUE else 17)]
    for i in range(n):
        pre, top, stale = eoas(), b"", set()
        for j in range(4):
            base = 0xF000 + 16 * j
            proxy, code, target, dead = (addr(base + q) for q in range(4))
            if r.random() < .5:
                target = addr(r.choice(failing + [3, 3, 3, 2]))
            if fk < PARIS and r.random() < .8:
                stale.add(target)
            elif r.random() < .3:
                stale.discard(target)
                if target not in [p[0] for p in pre]:
                    pre.append(acct(target, 0, r.choice([1, 0, 0]) if fk < PARIS else 1))
            v = r.choice([0, 0, 0, 1])
            gas = r.choice([0, 0, 0, 50, 30000, 100000])
            ways = [call(k, target, v if k in ("CALL", "CALLCODE") else 0, gas, (0, r.choice([0, 5, 64, 192, 213]))) + A("POP") for k in callkinds(fk)]
            ways += [ways[0]] * 12
            ways += [A("@" + target, "BALANCE POP"), A("@" + target, "EXTCODESIZE POP"), call("CALL", dead, 0, 40000) + A("POP"),
                     create_code(fk, A("@" + target, "SELFDESTRUCT"), 0) + A("POP"), create_code(fk, call("CALL", target, 0, gas), 0) + A("POP"),
                     call("CALL", target, 1 << 90, gas) + A("POP")]
            pre.append(acct(dead, 1, r.choice([0, 0, 5]), A("@" + target, "SELFDESTRUCT")))
            act = r.choice(ways)
            if r.random() < .4:
                act += r.choice(ways)
            how = r.random()
            if how < .3:
                body = act
            else:
                k = r.choice(["CALL", "CALLCODE", "CREATE"] + (["DELEGATECALL"] if fk >= HOMESTEAD else []))
                body, more = in_frame(fk, k, act + (ENDS[r.choice(FAILS)](fk) if how < .8 else b""), r.choice([200000, 90000]), 0, code)
                pre += more
            if how > .9:
                body += ENDS[r.choice(FAILS)](fk)
            pre.append(acct(proxy, 1, 40, body))
            top += call("CALL", proxy, 0, 500000) + A("POP")
        if r.random() < .2:
            top += ENDS[r.choice(FAILS)](fk)
        pre.append(acct(X[0], 1, 50, top))
        have = {p[0] for p in pre}
        pre += [acct(a, 0, 0) for a in sorted(stale) if a not in have]
        cb = r.choice([COINBASE, addr(0xF002), addr(0xF012), addr(3)])
        if fk < PARIS and r.random() < .5 and cb not in have | stale:
            pre.append(acct(cb, 0, 0))
        price = r.choice([0, 0, 10]) if fk < LONDON else 7
        to = r.choice([X[0], X[0], X[0], addr(0xF002), addr(3), ""])
        ts = [tx(fk, KEY1, to, 0, b"" if to else r.choice([b"", A("@" + addr(0xF002), "SELFDESTRUCT")]), 3000000, 0, price=price)]
        if r.random() < .4:
            ts.append(tx(fk, KEY1, r.choice([addr(0xF002), addr(0xF012), X[0], addr(2)]), 0, b"", 2000000, 1, price=price))
        ws = [dict(index=hx(q), validator="01", addr=r.choice([addr(0xF002), GHOST, S2]), amount=hx(r.choice([0, 0, 1]))) for q in range(r.randint(0, 2))] if fk >= SHANGHAI else []
        oms = [dict(coinbase=r.choice([addr(0xF002), addr(0xF012)]), number=hx(99))] if fk < PARIS and r.random() < .2 else []
        seen, uniq = set(), []
        for p in pre:
            if p[0] not in seen:
                seen.add(p[0])
                uniq.append(p)
        out.append(scenario("touch%d" % i, fk, uniq, ts, dict(coinbase=cb), ws, oms))
    return out


# ------------------------------------------------------------------ P04, P08, P09
def branches(bs):
    """code that runs bs[i] when called with the number i"""
    head, pos = b"", 0
    size = len(bs) * 10
    body = b""
    for i, b in enumerate(bs):
        head += A(0, "CALLDATALOAD", push(i, 1), "EQ", push(size + 1 + len(body), 2), "JUMPI")
        body += A("JUMPDEST") + b + A("STOP")
    assert len(head) == size, (len(head), size)
    return head + A("STOP") + body


def g_lives(fk, r, n):
    """contracts created, used, destroyed and created again, within one transaction and over several"""
    out = []
    F = X[0]
    for i in range(n):
        bens = ["@" + S2, "@" + F, "ADDRESS", "CALLER", "@" + GHOST, "@" + COINBASE]
        slots = lambda: b"".join(A(r.choice([0, 0, 1, 2, 3]), r.choice([0, 1, 2]), "SSTORE") for _ in range(r.randint(1, 3)))
        ben = r.choice(bens)
        bs = [slots() + A(0, "SLOAD POP", 1, "SLOAD POP", 2, "SLOAD POP"), A(ben, "SELFDESTRUCT"), slots() + A(r.choice(bens), "SELFDESTRUCT"),
              slots() + (A(5, 1, "TSTORE", 1, "TLOAD POP") if fk >= CANCUN else b"") + A("ADDRESS BALANCE POP"),
              slots() + ENDS[r.choice(FAILS)](fk), A(ben, "SELFDESTRUCT"),
              create_code(fk, r.choice([A("STOP"), A(7, 0, "SSTORE") + A("ADDRESS SELFDESTRUCT"), bytes([254])]), r.choice([0, 1])) + A("POP")]
        run = branches(bs)
        sets = r.choice([A(1, 0, "SSTORE", 2, 1, "SSTORE"), A(1, 0, "SSTORE", 2, 1, "SSTORE"), b""])
        init = sets + initcode_small_off(run, len(sets)) if sets else initcode_for(run)
        two = fk >= CONSTANTINOPLE and r.random() < .8
        # the factory: creates (with the salt it is given) and passes on the value
        f = mstore_bytes(init) + (A(0, "CALLDATALOAD") if two else b"") + A(len(init), 0, "CALLVALUE", "CREATE2" if two else "CREATE") + A("POP GAS POP")
        kids = [keccak(b"\xff" + unhex(F) + pad32(k) + keccak(init))[12:].hex() if two else keccak(rl([unhex(F), 1 + k]))[12:].hex() for k in range(3)]
        pre = eoas() + [acct(F, 1, 50, f), acct(X[20], 1, 10, run, {0: 1, 1: 2}), acct(X[21], 1, 0, call("CALL", X[22], 0, 300000) + A("POP") + bytes([254]))]
        if r.random() < .15:      # something is there already
            pre.append(acct(kids[0], *r.choice([(0, 5, b""), (1, 0, b""), (0, 0, b"", {0: 3}) if fk < PARIS else (0, 1, b"", {0: 3}), (0, 1, b"\0")])))

        def op():
            k = r.random()
            if k < .25:
                return A(r.randrange(2), 0, "MSTORE") + call("CALL", F, r.choice([0, 0, 1]), 900000, (0, 32)) + A("POP")
            if k < .85:
                who = r.choice([kids[0], kids[0], kids[0], kids[1], X[20]])
                return A(r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6]), 0, "MSTORE") + \
                    call(r.choice(["CALL", "CALL", "CALL", "CALLCODE"] + (["DELEGATECALL"] if fk >= HOMESTEAD else [])), who, 0, r.choice([200000, 200000, 60000]), (0, 32)) + A("POP")
            if k < .92:
                return call("CALL", kids[0], r.choice([0, 2]), 0) + A("POP")
            return A("@" + r.choice([kids[0], X[20]]), "EXTCODESIZE POP", "@" + kids[0], "BALANCE POP")
        ts = []
        for q in range(r.randint(2, 4)):
            code = b"".join(op() for _ in range(r.randint(2, 5)))
            if q == 0:
                code = A(0, 0, "MSTORE") + call("CALL", F, r.choice([0, 3]), 900000, (0, 32)) + A("POP") + code
            if r.random() < .2:
                code += bytes([254])
            pre.append(acct(addr(0xF100 + q), 1, 30, code, {0: 1}))
            to = addr(0xF100 + q)
            ts.append(tx(fk, KEY1, to, 0, b"", 3000000, q) if r.random() < .8 else tx(fk, KEY1, r.choice(kids[:2] + [X[20]]), r.choice([0, 1]), pad32(r.choice([0, 1, 2, 3, 4])), 400000, q))
        if r.random() < .3:       # created by a transaction, used by the next
            ts.append(tx(fk, KEY2, "", r.choice([0, 4]), init, 2000000, 0))
            made = keccak(rl([unhex(S2), 0]))[12:].hex()
            for q in range(1, r.randint(2, 3)):
                ts.append(tx(fk, KEY2, made, r.choice([0, 1]), pad32(r.choice([0, 1, 2, 3, 0])), 400000, q))
        out.append(scenario("lives%d" % i, fk, pre, ts))
    return out


def g_loops(fk, r, n):
    """destinations at either end of the code, and loops"""
    out = []
    codes = []
    # a jump back to 0: JUMPDEST MSIZE PUSH1 end JUMPI 1 0 MSTORE 0 JUMP end: JUMPDEST PC
    body = A("JUMPDEST MSIZE", push(14, 1), "JUMPI", push(1, 1), push(0, 1), "MSTORE", push(0, 1), "JUMP")
    codes.append(body + b"\0" * (14 - len(body)) + A("JUMPDEST PC"))
    codes.append(A(push(3, 1), "JUMP", "JUMPDEST"))                      # the last byte
    codes.append(bytes([0x60, 4, 0x56, 0x60, 0x5b]))                     # data of a push
    for k in range(1, 33):                                               # around every push
        codes.append(A(push(3 + k, 1), "JUMP") + bytes([95 + k]) + b"\x5b" * k + A("PC"))
        codes.append(A(push(4 + k, 1), "JUMP") + bytes([95 + k]) + b"\x5b" * k + A("JUMPDEST PC"))
        codes.append(A(push(3 + k - 1, 1), "JUMP") + bytes([95 + k - 1 if k > 1 else 0x5a]) + b"\x5b" * (k - 1) + A("JUMPDEST PC"))
    for b in (0x0c, 0x1f, 0x21, 0x2f, 0x49, 0x5e, 0x5f, 0xa5, 0xef, 0xf6, 0xfe):      # after an undefined instruction
        codes.append(A(push(4, 1), "JUMP") + bytes([b]) + A("JUMPDEST PC"))
    for i in range(0, len(codes), 16):
        pre, top = eoas(), b""
        for j, c in enumerate(codes[i:i + 16]):
            pre.append(acct(addr(0xCC00 + j), 1, 10, c))
            top += call("CALL", addr(0xCC00 + j), 0, 100000) + A("POP")
        pre.append(acct(X[0], 1, 0, top))
        out.append(scenario("loops%d" % i, fk, pre, [tx(fk, KEY1, X[0], 0, b"", 6000000, 0)]))
    return out

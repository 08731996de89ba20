"""Replays the histories TLC explored in OptState.tla on the real stores."""
import json, re
import genstate as G
import rec
from genstate import O, Store


def paths(out):
    """the maximal histories printed by TLC"""
    seen = {}
    for m in re.finditer(r'^"TOUR (.*)"$', out, re.M):
        s = json.loads(m.group(1).replace('\\"', '"'))
        seen[json.dumps(s)] = s
    prefixes = {json.dumps(s[:-1]) for s in seen.values()}
    return [seen[k] for k in sorted(seen) if k not in prefixes]


ACCT = {1: ("01", "", ""), 2: ("", "", "60ff")}
KEY = {1: "", 2: "01"}
VAL = {0: "", 1: "05", 2: "ff" * 32}


def replay(fk, path, opt):
    """the first disagreement, or None"""
    st = Store(fk, opt)
    try:
        depth = 0
        for i, (op, x, y, acct, slots, origs) in enumerate(path):
            if op == "created" and fk < rec.ISTANBUL:
                continue
            o = O(op, k=KEY.get(x, "") if op == "setStorage" else "", v=VAL[y] if op == "setStorage" else "",
                  r=ACCT[x] if op == "setAccount" else ("", "", ""))
            st.run(o)
            if o["res"]:
                return dict(step=i, op=op, expected="", got=o["res"])
            ks = [KEY[j + 1] for j in range(len(slots))]
            want = [[[] if acct == 0 else list(ACCT[acct]), [VAL[v] for v in slots],
                     [VAL[v] for v in origs] if fk >= rec.ISTANBUL else [], [""] * len(ks) if fk >= rec.CANCUN else []]]
            p = st.run(O("all", as_=[G.ADDRS[0]], ks=ks, deep=bool(origs)))
            if p["res"] != want:
                return dict(step=i, op=op, expected=want, got=p["res"])
        return None
    finally:
        st.close()


def slice_(a):
    fk, opt, ps = a
    undo = G.opt_patch(fk) if opt else None
    try:
        for p in ps:
            d = replay(fk, p, opt)
            if d:
                return dict(fork=fk, opt=opt, path=p, diff=d)
        return None
    finally:
        if undo:
            undo()

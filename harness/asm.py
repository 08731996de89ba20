"""Assembling byte code, and scenario plumbing shared by the generators."""
import random
from rec import *  # noqa

OPS = {}
for _i, _n in enumerate("STOP ADD MUL SUB DIV SDIV MOD SMOD ADDMOD MULMOD EXP SIGNEXTEND".split()):
    OPS[_n] = _i
for _i, _n in enumerate("LT GT SLT SGT EQ ISZERO AND OR XOR NOT BYTE SHL SHR SAR CLZ".split()):
    OPS[_n] = 16 + _i
OPS["KECCAK"] = 32
for _i, _n in enumerate("ADDRESS BALANCE ORIGIN CALLER CALLVALUE CALLDATALOAD CALLDATASIZE CALLDATACOPY CODESIZE CODECOPY GASPRICE EXTCODESIZE EXTCODECOPY RETURNDATASIZE RETURNDATACOPY EXTCODEHASH BLOCKHASH COINBASE TIMESTAMP NUMBER PREVRANDAO GASLIMIT CHAINID SELFBALANCE BASEFEE BLOBHASH BLOBBASEFEE".split()):
    OPS[_n] = 48 + _i
for _i, _n in enumerate("POP MLOAD MSTORE MSTORE8 SLOAD SSTORE JUMP JUMPI PC MSIZE GAS JUMPDEST TLOAD TSTORE MCOPY PUSH0".split()):
    OPS[_n] = 80 + _i
for _i in range(1, 33):
    OPS["PUSH%d" % _i] = 95 + _i
for _i in range(1, 17):
    OPS["DUP%d" % _i] = 127 + _i
    OPS["SWAP%d" % _i] = 143 + _i
for _i in range(5):
    OPS["LOG%d" % _i] = 160 + _i
OPS.update(CREATE=240, CALL=241, CALLCODE=242, RETURN=243, DELEGATECALL=244, CREATE2=245,
           STATICCALL=250, REVERT=253, INVALID=254, SELFDESTRUCT=255)
NAMES = {v: k for k, v in OPS.items()}
M256 = 1 << 256


def push(n, width=None):
    n = int(n) % M256
    b = n.to_bytes(width or max(1, (n.bit_length() + 7) // 8), "big")
    return bytes([95 + len(b)]) + b


def A(*parts):
    """assemble: ints and addresses are pushed, names are instructions, bytes are literal"""
    out = b""
    for p in parts:
        if isinstance(p, bool):
            out += push(int(p))
        elif isinstance(p, int):
            out += push(p)
        elif isinstance(p, bytes):
            out += p
        elif isinstance(p, (list, tuple)):
            out += A(*p)
        elif p.startswith("@"):            # address
            out += push(int(p[1:], 16), 20)
        else:
            for w in p.split():
                out += bytes([OPS[w]]) if w in OPS else push(int(w, 0))
    return out


def addr(n):
    return "%040x" % n


def call(op, to, value=0, gas=None, ain=(0, 0), aout=(0, 0)):
    """arguments pushed, then the call; gas None: everything"""
    p = [aout[1], aout[0], ain[1], ain[0]]
    if op in ("CALL", "CALLCODE"):
        p.append(value)
    p.append("@" + to if isinstance(to, str) else to)
    p.append("GAS" if gas is None else gas)
    return A(*p, op)


def mstore_bytes(b, off=0):
    """code storing b in memory at off"""
    out = b""
    for i in range(0, len(b), 32):
        ch = b[i:i + 32]
        out += A(int.from_bytes(ch.ljust(32, b"\0"), "big"), off + i, "MSTORE")
    return out


def initcode_for(code):
    """init code that deploys code"""
    n = len(code)
    head = A(n, "DUP1", push(0, 2), 0, "CODECOPY", 0, "RETURN")
    # the offset of the payload is the length of the head
    head = A(n, "DUP1", push(len(head), 2), 0, "CODECOPY", 0, "RETURN")
    return head + code


COINBASE = "c0" * 20
BASE_BLK = dict(coinbase=COINBASE, number="64", time="03e8", difficulty="020000", randao="ab" * 32,
                gasLimit=20000000, chainId="01", baseFee="07", excess="", hashes=[], beaconRoot="be" * 32)
BASE_BLK["hashes"] = [("%02x" % (i + 1)) * 32 for i in range(100)]
KEY1, KEY2, KEY3 = 0x1001, 0x1002, 0x1003
ETH = 10**18


def acct(a, nonce=0, balance=0, code=b"", storage=None):
    return [a, hx(nonce) or "00", hx(balance), bytes(code).hex(),
            [[hx(k), hx(v)] for k, v in sorted((storage or {}).items()) if v]]


def tx(fk, key=KEY1, to="", value=0, data=b"", gas=200000, nonce=0, typ=0, price=10, prio=2, maxfee=None,
       access=(), blobfee=1, blobs=(), auths=(), chain=1, protect=None, sign_chain=None):
    t = dict(type=typ, chainId=hx(chain) if typ else "", nonce=hx(nonce), gasPrice=hx(price), maxPrio=hx(prio),
             maxFee=hx(price if maxfee is None else maxfee), gas=hx(gas), to=to, value=hx(value),
             data=bytes(data).hex(), access=[list(a) for a in access], blobFee=hx(blobfee), blobs=list(blobs),
             auths=list(auths), v="", r="", s="")
    if typ <= 1:
        t["maxPrio"] = t["maxFee"] = ""
    if typ >= 2:
        t["gasPrice"] = ""
    if typ != 3:
        t["blobFee"] = ""
    if protect is None:
        protect = fk >= SPURIOUS
    return sign(t, key, chain if sign_chain is None else sign_chain, protect)


# system contracts of EIP-4788, 2935, 7002, 7251: stand-ins with observable behaviour
SYS = {
    "beacon": "000f3df6d732807ef1319fb7b8bb8522d0beac02",
    "history": "0000f90827f1c53a10cb7a02335b175320002935",
    "wreq": "00000961ef480eb55e80d19ad83579a64c007002",
    "creq": "0000bbddc7ce488642fb579f8b00f3a590007251",
    "deposit": "00000000219ab540356cbb839cbe05303d7705fa",
}
STORE_INPUT = A(0, "CALLDATALOAD", "NUMBER", "SSTORE")
SYSCODE = {"beacon": STORE_INPUT, "history": STORE_INPUT, "wreq": A("STOP"), "creq": A("STOP")}


def system_accounts(fk, code=None):
    out = []
    cs = dict(SYSCODE, **(code or {}))
    if fk >= CANCUN:
        out.append(acct(SYS["beacon"], 1, 0, cs["beacon"]))
    if fk >= PRAGUE:
        for k in ("history", "wreq", "creq"):
            out.append(acct(SYS[k], 1, 0, cs[k]))
    return out


def scenario(name, fk, pre, txs, blk=None, withdrawals=(), ommers=(), msg=None, syscode=None, system=True, **kw):
    b = dict(BASE_BLK)
    b.update(blk or {})
    if fk < LONDON:
        b["baseFee"] = ""
    if fk < CANCUN:
        b["excess"] = ""
    if fk >= PARIS:
        b["difficulty"] = ""
    have = {p[0] for p in pre}
    pre = list(pre) + ([a for a in system_accounts(fk, syscode) if a[0] not in have] if system else [])
    sc = dict(name=name, fork=fk, pre=pre, blk=b, txs=list(txs),
              withdrawals=list(withdrawals), ommers=list(ommers), msg=[msg] if msg else [], traced=True)
    sc.update(kw)
    return sc


def message(to, caller=None, gas=100000, value=0, data=b"", static=False, depth=0, xfer=True, aA=(), aK=(), origin=None):
    caller = caller or key_addr(KEY1)
    return dict(caller=caller, to=to, gas=gas, value=hx(value), data=bytes(data).hex(), static=static, depth=depth,
                xfer=xfer, aA=list(aA), aK=list(aK), origin=origin or caller, gasPrice="0a")

"""Recorder: runs a block scenario on the code of /repo and writes down what
it did, in the shape EVMTrace.tla reads."""
import importlib, os, sys, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.setrecursionlimit(200000)

FORKS = ["frontier", "homestead", "dao_fork", "tangerine_whistle", "spurious_dragon",
         "byzantium", "constantinople", "istanbul", "muir_glacier", "berlin", "london",
         "arrow_glacier", "gray_glacier", "paris", "shanghai", "cancun", "prague", "osaka"]
(FRONTIER, HOMESTEAD, DAO, TANGERINE, SPURIOUS, BYZANTIUM, CONSTANTINOPLE, ISTANBUL, MUIR,
 BERLIN, LONDON, ARROW, GRAY, PARIS, SHANGHAI, CANCUN, PRAGUE, OSAKA) = range(18)

from ethereum_types.bytes import Bytes, Bytes0, Bytes8, Bytes20, Bytes32  # noqa: E402
from ethereum_types.numeric import U64, U256, Uint  # noqa: E402
from ethereum_rlp import rlp  # noqa: E402
from ethereum_rlp.exceptions import RLPException  # noqa: E402
from ethereum.exceptions import EthereumException  # noqa: E402
import ethereum.trace as trace_mod  # noqa: E402
from Crypto.Hash import keccak as _keccak  # noqa: E402

MAXINT = (1 << 30) - 1


def keccak(b):
    return _keccak.new(digest_bits=256, data=bytes(b)).digest()


def mod(fk, name=""):
    return importlib.import_module("ethereum." + FORKS[fk] + ("." + name if name else ""))


def hx(n):
    """natural as minimal even-length hex"""
    n = int(n)
    if n == 0:
        return ""
    s = "%x" % n
    return s if len(s) % 2 == 0 else "0" + s


def unint(s):
    return int(s, 16) if s else 0


def unhex(s):
    return bytes.fromhex(s)


# ---------------------------------------------------------------- RLP (own)
def rl(x):
    if isinstance(x, (list, tuple)):
        p = b"".join(rl(y) for y in x)
        return _hd(len(p), 0xC0) + p
    if isinstance(x, int):
        x = unhex(hx(x))
    if len(x) == 1 and x[0] < 0x80:
        return bytes(x)
    return _hd(len(x), 0x80) + bytes(x)


def _hd(n, base):
    if n <= 55:
        return bytes([base + n])
    b = unhex(hx(n))
    return bytes([base + 55 + len(b)]) + b


def tx_fields(t):
    n = lambda k: unint(t[k])
    b = lambda k: unhex(t[k])
    ty = t["type"]
    al = [[unhex(a), [unhex(k) for k in ks]] for a, ks in t["access"]]
    body = [n("gas"), b("to"), n("value"), b("data")]
    if ty == 0:
        return [n("nonce"), n("gasPrice")] + body
    head = [n("chainId"), n("nonce")]
    if ty == 1:
        return head + [n("gasPrice")] + body + [al]
    head += [n("maxPrio"), n("maxFee")]
    if ty == 2:
        return head + body + [al]
    if ty == 3:
        return head + body + [al, n("blobFee"), [unhex(h) for h in t["blobs"]]]
    return head + body + [al, [[unint(a["chainId"]), unhex(a["addr"]), unint(a["nonce"]),
                                unint(a["v"]), unint(a["r"]), unint(a["s"])] for a in t["auths"]]]


def tx_bytes(t):
    f = tx_fields(t) + [unint(t["v"]), unint(t["r"]), unint(t["s"])]
    return (b"" if t["type"] == 0 else bytes([t["type"]])) + rl(f)


# ---------------------------------------------------------------- signing
SECP_N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
import coincurve  # noqa: E402

_keys = {}


def key_addr(k):
    """address of the private key k (an int)"""
    if k not in _keys:
        pub = coincurve.PrivateKey(k.to_bytes(32, "big")).public_key.format(compressed=False)
        _keys[k] = keccak(pub[1:])[12:].hex()
    return _keys[k]


def sign_hash(h, k):
    s = coincurve.PrivateKey(k.to_bytes(32, "big")).sign_recoverable(h, hasher=None)
    return int.from_bytes(s[:32], "big"), int.from_bytes(s[32:64], "big"), s[64]


def sign(t, k, chain_id=1, protect=False):
    """fill in v, r, s; protect: EIP-155"""
    t = dict(t)
    f = tx_fields(t)
    if t["type"] == 0:
        h = keccak(rl(f + [chain_id, 0, 0]) if protect else rl(f))
    else:
        h = keccak(bytes([t["type"]]) + rl(f))
    r, s, bit = sign_hash(h, k)
    v = bit if t["type"] else (35 + 2 * chain_id + bit if protect else 27 + bit)
    t["v"], t["r"], t["s"] = hx(v), hx(r), hx(s)
    return t


def sign_auth(chain_id, addr, nonce, k):
    h = keccak(b"\x05" + rl([chain_id, unhex(addr), nonce]))
    r, s, bit = sign_hash(h, k)
    return dict(chainId=hx(chain_id), addr=addr, nonce=hx(nonce), v=hx(bit), r=hx(r), s=hx(s))


# ---------------------------------------------------------------- state
def build_state(fk, pre):
    st = mod(fk, "state")
    ft = mod(fk, "fork_types")
    s = st.State()
    for addr, n, b, c, store in pre:
        a = ft.Address(unhex(addr))
        st.set_account(s, a, ft.Account(nonce=Uint(unint(n)), balance=U256(unint(b)), code=Bytes(unhex(c))))
        for k, v in store:
            st.set_storage(s, a, Bytes32(unint(k).to_bytes(32, "big")), U256(unint(v)))
    return s


def _data(trie):
    return dict(trie._data)


def dump_state(fk, s):
    st = mod(fk, "state")
    out = []
    tries = s._storage_tries
    addrs = set(_data(s._main_trie)) | set(tries)
    for a in sorted(addrs, key=bytes):
        acc = st.get_account_optional(s, a)
        store = []
        if a in tries:
            for k in sorted(_data(tries[a]), key=bytes):
                v = int(st.get_storage(s, a, k))
                if v:
                    store.append([hx(int.from_bytes(k, "big")), hx(v)])
        if acc is None:
            if store:
                out.append([bytes(a).hex(), "", "", "", store])
            continue
        out.append([bytes(a).hex(), hx(acc.nonce) or "00", hx(acc.balance), bytes(acc.code).hex(), store])
    return out


def block_env(fk, blk, s):
    vm = mod(fk, "vm")
    ft = mod(fk, "fork_types")
    kw = dict(chain_id=U64(unint(blk["chainId"])), state=s, block_gas_limit=Uint(blk["gasLimit"]),
              block_hashes=[Bytes32(unhex(h)) for h in blk["hashes"]],
              coinbase=ft.Address(unhex(blk["coinbase"])), number=Uint(unint(blk["number"])),
              time=U256(unint(blk["time"])))
    if fk < PARIS:
        kw["difficulty"] = Uint(unint(blk["difficulty"]))
    else:
        kw["prev_randao"] = Bytes32(unhex(blk["randao"]))
    if fk >= LONDON:
        kw["base_fee_per_gas"] = Uint(unint(blk["baseFee"]))
    if fk >= CANCUN:
        kw["excess_blob_gas"] = U64(unint(blk["excess"]))
        kw["parent_beacon_block_root"] = Bytes32(unhex(blk["beaconRoot"]))
    return vm.BlockEnvironment(**kw)


class Tracer:
    def __init__(self, limit=200000):
        self.ev = []
        self.limit = limit

    def __call__(self, evm, event):
        if type(event) is not trace_mod.OpStart:
            return
        if len(self.ev) >= self.limit:
            raise MemoryError("trace too long")
        stk, mem = evm.stack, evm.memory
        n = len(stk)
        t = [hx(stk[n - 1 - i]) if n > i else "-" for i in range(3)]
        ret = getattr(evm, "return_data", b"")
        dg = keccak(b"".join([int(x).to_bytes(32, "big") for x in stk[-32:]]) + bytes(mem))[:4].hex()
        self.ev.append([min(int(evm.pc), MAXINT), event.op.value, min(int(evm.gas_left), MAXINT),
                        int(evm.message.depth), n, len(mem), len(ret), int(evm.refund_counter)] + t + [dg])


NOEXP = dict(crash="", bad="", state=[], gas=0, blobGas=0, receipts=[], requests=[], stateRoot="",
             receiptsRoot="", txRoot="", bloom="", withdrawalsRoot="", requestsHash="",
             err=False, out="", logs=[])


def enc_receipt(fk, r):
    return bytes(r) if isinstance(r, (bytes, bytearray)) else rlp.encode(r)


def block_tx(fk, t):
    """the transaction as it stands in a block of the fork"""
    b = tx_bytes(t)
    T = mod(fk, "transactions")
    if fk < BERLIN:
        return rlp.decode_to(T.Transaction, b)
    return rlp.decode_to(T.LegacyTransaction, b) if t["type"] == 0 else Bytes(b)


def run_block(sc, traced=True, tracer=None):
    """returns (trace, exp)"""
    fk = sc["fork"]
    fork, trie, st = mod(fk, "fork"), mod(fk, "trie"), mod(fk, "state")
    exp = dict(NOEXP)
    s = build_state(fk, sc["pre"])
    env = block_env(fk, sc["blk"], s)
    tr = Tracer()
    old = trace_mod.set_evm_trace(tracer or tr) if traced else None
    try:
        try:
            if sc["msg"]:
                return tr.ev, run_msg(fk, sc["msg"][0], env, s, exp)
            try:
                txs = [block_tx(fk, t) for t in sc["txs"]]
            except RLPException:
                sc["traced"] = False      # the block cannot even be decoded
                raise
            if fk < PARIS:
                out = fork.apply_body(env, tuple(txs), tuple(mk_ommer(fk, o) for o in sc["ommers"]))
            elif fk < SHANGHAI:
                out = fork.apply_body(env, tuple(txs))
            else:
                W = mod(fk, "blocks").Withdrawal
                ft = mod(fk, "fork_types")
                ws = tuple(W(index=U64(unint(w["index"])), validator_index=U64(unint(w["validator"])),
                             address=ft.Address(unhex(w["addr"])), amount=U256(unint(w["amount"])))
                           for w in sc["withdrawals"])
                out = fork.apply_body(env, tuple(txs), ws)
        finally:
            if traced:
                trace_mod.set_evm_trace(old)
        exp["state"] = [] if sc.get("nostate") else dump_state(fk, s)
        exp["gas"] = int(out.block_gas_used)
        exp["blobGas"] = int(getattr(out, "blob_gas_used", 0))
        rc = []
        for i in range(len(sc["txs"])):
            rc.append(enc_receipt(fk, trie.trie_get(out.receipts_trie, rlp.encode(Uint(i)))).hex())
        exp["receipts"] = rc
        exp["requests"] = [bytes(r).hex() for r in getattr(out, "requests", [])]
        exp["stateRoot"] = bytes(st.state_root(s)).hex()
        exp["receiptsRoot"] = bytes(trie.root(out.receipts_trie)).hex()
        exp["txRoot"] = bytes(trie.root(out.transactions_trie)).hex()
        exp["bloom"] = bytes(mod(fk, "bloom").logs_bloom(out.block_logs)).hex()
        if fk >= SHANGHAI:
            exp["withdrawalsRoot"] = bytes(trie.root(out.withdrawals_trie)).hex()
        if fk >= PRAGUE:
            exp["requestsHash"] = bytes(mod(fk, "requests").compute_requests_hash(out.requests)).hex()
    except (EthereumException, RLPException) as e:
        exp["bad"] = type(e).__name__
    except Exception as e:  # noqa
        exp["crash"] = type(e).__name__ + ": " + str(e)[:200]
    finally:
        st.close_state(s)
    return tr.ev, exp


def mk_ommer(fk, o):
    H = mod(fk, "blocks").Header
    ft = mod(fk, "fork_types")
    z = Bytes32(bytes(32))
    kw = dict(parent_hash=z, ommers_hash=z, coinbase=ft.Address(unhex(o["coinbase"])), state_root=z,
              transactions_root=z, receipt_root=z, bloom=mod(fk, "fork_types").Bloom(bytes(256)),
              difficulty=Uint(1), number=Uint(unint(o["number"])), gas_limit=Uint(5000), gas_used=Uint(0),
              timestamp=U256(1), extra_data=Bytes(b""), mix_digest=z, nonce=Bytes8(bytes(8)))
    if fk >= LONDON:
        kw["base_fee_per_gas"] = Uint(7)
    return H(**kw)


def run_msg(fk, g, env, s, exp):
    """process_message on a hand-built message"""
    vm, ft, st = mod(fk, "vm"), mod(fk, "fork_types"), mod(fk, "state")
    interp = mod(fk, "vm.interpreter")
    A = lambda x: ft.Address(unhex(x))
    te = dict(origin=A(g["origin"]), gas_price=Uint(unint(g["gasPrice"])), gas=Uint(g["gas"]),
              index_in_block=Uint(0), tx_hash=None)
    if fk >= BERLIN:
        te.update(access_list_addresses=set(), access_list_storage_keys=set())
    if fk >= CANCUN:
        te.update(transient_storage=st.TransientStorage(), blob_versioned_hashes=())
    if fk >= PRAGUE:
        te.update(authorizations=())
    tx_env = vm.TransactionEnvironment(**{k: v for k, v in te.items()
                                          if k in vm.TransactionEnvironment.__dataclass_fields__})
    to = A(g["to"])
    kw = dict(block_env=env, tx_env=tx_env, caller=A(g["caller"]), target=to, current_target=to,
              gas=Uint(g["gas"]), value=U256(unint(g["value"])), data=Bytes(unhex(g["data"])), code_address=to,
              code=st.get_account(s, to).code, depth=Uint(g["depth"]), parent_evm=None,
              should_transfer_value=g["xfer"], is_static=g["static"],
              accessed_addresses={A(a) for a in g["aA"]},
              accessed_storage_keys={(A(a), Bytes32(unint(k).to_bytes(32, "big"))) for a, k in g["aK"]},
              disable_precompiles=False)
    msg = vm.Message(**{k: v for k, v in kw.items() if k in vm.Message.__dataclass_fields__})
    evm = interp.process_message(msg)
    exp["err"] = evm.error is not None
    exp["gas"] = int(evm.gas_left)
    exp["out"] = bytes(evm.output).hex()
    exp["logs"] = [] if exp["err"] else [rlp.encode(l).hex() for l in evm.logs]
    exp["state"] = dump_state(fk, s)
    return exp

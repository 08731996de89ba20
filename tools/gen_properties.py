"""Regenerates /verif/properties.jsonl (run by hand)."""
import json, os
ALL = "src/ethereum/*/"
NONE = "The stable tests only run ethash, genesis hashes, an optimized-state smoke test, lint tools and the T8N trace-flag parser; none of them executes this path"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

p("P01", "A failed call or creation frame leaves nothing behind but spent gas",
  "In every fork, when a call or creation frame ends in an exceptional halt or a revert, balances, nonces, code, storage, transient storage, logs, refunds, the set of warm addresses and slots and the set of accounts scheduled for deletion are exactly what they were when the frame started, whatever nested frames did in between. An exceptional halt consumes all gas given to the frame and returns no data; a revert returns its data and its unused gas. A failed transaction still pays for its gas and increments the sender's nonce.",
  ["programs", "inputs", "configurations"], "every program, nesting of frames, point of failure and fork",
  NONE + "; nesting and failure points are unbounded.",
  [ALL+"vm/interpreter.py", ALL+"state.py", ALL+"vm/__init__.py", ALL+"vm/instructions/system.py"],
  [("snapshot/commit/rollback of state and transient storage", "state.py begin_transaction/rollback_transaction/commit_transaction"),
   ("child frame incorporation", "vm/__init__.py incorporate_child_on_success/on_error"),
   ("frame execution and error handling", "vm/interpreter.py process_message/process_create_message/execute_code")],
  ["post-state of the transaction", "receipts", "per-instruction trace"])
p("P02", "Ether is conserved: balances only change by the protocol's explicit rules",
  "Over any transaction or block, the sum of all balances changes only by the mining rewards and withdrawals credited, the base fee and blob fee burned, and the balance destroyed with a self-destructed account. A value transfer debits the payer and credits the payee by exactly the same amount, once, and never takes a balance below zero or past the 256-bit range. A transfer that cannot be paid does not happen.",
  ["programs", "histories", "configurations"], "every block of transactions, every program moving value, every fork",
  NONE + "; conservation is a sum over unboundedly many interactions.",
  [ALL+"fork.py", ALL+"state.py", ALL+"vm/interpreter.py", ALL+"vm/instructions/system.py"],
  [("move_ether / set_account_balance", "state.py"), ("fee, refund and coinbase settlement", "fork.py process_transaction"),
   ("value checks in CALL/CREATE/SELFDESTRUCT", "vm/instructions/system.py")], ["post-state balances"])
p("P03", "Every instruction is charged exactly its fork's gas price",
  "In every fork, executing an instruction reduces the frame's gas by exactly the price of that instruction in that fork, including its dynamic part (memory expansion, words copied or hashed, exponent bytes, log bytes and topics). An instruction whose price exceeds the remaining gas does not take effect and its frame halts exceptionally, consuming all its gas. Gas left never increases except by the gas a finished sub-call hands back.",
  ["programs", "inputs", "configurations"], "every instruction, operand, memory size and fork",
  NONE + "; prices depend on operands and memory history.",
  [ALL+"vm/gas.py", ALL+"vm/instructions/*.py"],
  [("charge_gas and memory expansion cost", "vm/gas.py"), ("per-instruction charges", "vm/instructions/")],
  ["per-instruction trace gas", "gas used in receipts"])
p("P04", "Storage writes are priced and refunded by the slot's history",
  "The price and refund of a storage write depend only on the slot's value at the start of the transaction, its current value, the new value, and from Berlin on whether it was already accessed, following the rules of the active fork. Refunds of a failed frame are discarded, the net refund of a transaction is never negative, and at most the fork's share of the gas used (a half, from London a fifth) is returned. A storage write with no more gas left than the call stipend fails from Istanbul on.",
  ["histories", "programs", "configurations"], "every sequence of writes to a slot across frames and transactions, in every fork",
  NONE + "; the rule is about histories of a slot.",
  [ALL+"vm/instructions/storage.py", ALL+"state.py", ALL+"fork.py", ALL+"vm/gas.py"],
  [("sstore", "vm/instructions/storage.py"), ("get_storage_original", "state.py"), ("refund cap", "fork.py process_transaction")],
  ["gas used", "per-instruction trace"])
p("P05", "Account and slot accesses are priced by the transaction's access set",
  "From Berlin on, the first access in a transaction to an address or a storage slot costs the cold price and every later one the warm price. The sender, the recipient or created contract, the precompiles, the access-list entries, and from Shanghai the fee recipient start warm, and nothing else does. Entries added by a frame that fails become cold again, those of a frame that succeeds stay warm.",
  ["histories", "programs", "configurations"], "every access sequence, nesting, access list and fork since Berlin",
  NONE + "; access sets are a property of histories.",
  [ALL+"vm/instructions/environment.py", ALL+"vm/instructions/storage.py", ALL+"vm/instructions/system.py", ALL+"utils/message.py"],
  [("accessed_addresses / accessed_storage_keys", "vm/__init__.py, vm/instructions/"), ("initial sets", "utils/message.py prepare_message, fork.py process_transaction")],
  ["per-instruction trace gas"])
p("P06", "Calls forward bounded gas, a stipend only with value, and to depth 1024",
  "A call gives its callee the requested gas, from Tangerine Whistle on limited to all but one 64th of what remains, plus a stipend of 2300 only when value is transferred, and returns exactly what the callee did not use. A call or creation that would exceed depth 1024 or the caller's balance fails without executing and hands back its gas. The callee sees the caller, address, value, input and code that its call kind prescribes, and the caller sees success, the returned data and the memory window it asked for.",
  ["programs", "inputs", "configurations"], "every call kind, gas amount, value, depth, window and fork",
  NONE + "; depths and gas amounts are unbounded.",
  [ALL+"vm/instructions/system.py", ALL+"vm/gas.py", ALL+"vm/interpreter.py"],
  [("calculate_message_call_gas / max_message_call_gas", "vm/gas.py"), ("generic_call and call kinds", "vm/instructions/system.py")],
  ["per-instruction trace", "post-state"])
p("P07", "Nothing reached through a static call can modify state",
  "While any enclosing frame was entered by a static call, no storage or transient write, log, contract creation, self-destruct or value-bearing call takes effect at any depth below it, whatever kinds of calls are nested inside; attempting one fails the frame that attempts it. Reading remains possible, and the frame that made the static call is itself not restricted afterwards.",
  ["programs", "configurations"], "every program and nesting below a static call, every fork since Byzantium",
  NONE + "; the restriction must hold at every nesting.",
  [ALL+"vm/instructions/system.py", ALL+"vm/instructions/storage.py", ALL+"vm/instructions/log.py"],
  [("is_static propagation and checks", "vm/instructions/")], ["post-state", "receipts", "trace"])
p("P08", "Contract creation yields the prescribed address, nonce, code and failures",
  "Creating a contract places it at the address determined by creator and nonce (or creator, salt and init code), increments the creator's nonce even when init code fails, and deploys exactly the returned code after paying the deposit. Creation at an address with code, a nonce or storage, with too long or forbidden code, too long init code, or unaffordable deposit fails as the active fork prescribes, and never overwrites an existing contract. The new account starts with the fork's initial nonce, empty storage and its prior balance plus the endowment.",
  ["programs", "inputs", "configurations"], "every creation, by transaction or instruction, in every fork",
  NONE + "; collisions and limits need specific histories.",
  [ALL+"vm/interpreter.py", ALL+"vm/instructions/system.py", ALL+"utils/address.py", ALL+"state.py"],
  [("process_create_message", "vm/interpreter.py"), ("generic_create", "vm/instructions/system.py"), ("compute_contract_address", "utils/address.py")],
  ["post-state", "trace"])
p("P09", "Self-destruct moves the balance and deletes the account as the fork says",
  "Self-destructing sends the whole balance to the beneficiary at once and ends the frame successfully. Until Cancun the account disappears at the end of the transaction with its code, nonce, storage and any later received balance; from Cancun on only when it was created in the same transaction, and otherwise it keeps everything but its balance. A self-destruct in a failed frame does nothing.",
  ["programs", "histories", "configurations"], "every program, beneficiary (including itself), nesting and fork",
  NONE + "; the outcome depends on the whole transaction's history.",
  [ALL+"vm/instructions/system.py", ALL+"fork.py", ALL+"state.py"],
  [("selfdestruct", "vm/instructions/system.py"), ("accounts_to_delete", "vm/__init__.py, fork.py")], ["post-state", "gas used"])
p("P10", "Touched empty accounts vanish from Spurious Dragon on, and only those",
  "From Spurious Dragon on, an account that a transaction, reward or withdrawal touches and leaves with zero nonce, zero balance and no code is not part of the state afterwards, unless the touching frame failed (with the historical exception of the RIPEMD-160 precompile). Before Spurious Dragon such accounts stay. No account that is non-empty or untouched is ever removed other than by self-destruct. (From Paris on no state holds an untouched empty account.)",
  ["programs", "histories", "configurations"], "every way of touching an account and every fork",
  NONE + "; touching happens on many paths.",
  [ALL+"fork.py", ALL+"state.py", ALL+"vm/interpreter.py", ALL+"vm/__init__.py"],
  [("touched_accounts / destroy_touched_empty_accounts", "state.py, vm/__init__.py, fork.py")], ["set of existing accounts in the post-state"])
p("P11", "Arithmetic, comparison, bit and hash instructions compute the EVM result",
  "Every arithmetic, signed and modular arithmetic, comparison, bitwise, shift, count and hashing instruction replaces its operands by the mathematically specified 256-bit result for all operand values, including zero divisors, the most negative number, out-of-range indices and shifts of 256 or more.",
  ["inputs", "configurations"], "all 256-bit operand tuples, every fork",
  NONE + "; operand spaces are 2^256 and larger.",
  [ALL+"vm/instructions/arithmetic.py", ALL+"vm/instructions/bitwise.py", ALL+"vm/instructions/comparison.py", ALL+"vm/instructions/keccak.py"],
  [("instruction bodies", "vm/instructions/"), ("two's complement conversions", "ethereum_types U256, utils/numeric.py")], ["stack after each instruction"])
p("P12", "Control flow, stack, memory and data windows behave as specified",
  "Execution proceeds instruction by instruction, jumps only to jump destinations that are not push data, and halts exceptionally on invalid jumps, on popping an empty stack, and on a stack of more than 1024 items. Pushes, duplications and swaps move exactly the named items; memory, input, code and returned data read as zero past their end (except that reading past returned data fails), and memory grows only in whole words by the windows touched.",
  ["programs", "inputs", "configurations"], "every byte string as code, every offset and size, every fork",
  NONE + "; the space of programs is unbounded.",
  [ALL+"vm/runtime.py", ALL+"vm/stack.py", ALL+"vm/memory.py", ALL+"vm/instructions/control_flow.py", ALL+"vm/instructions/stack.py", ALL+"vm/instructions/memory.py", ALL+"vm/instructions/environment.py"],
  [("get_valid_jump_destinations", "vm/runtime.py"), ("memory_read_bytes/buffer_read", "vm/memory.py")], ["per-instruction trace", "returned data"])
p("P13", "Each fork has exactly its instructions, precompiles and environment values",
  "A byte is an executable instruction in a fork exactly if that fork or an earlier one introduced it, and any other byte halts the frame exceptionally; likewise an address acts as a precompile exactly from the fork that introduced it. Instructions reading the environment return the block's, transaction's and frame's values.",
  ["inputs", "configurations"], "all 256 bytes and all candidate precompile addresses in all forks, all environments",
  NONE + "; it is a statement over all forks at once.",
  [ALL+"vm/instructions/__init__.py", ALL+"vm/precompiled_contracts/mapping.py", ALL+"vm/instructions/environment.py", ALL+"vm/instructions/block.py"],
  [("op_implementation table", "vm/instructions/__init__.py"), ("PRE_COMPILED_CONTRACTS", "vm/precompiled_contracts/mapping.py")], ["trace", "post-state"])
p("P14", "A transaction is executed if and only if it is valid in its block",
  "A block with a transaction is accepted only if the transaction's type exists in the fork, its nonce equals the sender's, the sender has no code (from Prague on, none but a delegation) and can pay the maximal fee plus value, its gas limit covers the intrinsic cost (and calldata floor) and fits in the block's remaining gas and the fork's cap, its fee caps cover the base and blob base fee, and its size, blob and authorization fields obey the fork. Every transaction satisfying these conditions is executed, and a rejected one changes no account.",
  ["inputs", "histories", "configurations"], "every transaction, sender state, block position and fork",
  NONE + "; validity depends on sender state and position in the block.",
  [ALL+"fork.py", ALL+"transactions.py"],
  [("validate_transaction / calculate_intrinsic_cost", "transactions.py"), ("check_transaction", "fork.py")], ["block acceptance", "raised error", "state after rejection"])
p("P15", "A transaction acts only for the key that signed all of its content",
  "The sender of a transaction is the address of the key whose signature over the complete content (type, chain id, nonce, fees, gas, recipient, value, data and lists) it carries, so that altering any signed field or the signature changes the sender or makes it invalid. Out-of-range signature values, high-s signatures from Homestead on, and wrong chain ids or parities are rejected. Encoding and decoding a transaction, and its hash, preserve every field.",
  ["inputs", "configurations"], "all transactions, keys and signatures, every fork",
  NONE + "; forgery resistance is a statement over all messages.",
  [ALL+"transactions.py", "src/ethereum/crypto/elliptic_curve.py"],
  [("recover_sender, signing_hash_*", "transactions.py"), ("encode_transaction/decode_transaction", "transactions.py")], ["recovered address", "error"])
p("P16", "Fees: the sender pays for the gas used, tip and burn are split exactly",
  "For every executed transaction the sender pays exactly value transferred plus gas used times the effective gas price plus the blob fee, the fee recipient gains exactly gas used times the effective price less the base fee, and the rest is burned. Gas used is the gas limit minus what execution left minus the capped refund, at least the calldata floor from Prague on, and never more than the gas limit. Cumulative and block gas used add up over the transactions.",
  ["programs", "inputs", "histories", "configurations"], "every transaction type, price, outcome and fork, blocks with several transactions",
  NONE + "; settlement depends on execution outcomes.",
  [ALL+"fork.py", ALL+"transactions.py", ALL+"vm/gas.py"],
  [("process_transaction / process_refund_and_fees", "fork.py"), ("calculate_data_fee", "vm/gas.py")], ["balances", "receipts", "block gas used"])
p("P17", "Set-code authorizations delegate exactly the accounts that signed them",
  "From Prague on, each authorization in a set-code transaction with a matching chain id, a recoverable low-s signer whose nonce equals it and whose code is empty or a delegation sets that signer's code to the delegation (or clears it for the zero address) and increments its nonce; all others are skipped without effect. Delegations survive a failing execution, calls to a delegated account run the target's code once, without chaining, in the account's context at the additional access price, and existing accounts earn the refund.",
  ["programs", "inputs", "histories"], "every list of authorizations, order, signer state and call to a delegated account",
  NONE + "; authorizations interact with nonces, senders and each other.",
  ["src/ethereum/prague/vm/eoa_delegation.py", "src/ethereum/osaka/vm/eoa_delegation.py", "src/ethereum/osaka/vm/interpreter.py", "src/ethereum/osaka/vm/instructions/system.py"],
  [("set_delegation / access_delegation / recover_authority", "vm/eoa_delegation.py")], ["post-state", "gas used", "trace"])
p("P18", "Transient storage lives for one transaction and follows frame outcomes",
  "From Cancun on, transient storage is private to an account, readable by all frames of the same account in the transaction, zero at the start of every transaction, and never part of the state. Writes of a failed frame are undone, those of a successful frame are kept for the rest of the transaction.",
  ["programs", "histories"], "every sequence of reads, writes, calls and failures within and across transactions",
  NONE + "; lifetime is a property of histories.",
  ["src/ethereum/cancun/state.py", "src/ethereum/prague/state.py", "src/ethereum/osaka/state.py", "src/ethereum/osaka/vm/instructions/storage.py"],
  [("TransientStorage snapshots", "state.py"), ("fresh TransientStorage per transaction", "fork.py process_transaction")], ["trace", "post-state"])
p("P19", "Receipts and the bloom report exactly what the transactions emitted",
  "Each executed transaction yields one receipt, in order, with its outcome (a post-state root before Byzantium), cumulative gas, logs in emission order and a bloom filter with exactly the bits of its logs' addresses and topics; failed frames contribute no logs. The block's log bloom covers all its receipts, and receipts are encoded with their transaction's type.",
  ["programs", "histories", "configurations"], "every block of transactions, every log sequence, every fork",
  NONE + "; receipts summarise arbitrary executions.",
  [ALL+"fork.py", ALL+"bloom.py", ALL+"blocks.py", ALL+"vm/instructions/log.py"],
  [("make_receipt", "fork.py"), ("logs_bloom", "bloom.py"), ("log_n", "vm/instructions/log.py")], ["receipts", "receipts root", "bloom"])
p("P20", "A block is accepted if and only if every header and body rule holds",
  "A block extends the chain only if its header follows its parent (number, time, parent hash, gas limit bounds, extra-data size, gas used, fork-specific constant fields) and every commitment in it (state, transactions, receipts, withdrawals and requests roots, bloom, gas and blob gas used) equals the value obtained by executing its body. Changing any one of these fields makes the block invalid, every block satisfying all of them is accepted, and a rejected block is not added to the chain.",
  ["inputs", "histories", "configurations"], "every block, every single- or multi-field alteration of a valid block, every fork",
  NONE + "; it quantifies over all headers and bodies.",
  [ALL+"fork.py"], [("validate_header", "fork.py"), ("state_transition", "fork.py")], ["accept/reject of the block", "chain contents"])
p("P21", "The base fee follows the parent's gas usage",
  "From London on the base fee of a block is a function of its parent alone: unchanged when the parent used exactly its target, raised by at least one when above, lowered when below, by at most one eighth, and the initial value at the fork block. It never becomes negative, and a block with any other base fee is invalid.",
  ["inputs", "histories"], "all parent gas limits, gas used and base fees; all histories of blocks",
  NONE + "; bounds must hold for all integers.",
  ["src/ethereum/london/fork.py", ALL+"fork.py"], [("calculate_base_fee_per_gas", "fork.py")], ["block acceptance", "function value"])
p("P22", "Blob gas: excess, price and limits follow the fork's blob schedule",
  "From Cancun on the excess blob gas is the function of the parent the fork prescribes, the blob base fee is the prescribed exponential of the excess and never below one, blob transactions pay it per blob whether they succeed or not, and a block never carries more blob gas than the fork allows. A blob transaction needs at least one well-formed versioned hash, a recipient, and a blob fee cap that covers the price.",
  ["inputs", "histories", "configurations"], "all parents, excesses, blob counts and fees in Cancun, Prague and Osaka",
  NONE + "; the exponential must be exact for all excesses.",
  ["src/ethereum/cancun/vm/gas.py", "src/ethereum/prague/vm/gas.py", "src/ethereum/osaka/vm/gas.py", "src/ethereum/osaka/fork.py", "src/ethereum/utils/numeric.py"],
  [("calculate_excess_blob_gas / calculate_blob_gas_price", "vm/gas.py"), ("taylor_exponential", "utils/numeric.py"), ("blob checks", "fork.py check_transaction")], ["header acceptance", "function value", "balances"])
p("P23", "Difficulty follows parent, time gap, uncles and the delayed bomb",
  "Before the merge a block's difficulty is the fork's function of its number, timestamp, the parent's difficulty, timestamp and (from Byzantium) whether the parent has uncles, including the exponential term delayed by the fork's number of blocks; it is never below the minimum. A block with another difficulty is invalid.",
  ["inputs", "configurations"], "all numbers, timestamps and parent difficulties in each proof-of-work fork",
  NONE + "; the formula must be exact for all integers.",
  [ALL+"fork.py"], [("calculate_block_difficulty", "fork.py")], ["function value", "header acceptance"])
p("P24", "Uncles are valid recent non-ancestors and rewards are exact",
  "Before the merge a block may name at most two distinct uncles, each a valid header whose parent is one of the block's last six ancestors, that is neither an ancestor itself nor already named, and the miner and each uncle's beneficiary receive exactly the fork's rewards, depending on uncle count and age. Any other uncle list makes the block invalid.",
  ["inputs", "histories", "configurations"], "all chains, uncle lists, ages and proof-of-work forks",
  NONE + "; uncle validity depends on the chain's history.",
  [ALL+"fork.py"], [("validate_ommers", "fork.py"), ("pay_rewards", "fork.py")], ["block acceptance", "balances"])
p("P25", "Withdrawals credit exactly their amounts, after the transactions",
  "From Shanghai on every withdrawal of a block credits its address with its amount in gwei, in addition to any other balance change and after all transactions, without executing code, and the withdrawals root commits to the list in order. Zero-amount withdrawals leave no new empty account.",
  ["inputs", "histories"], "all lists of withdrawals, repeated and absent addresses, forks since Shanghai",
  NONE + ".",
  ["src/ethereum/shanghai/fork.py", "src/ethereum/cancun/fork.py", "src/ethereum/prague/fork.py", "src/ethereum/osaka/fork.py"],
  [("process_withdrawals", "fork.py")], ["balances", "withdrawals root"])
p("P26", "System calls and execution requests happen exactly as prescribed",
  "From Cancun on the beacon-root contract and from Prague the history contract are called once before the transactions, and from Prague the withdrawal and consolidation request contracts once after them, by the system address with the prescribed input and gas, outside the block's gas. The block's requests are the deposits logged by the deposit contract, in order, followed by the two contracts' outputs, empty ones omitted, and the requests hash commits to them; a missing or failing request contract or a malformed deposit log makes the block invalid.",
  ["programs", "histories", "configurations"], "all contents of the system contracts, logs and blocks, forks since Cancun",
  NONE + ".",
  ["src/ethereum/cancun/fork.py", "src/ethereum/prague/fork.py", "src/ethereum/osaka/fork.py", "src/ethereum/prague/requests.py", "src/ethereum/osaka/requests.py"],
  [("process_system_transaction", "fork.py"), ("parse_deposit_requests, compute_requests_hash", "requests.py")], ["requests", "requests hash", "storage of the system contracts"])
p("P27", "State and trie roots depend on the contents alone and commit to all of it",
  "The root of a trie, and the state and storage roots built from it, is the Merkle-Patricia root of its current key-value content: it does not depend on the order or history of insertions, overwrites and deletions, and it changes with every change of content. Reading a key returns what was last written to it, and writing the default value removes the key.",
  ["histories", "inputs"], "all sets of keys and values and all histories leading to them, every fork",
  NONE + "; canonicity quantifies over histories.",
  [ALL+"trie.py", ALL+"state.py"], [("patricialize / root / encode_internal_node", "trie.py"), ("state_root / storage_root", "state.py")], ["root hashes"])
p("P28", "Nested snapshots of the state restore or keep exactly what was written",
  "For any sequence of reads, writes, balance moves, account and storage deletions and nested begin, commit and rollback operations on the state, every read and the state root equal those of a plain map on which rolled-back operations never happened. The original value of a slot is its value when the outermost snapshot began, or zero for an account created since, for as long as that snapshot is open.",
  ["histories", "configurations"], "all operation histories up to any nesting, every fork's state",
  NONE + " except a two-case smoke test of the optimized state.",
  [ALL+"state.py"], [("begin_transaction/commit_transaction/rollback_transaction, get_storage_original, destroy_account, destroy_storage", "state.py")], ["values read", "state root"])
p("P29", "The database-backed state is indistinguishable from the reference state",
  "For any sequence of state operations, nested snapshots included, the optimized database-backed state returns the same values and the same state root as the reference in-memory state.",
  ["histories", "configurations"], "all operation histories over accounts, storage, deletions and nested snapshots",
  "The existing optimized-state tests run two fixed histories without deletions inside nested snapshots.",
  ["src/ethereum_optimized/state_db.py"], [("monkey-patched State API over LMDB", "ethereum_optimized/state_db.py get_optimized_state_patches")], ["values read", "state root"])
p("P30", "The transition tool computes the same result as the chain itself",
  "For any pre-state, environment and list of transactions that form a valid block, the transition tool yields the same post-state, state, transactions, receipts and withdrawals roots, bloom, gas used, receipts and requests as importing that block. Invalid transactions are reported as rejected, with the others' results as if the rejected ones were absent. Environment values that are not given follow from those of the parent as in a chain. The same holds when the tool is asked through its daemon.",
  ["inputs", "histories", "configurations"], "all pre-states, environments, transaction lists (with invalid ones) and forks",
  NONE + "; equality of two pipelines quantifies over all inputs.",
  ["src/ethereum_spec_tools/evm_tools/t8n/__init__.py", "src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py", "src/ethereum_spec_tools/evm_tools/t8n/env.py", "src/ethereum_spec_tools/evm_tools/daemon.py"],
  [("T8N.run / run_blockchain_test", "t8n/__init__.py"), ("Alloc/Env/Txs/Result", "t8n/t8n_types.py, t8n/env.py")], ["t8n JSON output"])
p("P31", "Exactly one fork is active for each block, in release order",
  "For every network schedule, the fork criteria are totally ordered and the active fork at a block is the last of the consecutive forks, from the first on, whose criteria the block's number and timestamp meet; along a chain, number and timestamp increasing, the fork never goes back. Discovery finds every fork once, in that order, and an unscheduled fork is never active.",
  ["inputs", "configurations"], "all block numbers, timestamps and schedules",
  NONE + "; ordering must hold for all pairs of criteria.",
  ["src/ethereum/fork_criteria.py", "src/ethereum_spec_tools/forks.py", "src/ethereum_spec_tools/sync.py"],
  [("ForkCriteria ordering and check", "fork_criteria.py"), ("ForkTracking.set_block, advance_block", "ethereum_spec_tools/sync.py"), ("Hardfork.discover / load", "ethereum_spec_tools/forks.py")], ["comparison and check results", "list of forks"])
p("P32", "Tracing never changes execution and reports each step faithfully",
  "Executing with any tracer installed gives the same state, receipts and gas as without one. The standard JSON trace has one line per executed instruction with its program counter, opcode, gas before it, cost, stack, depth and refund, and a final line with output and gas used, for every program including failing and nested ones. Once a traced run of the transition tool is over, later runs are not traced.",
  ["programs", "configurations"], "all programs and tracer options",
  "Only flag handling of the trace options is tested.",
  ["src/ethereum/trace.py", "src/ethereum_spec_tools/evm_tools/t8n/evm_trace/eip3155.py", "src/ethereum_spec_tools/evm_tools/t8n/evm_trace/count.py", "src/ethereum_spec_tools/evm_tools/t8n/evm_trace/group.py"],
  [("evm_trace hook", "ethereum/trace.py"), ("Eip3155Tracer", "t8n/evm_trace/eip3155.py")], ["trace lines", "post-state"])
p("P33", "Recent block hashes visible to contracts are those of the last 256 blocks",
  "The block-hash instruction returns the hash of the block with the given number if it is one of the (up to) 256 blocks before the current one on this chain, and zero otherwise, including the current and future numbers. The chain keeps enough recent blocks for this however long it grows.",
  ["histories", "inputs"], "all chain lengths and requested numbers, every fork",
  NONE + "; needs chains longer than the window.",
  [ALL+"fork.py", ALL+"vm/instructions/block.py"], [("get_last_256_block_hashes", "fork.py"), ("chain.blocks trimming", "fork.py state_transition"), ("block_hash", "vm/instructions/block.py")], ["stack after BLOCKHASH", "hash list"])
p("P34", "Precompiled contracts return the prescribed result for the prescribed gas",
  "For every input, a precompiled contract charges the gas its fork prescribes for that input and returns the mathematically specified output (padding short inputs as specified), or fails consuming all gas, or returns empty output, exactly in the cases its specification names. It has no other effect.",
  ["inputs", "configurations"], "all inputs of all precompiles in all forks",
  NONE + "; input spaces are unbounded.",
  [ALL+"vm/precompiled_contracts/*.py", "src/ethereum/crypto/*.py"], [("precompile implementations", "vm/precompiled_contracts/")], ["output", "gas", "success"])
p("P35", "Proof of work is recomputed exactly and binds header, nonce and mix",
  "The cache, dataset and hash functions of the proof of work compute the Ethash definition for every seed, size, header and nonce, and before the merge a header is accepted only when its mix digest is that of its own contents and nonce and the result does not exceed the target given by its difficulty.",
  ["inputs", "configurations"], "all headers, nonces, epochs and difficulties",
  "The tests compare a few fixed epochs and one mainnet header per fork; neighbouring headers and nonces are not tried.",
  ["src/ethereum/ethash.py", ALL+"fork.py"], [("hashimoto, generate_dataset_item, cache_size, dataset_size", "ethash.py"), ("validate_proof_of_work, generate_header_hash_for_pow", "fork.py")], ["function values", "header acceptance"])
p("P36", "Upgrading a chain to a fork keeps it intact; the DAO fork moves exact funds",
  "Applying a fork to a chain leaves every block, account and storage slot unchanged, except that the DAO fork moves the full balance of each listed account to the recovery contract, conserving the total. The first ten blocks of the DAO fork must carry its extra data, and no other block is required to.",
  ["histories", "configurations"], "all chains and states to which a fork is applied",
  NONE + ".",
  [ALL+"fork.py", "src/ethereum/dao_fork/dao.py"], [("apply_fork", "fork.py"), ("apply_dao", "dao_fork/dao.py"), ("extra-data rule", "dao_fork/fork.py validate_header")], ["state before and after", "header acceptance"])
p("P37", "Encodings of chain objects are exact, and built or loaded ones hold the input",
  "A block, header, transaction, receipt or withdrawal is decoded exactly if its bytes have the shape of its fork: the right fields in the right order, of the right widths, numbers without leading zeros, typed transactions of the fork's types only; anything else is rejected, and encoding the decoded object gives the same bytes and hash. A block assembled by the block builder b11r, and a header, transaction, block or state read from JSON, contains exactly the values written there, absent optional ones being the documented defaults.",
  ["inputs", "configurations"], "all byte strings, JSON documents and forks",
  NONE + "; the encodings are a function on all byte strings.",
  [ALL+"blocks.py", ALL+"transactions.py", "src/ethereum_spec_tools/evm_tools/b11r/*.py", "src/ethereum_spec_tools/evm_tools/loaders/*.py"],
  [("field order and widths", "blocks.py Header/Block/Withdrawal/Receipt"), ("typed transaction and receipt encodings", "transactions.py, blocks.py encode_/decode_"), ("block building", "b11r/__init__.py, b11r/b11r_types.py"), ("reading JSON", "loaders/fixture_loader.py, loaders/transaction_loader.py")],
  ["decoded objects, encodings and hashes", "output of b11r", "objects returned by the loaders"])
p("P38", "The genesis block is exactly what the configuration describes",
  "Given a genesis configuration, the chain starts with one block whose state is exactly the configured allocation and whose header carries the configured difficulty, extra data, gas limit, nonce and timestamp; every other field has the default of the fork, the commitments are those of the empty body and of that state, and the chain id is the configured one.",
  ["inputs", "configurations"], "all genesis configurations and forks",
  "The stable tests load only the mainnet configuration in Frontier, which has no code, storage or nonces, and none of the later forks' header fields.",
  ["src/ethereum/genesis.py", ALL+"blocks.py", ALL+"state.py"],
  [("reading the configuration", "genesis.py get_genesis_configuration"), ("building the block and state", "genesis.py add_genesis_block"), ("hex conversions", "genesis.py hex_or_base_10_str_to_u256, hexadecimal")],
  ["genesis header, state root and hash"])
p("P39", "A state test passes exactly when its own transaction gives its root",
  "The state-test tool runs every test of a file, in the order of the file, for every fork name it supports and no other. A case executes exactly the transaction that its indexes choose from the described data, gas limits, values and access lists, signed with the described key, on the described state and environment in the named fork, and passes exactly if the resulting state root is the expected one; the root it reports, on both outputs, is that root, and a transaction that is not valid leaves the state as it was.",
  ["inputs", "configurations"], "all state-test files, indexes, forks and options",
  NONE + ".",
  ["src/ethereum_spec_tools/evm_tools/statetest/__init__.py", "src/ethereum_spec_tools/evm_tools/t8n/*.py", "src/ethereum_spec_tools/evm_tools/utils.py"],
  [("reading cases and choosing by index", "statetest/__init__.py read_test_cases, run_test_case"), ("running one transaction on its own", "t8n/__init__.py run_state_test"), ("fork names", "utils.py get_module_name, get_supported_forks")],
  ["results on the output", "state roots on the error output"])
p("P40", "Following a provider has each block judged, once, in order, by its fork",
  "The sync tool takes the blocks of its RPC provider in order, without leaving out or repeating one, and gives each, exactly as the provider has it and read in the form of that fork, to the fork that the schedule of the network makes active at the block's number and timestamp, with the chain of the blocks before it (the last 255) and their state; a fork is applied to the chain before its first block and before block 1. It ends at the first block the fork rejects, at a block that is not the next one, at --stop-at or at the end of the chain, and at nothing else. This holds whichever RPC methods are used, in whatever order a batch is answered, and when the tool is stopped at any moment and started again on what it saved: it goes on from a block whose state is the one saved, no more than --gas-per-commit of gas is lost, and nothing at all after --stop-at.",
  ["inputs", "histories", "crash_points", "configurations"], "all chains, schedules, providers, stops and restarts (at most one fork becoming active within the last 255 blocks before a restart)",
  NONE + "; needs a provider, fork boundaries and restarts.",
  ["src/ethereum_spec_tools/sync.py", "src/ethereum_spec_tools/forks.py", "src/ethereum_optimized/state_db.py"],
  [("following forks", "sync.py ForkTracking, forks.py Hardfork.has_activated, load_from_json"), ("fetching and reading blocks", "sync.py BlockDownloader"), ("judging, saving and starting again", "sync.py Sync")],
  ["arguments of each fork's state_transition and apply_fork", "end of the process"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))

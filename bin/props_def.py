COMMON = "Sampled, not exhaustive: holds on every explored run; trusts the simulator's ledger, the seeded generator and revm/op-revm as execution substrate. "

PROPS.append(P("C01", "Replaying a committed block reproduces it exactly",
 "Take any block a sequencer committed, whatever it speculatively executed, discarded or re-ran on the way. Every node that executes the same block on the same parent state, with warm or cold memory, code returned eagerly or lazily, after a restart or after dying half-way through the block, obtains the same execution results, resource usage figures, receipts, block gas and post-state, also across protocol upgrades. The post-state a node persists equals the sum of the transaction outcomes it reported.",
 ["histories", "schedules", "crash_points", "configurations"],
 "all block histories, speculation schedules before commit, cache states, crash points and hardfork schedules",
 "Tests execute single transactions once on a fresh in-memory database; they never compare two executions of a block, and never cross a hardfork, restart or speculate in between.",
 ["block/executor.rs", "evm/mod.rs", "evm/execution.rs", "evm/context.rs", "system/oracle.rs", "sandbox/execution.rs"],
 [("block executor run/commit split", "block/executor.rs"), ("per-transaction reset of trackers", "evm/context.rs on_new_tx / on_new_block"), ("system contract deployment before the block", "system/*.rs")],
 note=COMMON + "Before Rex1 the sequencer does not speculate (documented detention carry-over).",
 observe=["transaction outcomes", "receipts", "persisted state"]))

PROPS.append(P("C02", "Storage and bucket-source failures are contained and retryable",
 "When the node's storage or the bucket-capacity source fails during the opening of a block or during a transaction, the caller gets an infrastructure error: never an execution result, never a verdict that the transaction is invalid, never a crash of the process. Nothing of the failed attempt remains: retrying on the same or on a restarted node gives exactly what a run without failures gives, for this and every later transaction.",
 ["fault_sequences", "crash_points", "programs", "histories"],
 "all programs and transactions, every failing operation (account, code, slot, block hash, bucket capacity), every position and burst length, at every point of a block history",
 "The tests run on an in-memory database that cannot fail; no error path of storage or SALT is exercised anywhere in the stable suite.",
 ["evm/instructions.rs", "evm/host.rs", "evm/execution.rs", "evm/mod.rs", "external/gas.rs", "sandbox/execution.rs", "block/executor.rs"],
 [("error slot in the context, checked when the frame returns", "evm/execution.rs"), ("storage-failure propagation in gas wrappers", "evm/instructions.rs"), ("finalisation of an aborted transaction", "evm/mod.rs")],
 level="fault_enumeration",
 note=COMMON + "Each transaction attempt arms one fault (kind, position, burst); the storage layer is assumed to return an error or the true value.",
 observe=["result of running a transaction", "post-state after retry"]))

PROPS.append(P("C03", "Block limits hold under any interleaving of execution and commit",
 "Transactions may be executed speculatively and committed, or dropped, in any order. A transaction is executed or committed only if its gas limit, encoded size and (deposits excepted) data-availability size respect the per-transaction limits and, added to what has been committed so far, the block's gas, size and data-availability budgets, and if the committed data size, state updates, compute gas and state growth are still below the block's limits, so that only one transaction can carry one of these four past its limit. A transaction within all of them is never refused for a limit, a refused one leaves no trace, and receipts report the running total of committed gas.",
 ["schedules", "configurations", "histories"],
 "all limit configurations including extreme values, all transaction mixes including deposits, all run/commit/discard interleavings",
 "The block-executor tests are not part of the stable suite and use one fixed order with a few hand-picked limits; none commits outcomes out of order.",
 ["block/limit.rs", "block/executor.rs"],
 [("pre-execution check repeated at commit time", "block/executor.rs run_transaction / commit_transaction_outcome"), ("post-execution check and accumulation", "block/limit.rs")],
 note=COMMON + "Whether deposits fill the data-availability budget is left open by the property.",
 observe=["admission decisions", "receipts", "post-state"]))

PROPS.append(P("C04", "Exceeding a per-transaction resource limit stops it cleanly and refunds its gas",
 "From MiniRex on, as soon as the data size, key-value updates, compute gas or state growth of a transaction exceeds its configured limit, no further instruction or call of it runs, at whatever depth: the transaction halts naming that resource with limit and usage, keeps no state change, value transfer or log besides its fee, nonce and delegations, and is charged only for gas actually spent before. A transaction that never exceeds a limit is never halted for one, and a contract cannot catch, hide or outlive the halt. Transactions whose callee is the keyless-deployment contract are not covered.",
 ["programs", "inputs", "configurations", "histories", "fault_sequences"],
 "all programs and call trees, all limit configurations, all positions at which a limit is crossed, after any history of speculative and aborted attempts",
 "Unit tests cross one limit with one hand-written contract; they do not vary the position (depth, instruction kind, frame boundary) at which the limit is crossed, nor combine limits.",
 ["limit/mod.rs", "evm/execution.rs", "evm/instructions.rs"],
 [("limit check after each recorded use", "limit/mod.rs check_limit"), ("halt at frame boundaries", "evm/execution.rs frame_init / frame_run / frame_return_result"), ("rescued gas", "limit/mod.rs rescue_gas")],
 note=COMMON + "The expected point of the halt comes from an independent metering model run in lock-step; two known findings are listed.",
 observe=["execution result", "halt reason", "gas used", "state delta"]))

PROPS.append(P("C05", "Reported resource usage is exactly what the metering rules say",
 "From MiniRex on, the reported usage of every transaction follows from what it did: data size (110 bytes, calldata, 20 bytes plus 32 per key of each access-list entry, 101 per authorization, 40 per written slot or updated account, log topics and data, deployed code), key-value updates (one per updated account or newly changed slot, given back when a slot returns to its original value), state growth (accounts created and zero slots set, given back when cleared) and compute gas (all gas except storage gas and gas handed to children). What a reverted call or creation recorded is dropped except its compute gas; the figures depend on nothing else, such as tracing, memory layout of the transaction, earlier attempts or restarts. Transactions whose callee is the keyless-deployment contract are not covered.",
 ["programs", "inputs", "histories", "fault_sequences", "configurations"],
 "all programs, transaction types and call trees, with any mix of success, revert and halt per frame, in any history",
 "Unit tests compare usage figures of a few dozen hand-written calls; usage is a sum over all paths of nested frames with reverts, which only a model run next to arbitrary programs can decide.",
 ["limit/data_size.rs", "limit/kv_update.rs", "limit/state_growth.rs", "limit/compute_gas.rs", "limit/mod.rs", "evm/instructions.rs", "evm/execution.rs"],
 [("frame-aware trackers", "limit/data_size.rs, kv_update.rs, state_growth.rs"), ("compute gas wrappers of every instruction", "evm/instructions.rs compute_gas_ext"), ("usage of code deposit and precompiles", "evm/execution.rs, evm/precompiles.rs")],
 note=COMMON + "The rules are written down a second time in the simulator's model, driven only by inspector callbacks and its own journal.",
 observe=["usage figures in the transaction outcome"]))

PROPS.append(P("C06", "Every operation costs exactly its compute price plus bucket-scaled storage gas",
 "From MiniRex on each instruction, call, creation, log, code deposit, precompile and transaction start costs the standard price plus storage gas: with m the capacity of the touched SALT bucket divided by 256, setting an originally zero slot costs 20,000(m-1), funding an empty account 25,000(m-1), creating a contract 32,000(m-1) (in MiniRex 2,000,000m for each), a log 3,750 per topic and 80 per byte, deployed code 10,000 per byte, calldata 40 more per token and its floor price 100 more per token, and from Rex every transaction 39,000. Nothing is charged twice or skipped at any depth, the gas used follows from these prices, refunds and the floor, and the capacity used is the one belonging to the block, however buckets grow from block to block and whatever ran before.",
 ["programs", "inputs", "configurations", "histories", "fault_sequences"],
 "all programs, transactions and bucket layouts, buckets growing while the chain runs, all rule sets from MiniRex, after any history of attempts",
 "Tests price single instructions against hand-computed numbers with constant buckets; they do not cover arbitrary sequences, the address/slot-to-bucket choice or changes over blocks.",
 ["external/gas.rs", "evm/instructions.rs", "evm/execution.rs", "constants.rs", "evm/precompiles.rs"],
 [("bucket multiplier", "external/gas.rs"), ("storage gas wrappers", "evm/instructions.rs storage_gas_ext"), ("intrinsic and floor gas", "evm/execution.rs validate"), ("code deposit", "evm/execution.rs after_frame_run_instructions")],
 note=COMMON + "Standard prices are those of the Prague/Osaka tables, written down in the simulator's model; two known findings are listed.",
 observe=["gas before and after each instruction", "gas used"]))

PROPS.append(P("C07", "Reading volatile data caps the compute gas of the whole transaction",
 "From MiniRex on, once a transaction at any depth reads block data (number, time, coinbase, difficulty/randao, gas limit, base fee, block hash, blob fee, blob hash), touches the fee recipient's account, or consults the oracle contract (calls it before Rex3, reads its storage from Rex3; not when the maintenance address does), its total compute gas is capped by the configured limit for that kind of data, the smaller one when both kinds were read, and a lower general limit stays in force. Exceeding the cap halts the transaction naming the data that was read, the cap and the usage, and refunds the gas not spent; a transaction that read nothing volatile is never capped. From Rex1 the cap ends with the transaction.",
 ["programs", "configurations", "histories", "fault_sequences"],
 "all programs and call trees, every way of reading volatile data, all cap configurations, any history of earlier transactions and attempts on the same executor",
 "Unit tests read one kind of volatile data at one depth; the cap is a whole-transaction statement over arbitrary orders of reads, frames, reverts and limits.",
 ["access/tracker.rs", "access/volatile.rs", "evm/host.rs", "evm/instructions.rs", "evm/execution.rs", "evm/context.rs", "limit/mod.rs"],
 [("volatile access tracking", "access/tracker.rs, evm/host.rs"), ("lowering the compute limit", "evm/instructions.rs volatile_data_ext, limit/mod.rs set_compute_gas_limit"), ("halt reason", "evm/execution.rs execution_result")],
 note=COMMON + "For the fee recipient reached by a call or as sender/recipient the cap is expected from the next capped-kind instruction on, as implemented. Two known findings are listed.",
 observe=["halt reason", "instructions executed after the cap", "gas used"]))

PROPS.append(P("C16", "A caller always keeps at least 2/100 of its gas when calling or creating",
 "From MiniRex on a call or contract creation hands the child the gas asked for, but at most what 98/100 of the caller's gas left after the instruction's own cost allows (rounded up), the value-transfer stipend coming on top; the caller keeps the rest, the child starts with exactly what it was given, and what the child does not use returns to the caller. This holds for CALL and the creations from MiniRex and for the other call kinds from Rex (in MiniRex these follow the standard 63/64 rule), at every depth.",
 ["programs", "inputs", "histories"],
 "all programs, gas requests and gas levels, at every depth, in any history",
 "The tests check the forwarded amount of a handful of calls; rounding, small gas levels, stipends and storage gas in front of the call vary over all programs.",
 ["evm/instructions.rs", "evm/execution.rs"],
 [("98/100 rule", "evm/instructions.rs forward_gas_ext")],
 note=COMMON,
 observe=["gas of child frames", "gas kept by the caller"]))

PROPS.append(P("C12", "System contracts and block-opening records are exactly as scheduled",
 "When a block opens, the oracle and its timestamp companion carry their released code from MiniRex on, the oracle its second version and the keyless-deployment contract its code from Rex2 on, and parent hash and beacon root are recorded where those history contracts exist; nothing else changes: balances, nonces and storage these accounts already had are kept. This holds on whichever block the fork falls, however often opening the block failed, was abandoned or repeated after a restart. Afterwards no transaction changes the code of these accounts, an opening that changes nothing writes nothing, and each of them is reported as read in every block.",
 ["histories", "configurations", "fault_sequences", "crash_points"],
 "all fork schedules, genesis contents of the protocol accounts, storage failures and restarts during block opening, traffic aimed at the protocol accounts",
 "The unit tests deploy on an empty database once; they do not cross a fork with live storage and balances, retry a failed opening or restart between openings.",
 ["system/oracle.rs", "system/keyless_deploy.rs", "block/eips.rs", "block/executor.rs"],
 [("deployment and upgrade before the block", "system/oracle.rs, system/keyless_deploy.rs"), ("history and beacon-root calls", "block/eips.rs"), ("opening outcomes", "block/executor.rs pre_execution_changes")],
 note=COMMON + "Released code is pinned by hash; one known finding is listed.",
 observe=["state changes of opening a block", "persisted state"]))

PROPS.append(P("C19", "Each block runs exactly the rules its timestamp schedules",
 "For every fork schedule, also with gaps, simultaneous, missing or out-of-order activations, and however the schedule was configured, the rule set, the latest fork and whether a block is the first of a fork follow from the block's timestamp: the latest configured active fork wins, and the first patch to MiniRex suspends its rules until the second one. The limits offered for a fork and the behaviour of the block (self-destruction, transaction price, keyless deployment, detention, growth and compute limits, code size, protocol address, oracle hints, carried detention, point evaluation) are those of that rule set. An executor for any other rule set is refused.",
 ["configurations", "histories", "crash_points"],
 "all fork schedules, block times and restarts, all rule sets",
 "Tests fix one rule set per test case; none derives it from a schedule over a run of blocks or compares it with how the block actually behaves.",
 ["block/hardfork.rs", "block/executor.rs", "block/limit.rs", "evm/spec.rs"],
 [("fork schedule to rule set", "block/hardfork.rs spec_id / hardfork / first_hardfork_block"), ("limits per fork", "block/limit.rs from_hardfork_and_block_gas_limit"), ("rule set check of the executor", "block/executor.rs new")],
 note=COMMON,
 observe=["answers of the fork schedule", "behaviour of probe transactions in each block"]))

PROPS.append(P("C15", "Attaching a tracer never changes execution",
 "Attach an observer to the executor and switch it on and off between any transactions: every result, resource figure, receipt and state change is identical to an unobserved run, and so is which transactions are refused, also when attempts in between were aborted by storage failures or the observer itself answers calls of accounts without code just as they would have ended. While on, the observer is shown a balanced trace (each opened call or creation is closed once, each instruction begins and ends once, the outermost call's ending matches the transaction's outcome, every log of a transaction outside a keyless-deployment sandbox is shown); while off it is shown nothing.",
 ["programs", "schedules", "fault_sequences", "histories"],
 "all programs and transactions, all on/off schedules of the tracer, all aborted attempts in between, restarts between blocks",
 "Tests attach an inspector to a few single calls; none compares a traced with an untraced run of the same history or toggles the tracer.",
 ["evm/mod.rs", "evm/execution.rs", "evm/factory.rs", "block/executor.rs"],
 [("separate inspected execution path with its own frame handling", "evm/execution.rs InspectorHandler / InspectorEvmTr"), ("inspector switch", "evm/mod.rs")],
 note=COMMON + "The tracer of the simulator reads; where it answers a call in the machine's place, it gives the answer the machine would give (zero value, no code), so that nothing may change.",
 observe=["transaction outcomes", "inspector callbacks", "persisted state"]))

PROPS.append(P("C17", "A transaction's outcome does not depend on what its executor did before",
 "Whatever the same block executor ran, dropped, repeated, refused or aborted on a storage failure before, executing a transaction gives exactly the result, resource usage and state change that a fresh executor gives on the same world state in the same block. Before Rex1 this holds except for the documented carry-over of a lowered compute limit after volatile data was read.",
 ["histories", "schedules", "fault_sequences", "programs"],
 "all sequences of prior attempts on the executor (committed, discarded, re-run, refused, aborted at any storage operation), all transactions",
 "Tests build a new EVM per transaction; leaks of per-transaction state between attempts cannot show.",
 ["evm/context.rs", "evm/mod.rs", "evm/execution.rs", "limit/mod.rs", "limit/compute_gas.rs", "limit/data_size.rs", "limit/kv_update.rs", "limit/state_growth.rs", "access/tracker.rs", "external/gas.rs"],
 [("reset at transaction start", "evm/context.rs on_new_tx, limit/mod.rs reset, access/tracker.rs reset"), ("clean-up after an aborted attempt", "evm/mod.rs")],
 note=COMMON + "Before Rex1 the check runs with detention limits switched off, which removes the documented exception.",
 observe=["transaction outcomes", "state deltas"]))

PROPS.append(P("C18", "What a block reports as accessed suffices to re-execute it statelessly",
 "The buckets and block hashes a block executor reports, together with the accounts and slots contained in the transaction outcomes and system steps, cover everything a node needs besides the L1 attributes contract and the fee recipients: a stateless node with only those reproduces the block exactly and reads nothing else. Reported block hashes carry the right values and no bucket is reported that was not consulted. This holds also when the sequencer ran, dropped or aborted other attempts in between.",
 ["programs", "histories", "schedules", "fault_sequences"],
 "all programs and blocks, all speculation and abort schedules before commit, all bucket layouts",
 "Tests check single entries of the access sets for single opcodes; completeness is a statement about every path that reads state.",
 ["external/gas.rs", "evm/context.rs", "evm/host.rs", "evm/instructions.rs", "evm/execution.rs", "sandbox/execution.rs", "block/executor.rs", "system/oracle.rs"],
 [("bucket access recording", "external/gas.rs, block/executor.rs get_accessed_bucket_ids"), ("block hash recording", "block/executor.rs get_accessed_block_hashes"), ("inspection reads go through the journal", "evm/instructions.rs, evm/host.rs")],
 note=COMMON,
 observe=["accessed bucket ids", "accessed block hashes", "transaction outcomes", "database reads of a replica"]))

PROPS.append(P("C20", "Merged state deltas equal committing the transactions one by one",
 "Take the state changes of the system steps and transactions of any run of a chain and fold them, in order but with any grouping, into one delta. Applying that delta once to the starting state, directly or through a node's state cache and persistence, gives exactly the state that committing the changes one by one gives, including accounts created, destroyed, recreated or only read on the way. No account mentioned in any of them disappears from the merged delta.",
 ["histories", "schedules"],
 "all histories of transactions and blocks, all groupings",
 "The unit tests merge two hand-made states; the property quantifies over histories of creation, destruction and recreation and over groupings.",
 ["evm/state.rs"],
 [("delta merge", "evm/state.rs merge_evm_state / merge_evm_state_optional_status")],
 note=COMMON,
 observe=["merged state delta", "persisted state"]))

PROPS.append(P("C09", "Value is conserved: only transfers, fees and mints change balances",
 "After every transaction the balance of every account is what it was before plus value it received minus value it sent in calls, creations and self-destructions that were not undone, minus the fees of its sender (gas used at its effective price, data fee and operator fee), plus those fees at the fee recipient and vaults, plus a deposit's mint; whether the transaction succeeded, reverted, halted, hit a resource limit or deployed keylessly. Transactions of the protocol address from MiniRex on and deposits pay no fee, and a failed deposit keeps its mint. The total changes only by mints and by contracts destroyed in the transaction that created them, over any chain of blocks with aborted, repeated and abandoned attempts and restarts.",
 ["programs", "histories", "fault_sequences", "crash_points"],
 "all programs and transactions, fee parameters, outcomes, aborted attempts and restarts",
 "Tests look at the balance of one or two accounts after one call; conservation is a statement about every account after every path.",
 ["evm/execution.rs", "evm/state.rs", "system/tx.rs", "sandbox/execution.rs", "sandbox/state.rs", "block/executor.rs"],
 [("fee payment, reimbursement and rewards", "evm/execution.rs handler"), ("protocol transactions turned into fee-free ones", "evm/execution.rs before_run"), ("merge of the keyless sandbox", "sandbox/execution.rs apply_sandbox_state"), ("gas given back after a limit halt", "evm/execution.rs last_frame_result")],
 note=COMMON + "For keyless deployments and the known late limit halt only the total is decided, not each account.",
 observe=["state deltas", "persisted balances", "transfers shown to an observer"]))

PROPS.append(P("C08", "The oracle answers from its service, else from storage, alike on every node",
 "From MiniRex on a read of an oracle slot yields what the off-chain service answers at that moment, or the stored value if it has none, and always costs a cold read, so that a node without the service obtains the same result, gas and state once the values are stored. From Rex2 on every hint call reaching the oracle contract, at any depth, is delivered to the service once, with the direct caller, topic and data, in order with the reads; before, none is. Only transactions of the protocol address change the oracle's storage or make it log, and before MiniRex the service is never asked.",
 ["programs", "histories", "fault_sequences", "configurations"],
 "all programs reading, hinting and writing the oracle at any depth, all services whose answers change between transactions and on hints, all rule sets, aborted and repeated attempts",
 "Oracle and hint tests are not in the stable suite and use a static service; none compares a node with the service to one replaying without.",
 ["evm/host.rs", "evm/execution.rs", "external/oracle.rs", "system/oracle.rs"],
 [("service before storage, always cold", "evm/host.rs sload"), ("hint interception", "evm/execution.rs frame_init")],
 note=COMMON + "Hints with a non-canonical encoding may or may not be delivered; keyless deployments do not consult the service and are left out of the replay comparison.",
 observe=["values and prices of reads", "calls the service receives", "oracle storage and logs", "re-execution without the service"]))

PROPS.append(P("C11", "The protocol address can do maintenance, for free, and nothing else",
 "From MiniRex on a legacy transaction of the protocol address that calls the oracle contract is accepted whatever its nonce, price and balance, pays nothing, changes no account besides the oracle and its own nonce, which grows by one, and may be submitted repeatedly; a plain slot write with ample gas takes effect. Every other transaction from that address is refused and leaves no trace. No other sender is ever exempt from the nonce, price and funds checks, and before MiniRex the protocol address is an ordinary sender.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "all senders, transaction types, targets, nonces, prices, balances and rule sets, in any history with speculative and aborted attempts",
 "The system-transaction tests use a handful of fixed transactions on MiniRex; the exemption must neither leak to other senders nor fail under any fee market, nonce or balance.",
 ["system/tx.rs", "evm/execution.rs", "block/executor.rs"],
 [("recognition and whitelist", "system/tx.rs"), ("turned into a deposit-like transaction", "evm/execution.rs before_run")],
 note=COMMON + "Refusals because of the block's own limits are left to C03.",
 observe=["admission", "state deltas", "fees"]))

PROPS.append(P("C10", "A keyless deployment is the creation its signer signed, or nothing at all",
 "From Rex2 on a top-level call that deploys keylessly is either refused for a documented reason, leaving nothing behind but the caller's fee, or has exactly the effects, logs and gas of running the signed legacy creation on its own with the caller's gas limit: the code lands at the address of its signer at nonce zero, the signer pays value and fee, and its nonce becomes one. A creation that fails leaves the signer charged and nothing deployed, and the returned data says what happened. Nested calls and calls under earlier rule sets never deploy anything, and no signed creation is deployed twice.",
 ["programs", "inputs", "histories", "fault_sequences", "crash_points"],
 "all signed creations, well formed or not, all init code, signers and target addresses in any state, repeated and failing attempts, aborts and restarts",
 "Keyless tests are not in the stable suite and look at one field after one call; equality with the standalone creation is a statement about the whole ledger.",
 ["sandbox/execution.rs", "sandbox/state.rs", "sandbox/tx.rs", "sandbox/error.rs", "evm/execution.rs", "system/keyless_deploy.rs"],
 [("validation, sandbox, merge", "sandbox/execution.rs execute_keyless_deploy_call"), ("interception", "evm/execution.rs frame_init"), ("read-through state of the sandbox", "sandbox/state.rs")],
 note=COMMON + "Any documented reason that applies is accepted. The inner creation is priced without storage multipliers or oracle service. Outer transactions carrying authorizations are not decided; three known findings are listed.",
 observe=["state deltas", "logs", "returned data", "gas"]))

PROPS.append(P("C13", "What a transaction is not reported to have read cannot influence it",
 "After every execution the executor reports which block data (number, time, fee recipient, randomness, gas limit, base fee, block hashes, blob fee and hashes), whether the fee recipient's account and whether oracle data were read. Change everything not reported, and result, gas, resource usage, state changes and the report itself stay the same, whatever program ran at whatever depth, also inside a keyless deployment; block data the program never asked for is not reported. The report is about this transaction only, whatever was executed, dropped or aborted before.",
 ["programs", "histories", "configurations", "fault_sequences"],
 "all programs and transactions, all values of the unreported data, any earlier attempts on the same executor",
 "Tests assert one flag after one opcode; that the report is complete is a statement about pairs of worlds, for every program.",
 ["access/tracker.rs", "access/volatile.rs", "evm/host.rs", "evm/context.rs", "sandbox/execution.rs"],
 [("tracking in the host interface", "evm/host.rs"), ("reset and sender/recipient check per transaction", "evm/context.rs on_new_tx"), ("oracle access", "evm/host.rs sload, evm/execution.rs frame_init")],
 note=COMMON + "Fees, the fee recipient's own balance, and prices of writes to oracle slots are left out; oracle data is decided from MiniRex on and not for the protocol address; two known findings are listed.",
 observe=["access report", "results in pairs of worlds"]))

PROPS.append(P("C22", "Receipts, change feed and block gas report exactly what was committed",
 "A block's receipts are, in commit order, one per committed transaction and none for anything declined, dropped, refused or aborted: its kind, whether it succeeded, the gas committed so far, its logs and their filter, and for deposits the sender's nonce beforehand with version 1 (never for the protocol address's legacy transactions). A subscriber to state changes is told each block-opening step and each committed transaction once, in order, with its position, and nothing else; the sum of what it was told is the persisted state, and the block's gas is the sum of its transactions'. It makes no difference through which entry point of the executor transactions are run.",
 ["histories", "programs", "fault_sequences"],
 "all blocks, transaction kinds and outcomes, and all histories of speculative, declined, discarded, refused and aborted attempts through every entry point",
 "No stable test reads a receipt or subscribes to state changes.",
 ["block/executor.rs", "block/result.rs", "block/limit.rs"],
 [("receipt construction and feed", "block/executor.rs commit_transaction_outcome"), ("conditional commit", "block/executor.rs execute_transaction_with_commit_condition"), ("block result", "block/executor.rs finish")],
 note=COMMON,
 observe=["receipts", "state-change feed", "persisted state"]))

PROPS.append(P("C14", "Without an active MegaETH fork a block is an OP Stack block",
 "Before the first MegaETH fork, and while the first one is suspended, every block behaves exactly as the OP Stack (Isthmus) defines: the same transactions are accepted, the others are refused for the same reason, and results, gas, logs, state changes, receipts, block gas and the block-opening records are identical. None of the later resource limits, prices, detentions, oracle answers, hints, keyless deployments or maintenance privileges is in force, whatever is configured. This holds in any history of speculative, discarded, repeated and aborted attempts and restarts, and up to the very block that activates the fork.",
 ["programs", "histories", "fault_sequences", "configurations", "crash_points"],
 "all programs and transactions, all fork schedules with blocks before the first fork or in the suspension window, any attempts before, aborts and restarts",
 "Equivalence tests are a few fixed calls; equality with the upstream executor is a statement about every block.",
 ["evm/instructions.rs", "evm/execution.rs", "evm/host.rs", "evm/context.rs", "evm/precompiles.rs", "block/executor.rs", "block/eips.rs", "block/hardfork.rs"],
 [("features gated by rule set", "evm/execution.rs, evm/host.rs, evm/context.rs is_enabled(MINI_REX)"), ("instruction and precompile tables", "evm/instructions.rs, evm/precompiles.rs"), ("block executor written anew", "block/executor.rs, block/eips.rs")],
 note=COMMON + "The reference is the upstream block executor the library builds on, over the same simulated ledger; encoding and data-availability limits configured for the block are left to C03.",
 observe=["admission", "results and gas", "state deltas", "receipts", "persisted state"]))

PROPS.append(P("C21", "Rule sets change prices and limits, not what programs do",
 "Under every rule set a transaction that reads no gas counter, runs out of gas in no call and exceeds no limit or size of either side has the result, output, logs and state changes it would have on the OP Stack in the same state, at every call depth. Exempt are self-destruction before Rex2, the protocol address, keyless deployments, served oracle values and the fees that follow from gas. This holds whatever was speculated, discarded, repeated or aborted before on the same executor.",
 ["programs", "histories", "fault_sequences", "configurations"],
 "all programs and transactions over all rule sets, in any history of attempts",
 "Each replaced instruction has a test or two for its price; that its meaning is untouched for all stack, memory and call situations is a statement about every program.",
 ["evm/instructions.rs", "evm/execution.rs", "evm/host.rs", "evm/precompiles.rs", "limit/mod.rs"],
 [("instructions replaced by metered ones", "evm/instructions.rs"), ("frames intercepted for limits", "evm/execution.rs"), ("host interface", "evm/host.rs")],
 note=COMMON + "The reference is the upstream EVM on the state each transaction met. Transactions excluded by the conditions are counted in the evidence.",
 observe=["results", "logs", "state deltas"]))

PROPS.append(P("C23", "The EVM used on its own does what the block executor does with it",
 "An EVM created directly, however it was put together (factory or context, any order of setting environment, limits, data sources and database, with or without a do-nothing tracer, with an equivalent own precompile) and through whichever entry point it is used (run, run and commit, trace, replay), gives every transaction and every block-opening call the result, gas, resource usage and state changes it has in the block executor, and refuses what the executor's EVM refuses for the same reason. Without a fee recipient only the fee accounts differ, switching off admission checks changes nothing for a transaction that passes them, and an embedder's own precompiles answer under every rule set. Attempts that were refused or cut short by failing storage or data sources leave no trace, the buckets and block hashes it reports are those of the block, and it gives back the environment it was given.",
 ["programs", "histories", "configurations", "fault_sequences"],
 "all programs, transactions, limits, ways of assembling the EVM, sequences of entry points and aborted attempts",
 "Tests use one construction and one entry point each and compare nothing across them.",
 ["evm/interfaces.rs", "evm/factory.rs", "evm/mod.rs", "evm/context.rs", "evm/execution.rs"],
 [("entry points", "evm/interfaces.rs, evm/mod.rs execute_transaction"), ("assembly", "evm/factory.rs, evm/context.rs with_*"), ("traced twin of the handler", "evm/execution.rs inspect_*")],
 note=COMMON + "Several transactions in one unfinalised journal are left out (upstream's journal prices them differently); after an error of an entry point that keeps the journal, the simulated user drops the journal, as upstream asks.",
 observe=["results and gas", "usage", "state deltas", "persisted state", "reported buckets and block hashes"]))

ST = "/crates/state-test/src/"
PROPS.append(P("C24", "Parallel test runs report success only if every listed test really passed",
 "However many worker threads the state-test runner uses and however they interleave, each listed file is executed at most once, and success is reported exactly when every listed file was executed and passed; asked to keep going, it executes every file and counts each failing one once, and otherwise it stops soon after the first failure and reports a failure that really occurred; one thread executes files in the listed order. Files that vanish, are torn, unreadable or no test files, workers that crash and threads the system refuses to start never turn into reported success, never lose the result of another file and never hang the run. The same holds for the command line and its exit status, for any list of files and directories.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "all file lists, thread counts, interleavings of the workers at every lock, counter, read and exit, and all faults of files, threads and clock",
 "The runner has no test at all; its stable tests deserialise four fixtures.",
 [ST + "runner.rs", ST + "main.rs", ST + "lib.rs"],
 [("work queue and error count shared by the workers", "crates/state-test/src/runner.rs TestRunnerState, run_test_worker"), ("collection of the workers' results", "crates/state-test/src/runner.rs run"), ("once-only failure detail", "crates/state-test/src/runner.rs execute_test_suite")],
 note="Sampled, not exhaustive. Trusts the simulated threads, locks, atomics and clock (sequentially consistent) and the reference for what each file's verdict is.",
 observe=["returned result, exit status and error count", "files opened"]))

PROPS.append(P("C25", "State-test verdicts match Ethereum and the library for every test file",
 "A case of a state-test file passes exactly when executing its transaction from its pre-state under the named fork gives the stated post-state root, logs, output and acceptance: those of the Ethereum machine for Ethereum forks, and those the library computes under the fork's own rules, limits included, for MegaETH forks. The outcome the runner prints for a case (root, logs, output, gas, fork, verdict) is the computed one. Verdicts do not depend on the mode, on the threads, or on what was executed before.",
 ["inputs", "programs", "configurations", "histories"],
 "all test files (several units, forks and cases; every transaction kind, access lists, delegations, fee and block fields, absent fields, expected exceptions), all modes and orders",
 "No test executes a state test; only the deserialisation of four fixtures is tested.",
 [ST + "runner.rs", ST + "utils.rs", ST + "types/test.rs", ST + "types/test_unit.rs", ST + "types/test_authorization.rs", ST + "types/spec.rs", ST + "types/transaction.rs"],
 [("validation of one case", "crates/state-test/src/runner.rs execute_single_test, check_evm_execution"), ("transaction and block built from the file", "crates/state-test/src/types/test.rs, types/test_unit.rs"), ("roots", "crates/state-test/src/utils.rs")],
 note="Sampled, not exhaustive. The Ethereum reference is upstream revm at the fork the runner maps Ethereum forks to (Prague); roots are computed by alloy's trie.",
 observe=["verdict per file", "printed outcome per case"]))

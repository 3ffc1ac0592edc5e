#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run once by hand; the checks do not use it)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
O = "oracle/oracle.go"; B = "oracle/block.go"; N = "oracle/onchain.go"; M = "oracle/merklelizer.go"; A = "api/api.go"

prop("P01", "Conservation of funds: the pool never owes more or less than it got",
 "After every processed slot, the sum of every validator's claimable and pending balance plus the pool's own fees equals, to the wei, everything the pool has received: ether received by the contract (MEV rewards and donations), subscription deposits and priority fees of blocks proposed with the pool as fee recipient. No balance is ever negative. This holds for every history of proposals, subscriptions, donations, bans, exits and consolidations.",
 ["histories", "inputs"], "every sequence of blocks and contract events, every fee, every set of validators and balances",
 "Tests replay a few hand-written histories and compare final balances; the invariant quantifies over all histories and all wei amounts, including combinations inside one block.",
 [O, B], [("reward distribution returns remainders to the pool", O + " increaseAllPendingRewards"), ("collateral always credited somewhere", O + " handleManualSubscriptions"), ("donation / MEV separation", B + " GetDonations")],
 [("validators, pool fees", "liabilities", "oracle/types.go OracleState"), ("events and proposed blocks", "assets", "oracle/types.go OracleState")],
 ["Oracle.State() after Oracle.AdvanceStateToNextSlot"])

prop("P02", "Validator lifecycle follows the documented state machine",
 "A tracked validator changes status only along the documented edges and only for the documented cause: a missed slot moves it one card down (active, yellow card, red card), its own correct proposal moves it one card up, a proposal paying someone else or a ban event bans it, unsubscription or exit clean-up unsubscribes it, a valid subscription or a correct proposal (re)activates an unsubscribed one, and only an unban event reactivates a banned one. Every other validator keeps its status, and a validator that was never subscribed or never proposed for the pool is never tracked. Missed and wrongly paid slots are recorded exactly when they count against a subscribed validator.",
 ["histories", "inputs"], "every sequence of proposals, misses, subscriptions, unsubscriptions, bans, unbans and clean-ups for any set of validators",
 "Unit tests check single edges; combinations inside one block (subscribe and miss, ban and unban, unsubscribe and propose) and long histories are not enumerated.",
 [O], [("state machine", O + " advanceStateMachine"), ("event order within a block", O + " AdvanceStateToNextSlot")],
 [("validator status", "life-cycle state per validator", "oracle/types.go ValidatorInfo")], ["Oracle.State().Validators"])

prop("P03", "Rewards are split exactly by the rule of the fork in force",
 "Every distributed amount gives the pool its configured percentage (rounded down) and shares the rest among exactly the validators that are active or have one missed block: equally before the Electra fork and in proportion to effective balance at the processed slot after it, with all rounding remainders going to the pool. Red-carded, unsubscribed and banned validators receive nothing, and with nobody eligible the pool receives everything. The rule switches exactly at each network's fork slots.",
 ["inputs", "histories", "configurations"], "every amount, fee percentage, set of validators with any statuses and effective balances, every slot around each network's forks",
 "Tests use a few round amounts and equal balances; rounding, dominance of large balances and fork boundaries need all amounts.",
 [O], [("eligibility", O + " getEligibleValidators"), ("rule selection", O + " determineRewardMethod"), ("split", O + " increaseAllPendingRewards and handle*RewardDistribution")],
 None, ["pending rewards and pool fees in Oracle.State()"])

prop("P04", "Rewards become claimable only through the validator's own pool proposal",
 "A validator's claimable balance never decreases, and increases only when it proposes a block correctly paying the pool (by its whole pending balance, which then becomes zero) or when a superfluous subscription deposit of its own is returned to it. Nothing another validator does moves its pending balance to claimable or decreases it, except exit clean-up of that validator.",
 ["histories", "inputs"], "every history of blocks and events over any set of validators",
 "A per-step relation over all reachable states and all block contents; tests check final balances of a few scripted histories.",
 [O], [("consolidation", O + " consolidateBalance"), ("returned deposits", O + " increaseValidatorAccumulatedRewards")],
 None, ["accumulated and pending rewards in Oracle.State()"])

prop("P05", "A subscription counts only if valid, and its deposit always has a defined owner",
 "A subscription takes effect only if the validator exists, is in a state that may join, has execution withdrawal credentials, the transaction came from its withdrawal address, it is neither banned nor already subscribed, and the deposit reaches the required amount; then the deposit becomes pending reward of that validator. Otherwise nothing but the deposit moves: it is returned as claimable balance when the rightful owner subscribed a banned or already subscribed validator, and goes to the pool in every other case. Several subscriptions in one block are judged in order.",
 ["inputs", "histories"], "every validator state, credential type, sender, deposit amount and status of the validator, any number of events per block",
 "The decision has eight ordered criteria whose combinations are not enumerated by the tests.",
 [O], [("ordered checks", O + " handleManualSubscriptions"), ("joinable states", O + " CanValidatorSubscribeToPool")],
 None, ["Oracle.State() after a block with subscription events"])

prop("P06", "Only the withdrawal address can unsubscribe, and pending rewards are forfeited",
 "An unsubscription takes effect only if the validator exists, has execution withdrawal credentials, the sender is its withdrawal address and it is currently subscribed; anything else changes nothing. When it takes effect the validator becomes unsubscribed, keeps its claimable balance, and its whole pending balance is shared by the reward rule among the remaining eligible validators.",
 ["inputs", "histories"], "every sender, credential type, status, pending amount and number of unsubscriptions per block, after any history",
 "Tests cover isolated cases; interplay with proposals, subscriptions and bans of the same block is not covered.",
 [O], [("checks and forfeiture", O + " handleManualUnsubscriptions")], None, ["Oracle.State() after a block with unsubscription events"])

prop("P07", "Bans and unbans: who gets banned, what it costs and how it ends",
 "A subscribed validator that proposes a block whose reward goes elsewhere, or that governance bans, becomes banned and loses exactly its pending balance, which is shared by the reward rule among the validators still eligible; with several bans in one block the shares never go to a validator banned in that block. Validators that are not subscribed are never banned, bans and unbans take precedence over everything else in their block, and an unban makes a banned validator active again with its claimable balance intact.",
 ["inputs", "histories"], "every set of ban and unban events per block, repeated and overlapping targets, any statuses and balances",
 "Tests cover one or two bans; overlap of ban, unban, subscription and proposal for the same validator is not enumerated.",
 [O], [("wrong fee ban", O + " handleBanValidator"), ("governance bans", O + " handleManualBans / handleManualUnbans")], None, ["Oracle.State() after a block with ban events"])

prop("P08", "Each block is classified correctly and each received wei counted once",
 "A slot without block is a miss of the scheduled proposer; otherwise the reward is the MEV payment of the last transaction when its sender is the fee recipient or a whitelisted builder, else the priority fees; the proposal is correct exactly when that reward went to the pool, with legacy-credential proposers never being subscribed by it (their reward goes to the pool). Every payment the contract reports is counted exactly once, as MEV reward or as donation. A wrongly classified block is never charged to a validator that is not subscribed.",
 ["inputs"], "every last transaction (sender, recipient, value, contract creation, builder), fee recipient, set of received payments (equal amounts included), credential type and block version",
 "Tests use a few recorded blocks; equal payments, builder payments through contracts and all block versions are not enumerated.",
 [B, O], [("MEV detection", B + " MevRewardInWei"), ("classification", B + " SummarizedBlock, GetSentRewardAndType"), ("donations", B + " GetDonations")], None,
 ["FullBlock.SummarizedBlock through Oracle.State(), Oracle.State().Donations"])

prop("P09", "Priority-fee rewards equal what the protocol paid the proposer",
 "For a block without MEV payment, the reward is the sum over its transactions of gas used times effective gas price (legacy price, or base fee plus tip capped by the fee cap) minus gas used by the block times the base fee. Inconsistent data (missing or mismatching receipts, unknown transaction type) is an error and never yields a reward.",
 ["inputs"], "every list of transactions of every type, any gas price, tip, cap, base fee and gas used, any block version, receipts matching or not",
 "Tests check recorded mainnet blocks only; saturation and mismatching data are sampled at best.",
 [B], [("tip computation", B + " GetProposerTip"), ("saturation", "utils/utils.go SumAndSaturate")], None, ["FullBlock.GetProposerTip", "reward of proposed blocks in Oracle.State()"])

prop("P10", "Exited validators are cleaned up; consolidations move their pending rewards",
 "At each clean-up slot (and only there, from the first fork on) every tracked validator that is no longer active on the beacon chain and holds pending rewards is unsubscribed and what it had pending when the clean-up began leaves it: it moves to the consolidation target when a consolidation is pending (a banned target forfeits it to the others, an untracked target becomes tracked but not subscribed) and is otherwise shared by the reward rule among the remaining eligible validators. Active validators, claimable balances and banned validators' status are untouched, and the result does not depend on the order in which validators are visited.",
 ["inputs", "histories", "schedules"], "every set of validators with any beacon status, pending amounts and consolidation graph (chains, shared and exiting targets), every visiting order",
 "Tests exercise single consolidations; chains, shared targets and map-iteration orders are not covered.",
 [O], [("clean-up", O + " ValidatorCleanup")], None, ["Oracle.State() after clean-up slots"])

prop("P11", "Determinism: same chain, same state, same root",
 "Two oracles that process the same chain from the same start obtain identical states, state hashes, merkle roots and proofs, whatever the process, iteration order, time or number of restarts. Processing never changes the inputs it is given or shares amounts between validators by accident.",
 ["histories", "schedules"], "every chain history, every internal iteration order, repeated executions",
 "A test run executes one iteration order once; divergence needs repeated runs over histories with several validators.",
 [O, M, B], [("sorted leaves and ordered maps", M + " OrderByWithdrawalAddress"), ("state hash", O + " hashStateLockFree")], None, ["Oracle.StateWithHash()", "OnchainState.MerkleRoot"])

prop("P12", "Slots are processed once, in order, and a refused block changes nothing",
 "The oracle accepts only the block of the next slot, so every slot from deployment on is processed exactly once and in order; the latest processed block number follows the last slot that had a block. A block that is refused (wrong slot, unexpected governance change, data that cannot be obtained) leaves the state exactly as it was.",
 ["inputs", "histories", "fault_sequences"], "every offered slot number and block content, after any history, including refused blocks and failing clean-up queries",
 "Tests feed consecutive slots; refusal paths are checked for the error, not for an unchanged state.",
 [O], [("slot checks", O + " AdvanceStateToNextSlot"), ("governance checks", O + " validateFullBlockConfig")],
 [("latest/next slot", "position in the chain", "oracle/types.go OracleState")], ["Oracle.State()", "error of Oracle.AdvanceStateToNextSlot"])

prop("P13", "Governance parameters change only as scheduled",
 "Pool fee, fee recipient, checkpoint size and deposit used for accounting are those in force on chain at the processed slot: a fee event is accepted only at a scheduled slot with the scheduled value and takes effect for that very block, and any other governance event or a duplicate stops processing unless it confirms the configured value. After loading any saved state, the fee in use is the one scheduled for the slot of that state (the initial one before any schedule), whatever was loaded before.",
 ["inputs", "histories", "configurations"], "every combination of governance events at every slot, every saved state relative to the schedule, any sequence of loads (restart and rollback)",
 "Tests cover the schedule with single loads; rollback across a fee change and rejected blocks are not covered.",
 [O], [("schedule", O + " feeSchedule, validateFullBlockConfig, applyFeeScheduleUpTo"), ("load checks", O + " LoadFromBytes")], None, ["Config and Oracle.State() fee", "errors"])

prop("P14", "Merkle roots and proofs represent exactly the claimable balances",
 "For every state the tree has one leaf for the pool fee address (first) and one per distinct withdrawal address, case-insensitively, in ascending address order, each leaf holding all that belongs to its address: the claimable balances of its validators, and the pool's fees if it is the fee address; the root is the keccak tree over keccak(address, amount) leaves with sorted pairs, and every stored proof verifies against the root for exactly that leaf. With fewer than two leaves no root is produced. Each address has exactly one stored leaf and one stored proof.",
 ["inputs"], "every number of validators and addresses (odd and even), any sharing of addresses, letter case and amounts up to 256 bits",
 "Tests compare a few fixed roots; all tree sizes, sharing patterns and proofs are not covered.",
 [M, O], [("aggregation", M + " AggregateValidatorsIndexes"), ("tree", M + " GenerateTreeFromState"), ("proofs", O + " FreezeCheckpoint")], None, ["Merklelizer.GenerateTreeFromState", "OnchainState.Proofs and Leafs"])

prop("P15", "Checkpoints fall on schedule and are immutable snapshots",
 "A checkpoint is due exactly when the number of slots since deployment is a multiple of the checkpoint size. The frozen snapshot equals the validator state, root, leaves and proofs of its slot, and nothing processed later ever changes any frozen snapshot. The latest committed state is always the one with the highest slot.",
 ["histories", "inputs", "configurations"], "every deployment slot, checkpoint size and subsequent history",
 "Tests freeze once and compare immediately; aliasing bugs appear only after later mutations.",
 [O], [("schedule", O + " IsCheckpoint"), ("deep copy", O + " FreezeCheckpoint, utils/utils.go DeepCopy"), ("latest", O + " LatestCommitedSlot/State")], None, ["Oracle.State().CommitedStates"])

prop("P16", "A saved state loads back identical; foreign or altered states are refused",
 "Saving and loading reproduces the state exactly, down to amounts, events, blocks and frozen checkpoints, and the processing that follows is the same as without the round trip. A state whose content does not match its hash, or that belongs to another network, pool, fee address, deposit, checkpoint size or deployment, is refused and leaves the running oracle as it was.",
 ["histories", "inputs"], "every reachable state, every single-field alteration of a saved file, every configuration mismatch",
 "Tests round-trip small states and alter few fields.",
 [O, "oracle/types.go"], [("hash and configuration checks", O + " LoadFromBytes"), ("serialisation", "oracle/types.go Marshal/UnmarshalJSON")], None, ["Oracle.SaveToJson, LoadFromJson, LoadFromBytes, State()"])

prop("P17", "Restart and rollback resume as if nothing had happened",
 "Stopping the oracle at any moment and starting it again, or starting from any earlier saved state, leads to the same states, roots, proofs and frozen checkpoints at every later slot as an uninterrupted run. When the contract is behind the loaded state, the oracle falls back to a saved state not newer than the contract's slot, and refuses to start when there is none.",
 ["crash_points", "histories"], "every stop point (also between processing a checkpoint slot and publishing it), every saved file set, every contract slot",
 "Tests never restart the process; the property quantifies over stop points.",
 [O, "main.go"], [("save on signal and after checkpoints", "main.go main, mainLoop"), ("fallback", O + " LoadGivenState")], None, ["state files", "Oracle.State() after reload"])

prop("P18", "A crash while saving never loses the persisted state",
 "Whatever the moment at which the process dies or the disk refuses a write while the state is being saved, the state file found at the next start is either the complete previous one or the complete new one, and it loads. A failed save is reported and leaves the oracle able to continue.",
 ["crash_points", "fault_sequences"], "every prefix of the file-system operations of a save, disk-full and write errors at each of them",
 "Tests never interrupt a save.",
 [O], [("state file writing", O + " SaveToJson")], None, ["state.json and state_<slot>.json in the state folder"])

prop("P19", "Reports: right slot, right root, once, and only with permission",
 "An updater oracle submits exactly the root it froze for a checkpoint, only when that checkpoint is the next one due on the contract and it has not already voted for it, then waits until it is consolidated before going on and saves the state afterwards; a dry-run oracle never sends a transaction. With any number of oracles and any quorum, honest oracles never let two different roots or a skipped or repeated checkpoint consolidate, and a failed transaction is not taken for success.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of several oracles' reads, delays, submissions and restarts with the contract, every quorum, reverted transactions",
 "The main loop and the contract interaction have no tests at all.",
 ["main.go", N], [("submission protocol", "main.go mainLoop"), ("transaction", N + " UpdateContractMerkleRoot")], None, ["transactions sent to the execution client", "state files"])

prop("P20", "Served proofs always verify on chain and never overstate what can be claimed",
 "The proof served for an address is the one frozen for exactly the slot and root currently consolidated in the contract, so it verifies there; claimable equals the leaf amount minus what the contract says was claimed, and pending and validator list are those of the same checkpoint for the same address in any letter case. When the oracle does not hold that checkpoint, is not synced, the roots differ or the address is unknown, an error is returned instead.",
 ["inputs", "histories"], "every contract slot/root relative to the frozen checkpoints, every address and letter case, any claimed amount",
 "No test exercises the endpoint with an oracle and a contract.",
 [A], [("proof endpoint", A + " handleOnchainMerkleProof")], None, ["GET /onchain/proof/{address}"])

prop("P21", "The provisional view shows what finalization will make of the latest events",
 "For a withdrawal address, the validators endpoint lists every tracked or untracked validator of that address with its finalized state plus the effect of subscriptions and unsubscriptions not yet finalized, in block order, each judged by the same rules as the finalized processing: each event changes only the status and the deposit of its own validator (rewards shared by others come with finalization), and status and pending are what processing those events would give. When the events cannot be obtained completely an error is returned. Asking never changes the oracle's own state.",
 ["inputs", "histories"], "every finalized state, every sequence of later subscription and unsubscription events (senders, deposits, validators, same or different blocks)",
 "Tests check three hand-written event lists; the agreement with finalized processing is never compared.",
 [A], [("virtual state", A + " ApplyNonFinalizedState"), ("isolation", A + " handleMemoryValidatorsByWithdrawal deep copy")], None, ["GET /memory/validators/{address}", "ApiService.ApplyNonFinalizedState"])

prop("P22", "Read endpoints report the oracle's state faithfully and never crash it",
 "Each read endpoint returns exactly the corresponding part of the oracle's state: validators with their balances and statuses, blocks, donations, fees, configuration, sync status, registrations at the relays, and statistics whose totals are the sums and counts over that state (the last 30 days being 216000 slots). For every reachable state and every request (malformed ones included) the answer is a well-formed reply or error (an error when a parameter is malformed or the validator unknown), and neither the state nor the process is affected.",
 ["inputs", "histories"], "every reachable oracle state (also with no eligible validator) and every request parameter",
 "Endpoint handlers are untested; only parameter helpers are.",
 [A], [("handlers", A + " handleMemory*")], None, ["GET /memory/*, /config, /status"])

prop("P23", "Concurrent use never deadlocks, and published states are always loadable",
 "API readers, state dumps, saves and block processing can run concurrently in any interleaving without deadlock. Every state the oracle serves or saves is a consistent snapshot of a slot boundary whose hash matches its content, so another oracle can start from it.",
 ["schedules"], "every interleaving of readers, dumps, saves and block processing, including callers that fail",
 "Tests are single threaded.",
 [O, A], [("locking", O + " mutex in State, StateWithHash, SaveToJson, LatestCommitedState"), ("state endpoint", A + " handleState")], None, ["GET /state during processing", "Oracle API from several goroutines"])

prop("P24", "Fetched blocks are complete, and a failure is never mistaken for a missed slot",
 "For the requested slot the fetched block carries the scheduled proposer, its validator record at that slot, the beacon block if there is one, all pool events of exactly that block in log order with the validator records they need, and the receipts whenever the block concerns the pool. A slot is treated as missed only when the beacon node definitely has no block for it; any other failure is retried as configured or stops processing, and only finalized slots are processed, and none while a node says that it is not in sync.",
 ["inputs", "fault_sequences"], "every block content and every sequence of node errors, timeouts and odd answers at every request",
 "Tests need live nodes for this and are skipped or mocked; no failure is injected.",
 [N, "main.go"], [("fetch", N + " FetchFullBlock, GetConsensusBlockAtSlot, GetRetryOpts"), ("events", N + " Get*Events"), ("finalized only", "main.go mainLoop")], None, ["Onchain.FetchFullBlock against consensus and execution endpoints"])

prop("P25", "Reconciliation passes exactly when the books balance",
 "Off-chain reconciliation succeeds exactly when liabilities (claimable, pending, pool fees) equal assets (payments received, deposits, priority-fee proposals), and on-chain reconciliation exactly when liabilities minus claimed amounts equal the contract's balance; neither changes the state. A checkpoint whose books do not balance is never frozen, published or saved.",
 ["inputs", "histories"], "every state (balanced or off by any amount in any component), every claimed amount and contract balance",
 "Tests check one balanced and one unbalanced example.",
 [O, "main.go"], [("reconciliation", O + " RunOffchainReconciliation, RunOnchainReconciliation"), ("gate", "main.go mainLoop")], None, ["return values", "frozen checkpoints after a mismatch"])

prop("P26", "Start-up derives the configuration from the chain or refuses to run",
 "The configuration in use is the one the contract and the chain report: network from matching chain ids of both clients, deployment slot from the deployment block, checkpoint size, deposit, fee address, and the initial fee from the contract's initialization in the deployment block, whether it was called or came with the creation (the default of the network where there is none that can be read). The program refuses to start when clients disagree, the network is unknown, the deployment block does not match, or the updater key is not whitelisted or has no funds.",
 ["inputs", "configurations"], "every deployment transaction layout, every chain id pair, fee value and contract configuration",
 "Start-up needs live nodes; only the fee decoder has a few unit cases.",
 [N, "main.go", "config/config.go"], [("configuration", N + " GetConfigFromContract, decodeInitialPoolFee, NewOnchain"), ("gates", "main.go main")], None, ["Onchain.GetConfigFromContract result", "process exit"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))

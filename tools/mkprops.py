import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=None)))
O="oracle/oracle.go"; B="oracle/block.go"; M="oracle/merklelizer.go"; T="oracle/types.go"; N="oracle/onchain.go"; U="utils/utils.go"; A="api/api.go"
def m(*xs): return [dict(name=a,where=b) for a,b in xs]
p("C01","Every wei received in a slot is credited exactly once",
 "Processing a slot successfully raises total liabilities (accumulated plus pending rewards of all tracked validators, plus pool fees) by exactly the wei the slot brought in: all subscription collateral, all ether-received amounts, and the tips of a vanilla block whose fee recipient is the pool. Every wei goes to exactly one validator balance or to the pool fees, and rounding never creates or loses any.",
 ["inputs","histories"],"every oracle state, every finalized block content (events, proposer, reward, duplicates and malformed subscriptions included) and every map iteration order",
 "Tests compare fixed scenarios with a few validators and rewards; the quantifier ranges over all validator sets, amounts, fee percentages, fork methods and event lists.",
 [O,B],m(("AdvanceStateToNextSlot and every handler it calls",O),("increaseAllPendingRewards and the three distribution methods",O),("GetDonations",B)),
 [dict(name="PoolAccumulatedFees, Validators[*].AccumulatedRewardsWei/PendingRewardsWei",meaning="liabilities",where=O)],["oracle state after each slot"])
p("C02","Shared rewards split by the fork's rule among eligible validators",
 "When an amount is shared, only validators that are active or on a yellow card gain pending rewards: each gains the same amount before Electra, and after Electra its effective balance's floor share, of what is left after the pool cut (fee percentage of the amount, rounded down). The pool gets the cut plus every rounding remainder, the whole amount when nobody is eligible, and no other balance, status or validator changes.",
 ["inputs","configurations"],"every amount, fee percentage 0-100%, validator set with any statuses and effective balances, network and slot (all three methods)",
 "Tests check a few concrete amounts and validator counts; rounding and eligibility have to be right for all of them, on all networks' fork slots.",
 [O],m(("increaseAllPendingRewards",O),("getEligibleValidators",O),("determineRewardMethod",O),("handleElectraRewardDistribution / handleFork1RewardDistribution / handlePreFork1RewardDistribution",O)))
p("C03","Validator status follows the specified state machine",
 "For each event (proposal ok, missed, wrong fee; manual or automatic subscription; unsubscription; manual ban and unban) the validator moves exactly as the specification's diagram says and any pair not in the diagram leaves it unchanged. No other validator, balance or field is touched, and an unknown validator changes nothing.",
 ["inputs"],"all 7 statuses x all events (any event value), all tracked sets, any validator index",
 "Tests list the transitions by hand; the claim includes every undefined pair, every other validator and field.",
 [O,"spec/README.md"],m(("advanceStateMachine",O)))
p("C04","Manual subscriptions: who gets in and where the collateral goes",
 "A subscription event makes a validator active exactly when the validator exists on the beacon chain, its status allows subscribing, its withdrawal credentials are of an execution-address type, the sender is that address, it is neither banned nor already subscribed, and the collateral reaches the required amount; its pending balance then grows by exactly the collateral. Otherwise the collateral goes to the validator's own accumulated balance if it was refused as already subscribed or banned, and to the pool fees in every other case, and nothing else changes.",
 ["inputs","histories"],"every list of subscription events of a block (repeated indices, any order) and every state of the validator set",
 "Tests give single or few events; one rule must hold per event for arbitrary sequences with events that change the outcome of later ones.",
 [O,U],m(("handleManualSubscriptions",O),("CanValidatorSubscribeToPool",O),("GetCompatibleAddressByte",U)))
p("C05","Only the withdrawal address can unsubscribe; pending is shared",
 "An unsubscription event changes the state only if its validator exists, has an execution-address withdrawal credential equal to the sender, and is currently subscribed. Then the validator becomes not subscribed, its pending balance is zeroed and shared by the reward-sharing rule among the others, and its accumulated balance and every other validator's status stay unchanged.",
 ["inputs","histories"],"every list of unsubscription events and every state",
 "Tests cover a handful of senders and one validator at a time.",
 [O,U],m(("handleManualUnsubscriptions",O),("GetCompatibleAddressByte / Equals",U)))
p("C06","Bans forfeit pending to the others and stick until unbanned",
 "A wrong fee recipient by a subscribed validator or a manual ban of a subscribed validator makes it banned, zeroes its pending balance and shares it among the remaining eligible validators, keeping its accumulated balance; manual bans of a block are applied before any of their pending is shared. A banned validator leaves that status only by a manual unban (then active), bans of validators that are not subscribed and unbans of validators that are not banned change nothing.",
 ["inputs","histories"],"every list of ban and unban events, every state, every block",
 "Tests use short fixed sequences; the claim is for all event lists and states including repeated indices.",
 [O],m(("handleBanValidator, handleManualBans, handleManualUnbans",O),("advanceStateMachine",O)))
p("C07","Claimable balances never shrink and validators are never forgotten",
 "Processing a slot never lowers a validator's accumulated balance nor the pool fees, never makes any balance negative, and never stops tracking a validator or changes its index, key or withdrawal address.",
 ["inputs","histories"],"every state with non-negative balances and every block with non-negative amounts",
 "It is an invariant over all histories; tests look at end states of a few.",
 [O],m(("AdvanceStateToNextSlot and handlers",O)))
p("C08","A good proposal pays out, a missed one warns",
 "After a proposal that paid the pool from a validator with an execution withdrawal address, the proposer is tracked and (unless banned) subscribed automatically if it was not, the reward is shared by the sharing rule, and then its whole pending balance moves to its accumulated balance. A paying proposer with BLS credentials is not subscribed and the reward goes to the pool fees; a missed slot by a subscribed validator changes only its status and the record of missed blocks.",
 ["inputs"],"every state and every summarized block",
 "Tests use fixed blocks and validators.",
 [O],m(("handleCorrectBlockProposal, handleBlsCorrectBlockProposal, handleMissedBlock, addSubscription, consolidateBalance",O)))
p("C10","Slots are processed one by one, in order, exactly once",
 "A block is applied only if it is for the next expected slot (the last processed one plus one); then that slot becomes the last processed one and the following slot the next expected one, and the last processed block number changes only when a block was proposed. A block for any other slot is refused with an error and leaves the whole oracle state unchanged.",
 ["inputs","histories"],"every oracle state and every block",
 "Tests run consecutive slots; refusal must leave everything untouched for all states and blocks.",
 [O],m(("AdvanceStateToNextSlot",O)))
p("C11","Unannounced contract configuration changes are refused",
 "A block whose events change the fee recipient, checkpoint size or collateral to a different value, contain several of one such event, or change the pool fee except to the scheduled value at a scheduled slot of the network, is refused with an error. A scheduled fee change, and only that, sets the fee in both the configuration and the state, and the schedule entry that applies to a slot is the latest one at or before it.",
 ["inputs","configurations"],"every block content, configuration, network and slot",
 "Tests sample slots around the schedule entries.",
 [O],m(("validateFullBlockConfig, getFeeSchedule, applyFeeScheduleUpTo",O)))
p("C12","A saved state is loaded only if intact and for this configuration",
 "Loading replaces the oracle state only when the recorded hash equals the hash of the content and network, pool address, fee recipient, fee, collateral, checkpoint size and deployment slot and block all equal the configuration (the fee after applying the known schedule up to the saved slot). In every other case it reports an error (or not found) and the oracle's state is untouched.",
 ["inputs","configurations"],"every byte content of the state file and every configuration",
 "Tests tamper with a few fields; every field and every combination has to be checked.",
 [O],m(("LoadFromBytes, LoadFromPath, hashStateLockFree",O)))
p("C13","Status, block, reward and subscription kinds survive JSON",
 "Every defined validator status, block type, reward type and subscription type is written to JSON as its own distinct name and read back as the same value. Reading any other name is an error that leaves the target unchanged.",
 ["inputs"],"all values of the four enumerations and all strings",
 "Tests do not read back every value nor try arbitrary strings.",
 [T],m(("MarshalJSON/UnmarshalJSON/String of the four enumerations",T)))
p("C14","Merkle leaves hold exactly what each address can claim",
 "The leaf list starts with the pool fee recipient and its fees, followed by one leaf per distinct withdrawal address (ignoring case) holding the sum of the accumulated balances of its validators, in lower case, sorted by address. The leaves' total equals pool fees plus all accumulated balances, pending balances are never included, and building leaves does not modify the state.",
 ["inputs"],"every validator set, addresses and balances, every map iteration order",
 "Tests use small fixed validator sets; aggregation and order must be right for all and independent of map order.",
 [M],m(("AggregateValidatorsIndexes, OrderByWithdrawalAddress",M)))
p("C16","Proposer tip is the sum of effective tips minus the burnt base fee",
 "For a block with its header and matching receipts, the vanilla reward equals the sum over transactions of gas used times the gas price (legacy and access-list) or the smaller of fee cap and base fee plus tip cap (later types), minus block gas used times the base fee. If receipts or header are missing, counts differ, a receipt belongs to a different transaction, or a transaction cannot be decoded or has an unknown type, an error is returned and no reward.",
 ["inputs"],"every list of transactions and receipts, all fork versions",
 "Tests replay a few recorded blocks.",
 [B,U],m(("GetProposerTip",B),("SumAndSaturate",U)))
p("C17","Rewards and donations are told apart",
 "A block's reward is the last transaction's value as MEV when that transaction has a recipient and was sent by the block's fee recipient or a whitelisted builder (one recorded mainnet block has a fixed reward), otherwise the tips as vanilla reward if its fee recipient is the pool or its proposer is subscribed; it counts as paid to the pool exactly when the recipient of that reward is the pool. The recipient of an MEV reward is the contract of the first ether-received event of that amount, or the transaction's recipient if there is none. Donations are all ether-received events of the block except, when an MEV reward was paid to the pool, exactly one event carrying that amount, and a missed slot has none.",
 ["inputs"],"every block, events and proposer status",
 "Tests replay recorded blocks; equal amounts, empty blocks and contract-creation last transactions are rare inputs.",
 [B],m(("MevRewardInWei, GetSentRewardAndType, GetDonations, SummarizedBlock",B)))
p("C18","Block data must belong to the slot it is used for",
 "Consensus data, header, receipts and events are attached to a block only when they match it: same slot and proposer as the duty, same block number for the header, the (first of the) receipts and every event. The block number, slot, proposer, gas used, fee recipient and transactions reported are those of the fork version present.",
 ["inputs"],"every block of every fork version and every event list",
 "Tests build only matching data for few versions.",
 [B],m(("NewFullBlock, SetConsensusBlock, SetHeaderAndReceipts, SetEvents",B),("GetBlockNumber, GetSlot, GetProposerIndex, GetGasUsed, GetFeeRecipient, GetBlockTransactions",B)))
p("C19","Reconciliation passes exactly when books balance",
 "Onchain reconciliation succeeds exactly when all accumulated and pending rewards plus pool fees minus everything already claimed equals the contract balance. Offchain reconciliation succeeds exactly when the same liabilities equal all ether-received amounts plus all subscription collateral plus all vanilla block rewards, and neither changes the state.",
 ["inputs"],"every state, claimed map and balance",
 "Tests check one matching and one failing example.",
 [O],m(("RunOnchainReconciliation, RunOffchainReconciliation",O)))
p("C20","Checkpoints and sync status follow slots and roots exactly",
 "A checkpoint is due exactly when the slots processed since deployment are a multiple of the checkpoint size. The latest committed state is the one with the highest slot, and the oracle is in sync exactly when its root (ignoring case) and slot both equal the chain's, or when it has none and the chain has the default root; a match of only one of the two is an error.",
 ["inputs"],"every state, root and slot",
 "Tests sample a few slots and roots.",
 [O],m(("IsCheckpoint, LatestCommitedSlot, LatestCommitedState, IsOracleInSyncWithChain",O)))
p("C26","Withdrawal credentials are parsed strictly",
 "Only 32-byte credentials with prefix 0x01 or 0x02 followed by eleven zero bytes yield an execution address, which is then their last 20 bytes in 0x-prefixed hex; anything else yields an error (or no address). Prefix 0x00 is classified as BLS, 0x01 as execution, 0x02 as Electra, and no credential gets two kinds.",
 ["inputs"],"every byte string",
 "Tests try a few credentials per kind.",
 [U,O],m(("GetCompatibleAddress, GetCompatibleAddressByte, IsBlsType, IsEth1Type, IsElectraType",U),("GetWithdrawalAndType",O)))
p("C27","Cleaning up exited validators conserves every wei and what is claimable",
 "A cleanup of exited validators that succeeds leaves the total of all accumulated and pending balances and pool fees as it was: what an exited validator loses goes to its consolidation target, to the others or to the pool. It never changes an accumulated balance, never forgets a validator, and a validator it starts to track begins not subscribed with nothing accumulated; before the network's fork slot it changes nothing.",
 ["inputs","histories"],"every validator set, beacon statuses and pending consolidations, every map iteration order",
 "Tests use small sets with one consolidation; the result must not depend on iteration order.",
 [O],m(("ValidatorCleanup",O)))
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
print(len(P))

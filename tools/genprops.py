import json
N="solana/programs/example-native-token-transfers/src/"
T="solana/programs/ntt-transceiver/src/"
Q="solana/programs/ntt-quoter/src/"
G="solana/programs/wormhole-governance/src/"
M="solana/modules/ntt-messages/src/"
P=[]
def loc(sym,files):
    k=sym.split('::')[-1]
    for f in files:
        if f.endswith('.rs') and k in open('/repo/'+f).read(): return f
    return files[0]
def p(id,title,stmt,over,qt,why,files,syms):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=y,where=loc(y,files)) for y in syms],observe_at=['transaction boundary: signed instructions in, account states, return data and CPIs out'],hook_needed=None)))
unit="The stable suite has a handful of unit tests on fixed values and never executes an instruction; "
p("C01","An outbound transfer takes exactly the dust-free amount it records",
"Every successful outbound transfer takes from the sender's token account exactly the requested amount minus the part that cannot be represented at min(8, local decimals, peer decimals); that dust stays with the sender. In locking mode exactly that amount is added to custody, in burning mode the total supply shrinks by exactly that amount and custody is unchanged. The queued outbound item records the same value, the actual sender, recipient, recipient chain and peer manager.",
["inputs","configurations","histories"],"all amounts (0..u64::MAX), local/peer decimals 0..255, both modes, SPL Token and Token-2022 mints, any prior custody balance",
unit+"no test sees a token balance, and trimming is tried on about ten amount/decimal triples.",
[N+"instructions/transfer.rs",M+"trimmed_amount.rs"],["transfer_burn","transfer_lock","insert_into_outbox","TrimmedAmount::remove_dust"])
p("C02","Every inbound message is paid out at most once",
"However often and in whatever order an inbound message is delivered, redeemed (through any transceivers) and released, with pauses, limit changes, disabled transceivers and elapsed time in between, tokens are credited for it at most once. Two deliveries count as the same message exactly when the origin chain and the whole manager message are equal.",
["histories","schedules"],"all interleavings of receive, redeem, release (both kinds, both flag values), admin actions and clock advances over many messages and transceivers",
unit+"replay is a property of histories of several transactions over shared accounts.",
[N+"instructions/redeem.rs",N+"instructions/release_inbound.rs",N+"queue/inbox.rs"],["redeem","release_inbound_mint","release_inbound_unlock","InboxItem::try_release","InboxItem::release_after"])
p("C03","An inbound payout matches the message: amount, recipient and mode",
"Releasing an approved inbound transfer credits the associated token account of the recipient named in the message, and no other, with exactly the message amount converted to the local decimals (less any fee the token itself withholds). In locking mode the tokens come out of custody and supply is unchanged; in burning mode they are newly minted and custody is unchanged; the release instruction of the other mode is refused.",
["inputs","configurations","histories"],"all message amounts and decimals (including ones that overflow and must be refused), recipients, substituted token accounts and both modes",
unit+"no payout is ever executed in it.",
[N+"instructions/release_inbound.rs",N+"instructions/redeem.rs",M+"trimmed_amount.rs"],["release_inbound_mint","release_inbound_unlock","redeem","TrimmedAmount::untrim"])
p("C04","Tokens are conserved across chains and whole histories",
"Over any history in which only genuine messages are delivered, what each chain pays out for messages of the other never exceeds what was taken from senders there for those messages (compared in common decimals), and once every message is delivered and released both are equal. On each chain custody always equals initial custody plus donations plus everything locked minus everything unlocked, and total supply equals initial supply minus burned plus minted.",
["histories","schedules","configurations"],"all interleavings of transfers, publications, deliveries, redemptions, releases, donations, admin actions and clock advances on two connected deployments (lock/burn, burn/burn, lock/lock)",
unit+"it never runs two deployments, nor any transfer at all.",
[N+"instructions/transfer.rs",N+"instructions/redeem.rs",N+"instructions/release_inbound.rs",N+"transceivers/wormhole/instructions/release_outbound.rs",N+"transceivers/wormhole/instructions/receive_message.rs"],["transfer_lock","transfer_burn","release_outbound","receive_message","redeem","release_inbound_unlock","release_inbound_mint"])
p("C05","Only authentic Wormhole messages enter through a transceiver",
"A Wormhole transceiver (built into the manager or standalone) accepts a message only if it is a guardian-verified message whose emitter is the transceiver peer registered for exactly its emitter chain and whose transfer is addressed to this chain. What it stores for the manager is exactly the origin chain and content of that message, each message id is stored at most once per origin chain, and a genuine message is accepted.",
["inputs","histories","configurations"],"all VAA contents, emitters, chains, forged accounts, substituted peer accounts and prior deliveries, for both transceiver programs",
unit+"no delivery is executed in it.",
[N+"transceivers/wormhole/instructions/receive_message.rs",T+"wormhole/instructions/receive_message.rs",N+"transceivers/wormhole/instructions/admin.rs"],["receive_message","ReceiveMessage"])
p("C06","Only messages from the registered manager peer to this manager count",
"A redemption has an effect only if the message was validated by the very transceiver program that is registered for the vote, comes from the manager registered as peer for its origin chain, and names this manager and this chain as its destination. Any other redemption attempt is refused without changing state, whatever accounts are supplied.",
["inputs","configurations","histories"],"all message contents, forged message accounts, wrong owners, wrong peers, chains and transceiver registrations, substituted accounts",
unit+"no redemption is executed in it.",
[N+"instructions/redeem.rs",N+"messages.rs"],["Redeem","ValidatedTransceiverMessage"])
p("C07","Approval needs a threshold of distinct enabled transceivers agreeing",
"An inbound transfer becomes approved exactly when at least the configured threshold of distinct, currently enabled transceivers have attested to byte-identical messages from the same origin chain; a transceiver attesting twice counts once, votes of disabled transceivers do not count, and disagreeing messages never share votes. A disabled or unregistered transceiver cannot vote, and with a threshold of zero nothing is approved.",
["histories","configurations","schedules"],"all thresholds 0..128, sets of registered/enabled transceivers up to 128, vote orders, repetitions, disagreeing contents and enable/disable changes between votes",
unit+"the bitmap is tried with three indices and the vote itself never.",
[N+"instructions/redeem.rs",N+"bitmap.rs",N+"config.rs"],["redeem","Bitmap::count_enabled_votes","Bitmap::set"])
p("C08","Outbound limit: immediate iff it fits, else queued 24 h or refused",
"An outbound transfer is releasable immediately exactly when its (dust-free) amount fits in the current outbound capacity, which is then reduced by exactly that amount. Otherwise it is refused if the sender did not ask for queueing, and else queued with a release time exactly 24 hours later, leaving the capacity untouched.",
["histories","inputs","configurations"],"all sequences of transfers, amounts, limits 0..u64::MAX, elapsed times and should-queue flags",
unit+"one fixed rate-limiter scenario is tried, outside any instruction.",
[N+"instructions/transfer.rs",N+"queue/rate_limit.rs"],["insert_into_outbox","RateLimitState::consume_or_delay"])
p("C09","Inbound limit per source chain: immediate iff it fits, else 24 h delay",
"When an inbound transfer is approved it is releasable immediately exactly when its amount fits in the current inbound capacity of its origin chain, which is then reduced by exactly that amount; otherwise its release time is set exactly 24 hours later and no capacity is consumed. Capacity is consumed once per transfer, never by votes short of the threshold.",
["histories","inputs","configurations"],"all sequences of redemptions from several chains, amounts, limits, elapsed times and thresholds",
unit+"one fixed rate-limiter scenario is tried, outside any instruction.",
[N+"instructions/redeem.rs",N+"queue/rate_limit.rs",N+"queue/inbox.rs"],["redeem","RateLimitState::consume_or_delay"])
p("C10","Rate-limit capacity refills linearly over 24 h, never above the limit",
"For every rate limiter the available capacity never exceeds the limit, equals the limit after 24 hours without traffic and in between grows by limit × elapsed / 24 h (rounded down). Changing a limit shifts the current capacity by exactly the change, clipped to the range from 0 to the new limit, and consequently no 24-hour window lets through more than the limit plus refill, backflow and limit increases allow.",
["histories","inputs"],"all limits and limit changes, capacities, elapsed times up to years, amounts, in any order",
unit+"one fixed scenario with round numbers.",
[N+"queue/rate_limit.rs",N+"instructions/admin.rs"],["RateLimitState::capacity_at","RateLimitState::set_limit","RateLimitState::refill","set_outbound_limit","set_inbound_limit"])
p("C11","Flow in one direction gives back capacity in the other",
"An outbound transfer that consumes outbound capacity adds exactly its amount to the inbound capacity of the destination chain, and an approved inbound transfer that consumes inbound capacity adds exactly its amount to the outbound capacity, each capped at the respective limit. Queued or delayed transfers, refused ones and votes short of the threshold give back nothing, and no other chain's capacity changes.",
["histories","configurations"],"all sequences of transfers and redemptions over several chains, limits and capacities",
unit+"backflow through the instructions is never executed.",
[N+"instructions/transfer.rs",N+"instructions/redeem.rs",N+"queue/rate_limit.rs"],["insert_into_outbox","redeem","RateLimitState::refill"])
p("C12","Delayed transfers are not released early, and are released when due",
"A queued outbound transfer is not published, and a delayed or unapproved inbound transfer is not paid out, before its release time; an early attempt fails if the caller asked to revert and otherwise succeeds without any effect, so it can be retried. From the release time on the release succeeds.",
["histories","inputs","schedules"],"all release attempts at any time before, at and after the release time, both flag values, both directions, baked-in and standalone transceivers",
unit+"time-dependent release is never executed.",
[N+"instructions/release_inbound.rs",N+"queue/inbox.rs",N+"queue/outbox.rs",N+"transceivers/wormhole/instructions/release_outbound.rs",T+"wormhole/instructions/release_outbound.rs"],["try_release","release_outbound"])
p("C13","A queued transfer is published exactly once per transceiver",
"Every queued outbound transfer can be published by each enabled transceiver once it is due, and at most once by each, over any history of release attempts, pauses and other transfers; publications by one transceiver neither block nor stand in for another's. Nothing is ever published that no outbound transfer queued, and no outbound transfer is accepted while no transceiver is enabled.",
["histories","schedules","configurations"],"all sequences of release attempts through the baked-in and standalone transceivers, with substituted items and registrations",
unit+"no publication is executed.",
[N+"transceivers/wormhole/instructions/release_outbound.rs",T+"wormhole/instructions/release_outbound.rs",N+"instructions/mark_outbox_item_as_released.rs",N+"queue/outbox.rs"],["release_outbound","mark_outbox_item_as_released","OutboxItem::try_release"])
p("C14","Published messages state the queued transfer faithfully",
"The message posted to Wormhole for an outbound transfer is, byte for byte in the documented format, the queued transfer: its unique id, sender, trimmed amount with decimals, source token, recipient, recipient chain, source manager and the peer manager. It is posted from the transceiver's own emitter with finalized consistency, and the bridge fee is paid.",
["inputs","configurations","histories"],"all transfers, both transceiver programs, any bridge fee",
unit+"serialization is tried on two fixed messages and posting never.",
[N+"transceivers/wormhole/instructions/release_outbound.rs",N+"transceivers/wormhole/accounts.rs",T+"wormhole/instructions/release_outbound.rs",T+"wormhole/accounts.rs"],["release_outbound","post_message","pay_wormhole_fee"])
p("C15","A transfer can only spend what its owner approved for those arguments",
"Tokens leave a user's account through an outbound transfer only under the authority derived from that account's owner and the exact arguments (amount, recipient chain, recipient, queueing flag). An approval given for one set of arguments cannot be used by anyone for another amount, chain, recipient, flag or owner, and with the matching approval anyone can submit the transfer.",
["inputs","histories"],"all approvals and argument sets, including single-field and single-bit differences, third-party submitters and substituted authority accounts",
unit+"the authorization path is never executed.",
[N+"instructions/transfer.rs",N+"lib.rs"],["TransferArgs::keccak256","SESSION_AUTHORITY_SEED"])
p("C16","Pausing stops all token movement and message flow, and nothing else",
"While the manager is paused no outbound transfer, publication (by any transceiver), message reception or inbound release succeeds, whatever the accounts and arguments. Redemptions (votes) and owner administration keep working, only the owner can pause or unpause, and unpausing restores operation with all queued and approved transfers intact.",
["histories","configurations"],"all operations attempted in paused and unpaused states, at any point of any transfer's life",
unit+"pausing is never executed.",
[N+"config.rs",N+"instructions/admin.rs",N+"instructions/transfer.rs",N+"instructions/release_inbound.rs"],["NotPausedConfig","set_paused"])
p("C17","Manager configuration changes only by its owner, and as requested",
"Peers, limits, transceiver registrations, transceiver peers and the paused flag change only in a transaction signed by the current owner, and then exactly as the arguments say with nothing else changed; a transceiver peer once set for a chain is never replaced. No other instruction ever changes the configuration, and every such request by the owner with valid arguments succeeds.",
["inputs","histories"],"all admin instructions with all signers (owner, pending owner, former owner, strangers), missing signatures, substituted accounts and argument values, at both the manager and the standalone transceiver",
unit+"no admin instruction is executed.",
[N+"instructions/admin.rs",N+"transceivers/wormhole/instructions/admin.rs",T+"wormhole/instructions/admin.rs"],["SetPeer","RegisterTransceiver","SetOutboundLimit","SetInboundLimit","SetPaused","SetTransceiverPeer"])
p("C18","Ownership moves only by handover, together with the upgrade authority",
"Ownership changes only when the current owner hands it over in one step, or when a two-step transfer started by the owner is claimed by the nominated account or taken back by the owner; claims by anyone else, or without a transfer under way, fail. The program's upgrade authority moves along: it is locked while a transfer is pending and belongs to the resulting owner afterwards.",
["histories"],"all sequences of nominate, claim, cancel and one-step transfers by owners, nominees, former owners and strangers",
unit+"ownership changes are never executed.",
[N+"instructions/admin.rs"],["transfer_ownership","claim_ownership","transfer_ownership_one_step_unchecked"])
p("C19","Messages survive encoding and follow the documented wire format",
"Encoding any manager, transfer, transceiver, info or registration message yields exactly the documented big-endian, length-prefixed layout, announces exactly its own length, and decoding it gives back an equal message with nothing left over. Truncated input, wrong prefixes and invalid modes are rejected with an error, never a crash, and the message digest is the keccak of origin chain and encoded message.",
["inputs"],"all field values, payload lengths and arbitrary or mutated byte strings",
"Four fixed messages are decoded and re-encoded by the tests.",
[M+"ntt.rs",M+"ntt_manager.rs",M+"transceiver.rs",M+"transceivers/wormhole.rs",M+"chain_id.rs",M+"mode.rs",M+"trimmed_amount.rs","docs/NttManager.md","docs/Transceiver.md"],["Readable","Writeable","NttManagerMessage::keccak256","TransceiverMessageDataBytes"])
p("C20","Amount scaling never creates value and loses only dust",
"Trimming converts an amount to min(8, from, to) decimals rounding down, untrimming converts it back exactly or reports overflow, and removing dust yields the largest representable amount not above the original, equal in value to the trimmed one. No combination of amounts and decimals gives a larger value than it started with, wraps around, or crashes.",
["inputs"],"all amounts 0..u64::MAX and all pairs of decimals 0..255",
"About ten fixed triples are tried by the tests.",
[M+"trimmed_amount.rs",M+"errors.rs"],["TrimmedAmount::trim","TrimmedAmount::untrim","TrimmedAmount::remove_dust","TrimmedAmount::change_decimals"])
p("C21","Transceivers get unique sequential ids, once each, up to 128",
"Each registered transceiver program receives the next sequential id, a program can be registered only once, only executable accounts can be registered, and registration enables exactly that transceiver and leaves all others as they were. The 129th registration is refused, and no registration changes the ids of earlier ones.",
["histories","configurations"],"all registration sequences up to and beyond the capacity, with repeated and non-executable candidates",
unit+"registration is never executed.",
[N+"instructions/admin.rs",N+"bitmap.rs",N+"registered_transceiver.rs"],["register_transceiver","Bitmap::set"])
p("C22","A deployment is initialised once, by its deployer, with sound settings",
"Initialisation succeeds only when signed by the program's upgrade authority and only once; in burning mode it requires the program to be the mint's authority. It records the given mode, chain, mint, token program and limit, the deployer as owner, the program's own associated token account as custody, not paused, no transceivers and a threshold of one, and a pre-existing custody account does not block it.",
["configurations","inputs"],"all modes, mints, mint authorities, token programs, deployers, pre-existing custody accounts and repeated attempts",
unit+"initialisation is never executed.",
[N+"instructions/initialize.rs"],["initialize","Initialize"])
p("C23","Inbound records are fixed at first vote and only move forward",
"The amount and recipient recorded for an inbound transfer are set by its first vote and never change afterwards. Its status only moves from unapproved to approved with a fixed release time to released, votes are only ever added, and no redemption ever approves a transfer a second time or postpones it.",
["histories","schedules"],"all histories of redemptions, releases, admin actions and time over many messages",
unit+"inbound records are never created in it.",
[N+"queue/inbox.rs",N+"instructions/redeem.rs"],["InboxItem","ReleaseStatus","redeem"])
p("C24","Only a registered, enabled transceiver can mark a transfer as sent",
"An outbound item is marked as sent by a transceiver only through a call signed by that registered transceiver program's own authority while it is enabled, the manager is unpaused and the item is due; then exactly that transceiver's mark is set and the call reports true. A call before the due time changes nothing and reports false, and any other caller is refused.",
["inputs","histories","configurations"],"all callers, transceiver ids 0..127, registrations, enabled sets, times and repeated calls",
unit+"the external transceiver path is never executed.",
[N+"instructions/mark_outbox_item_as_released.rs",N+"queue/outbox.rs"],["mark_outbox_item_as_released"])
p("C25","Transfer hooks always run, and fee-charging tokens are refused",
"For mints with a transfer hook every outbound transfer and every inbound payout, in both modes, runs the hook exactly once for exactly the moved amount. For mints that charge a transfer fee an outbound transfer either delivers the full recorded amount into custody (or burns it) or fails without effect.",
["configurations","inputs","histories"],"all Token-2022 mints with hooks and fee settings (0 to 100 %, caps), amounts, both modes",
unit+"no token movement is executed.",
[N+"instructions/transfer.rs",N+"instructions/release_inbound.rs","solana/programs/dummy-transfer-hook/src/lib.rs"],["transfer_burn","transfer_lock","release_inbound_mint","release_inbound_unlock"])
p("C26","Broadcasts state the deployment's true identity and peers",
"The broadcast messages of a transceiver contain exactly the manager's address, mode, token and token decimals, respectively the chain id and address of the registered peer for that chain, in the documented format and posted from the transceiver's own emitter. A broadcast changes nothing else, and one for an unregistered chain fails.",
["inputs","configurations"],"all configurations, chains, peers and substituted accounts, both transceiver programs",
"Two fixed encodings are tested; the instructions never.",
[N+"transceivers/wormhole/instructions/broadcast_id.rs",N+"transceivers/wormhole/instructions/broadcast_peer.rs",T+"wormhole/instructions/broadcast_id.rs",T+"wormhole/instructions/broadcast_peer.rs",M+"transceivers/wormhole.rs"],["broadcast_id","broadcast_peer"])
p("C27","The lookup table lists exactly the deployment's accounts",
"Creating the lookup table, by anyone and any number of times, points the program's table record at a table controlled by the program's own authority that contains the program id and the deployment's true configuration, custody, token program, mint, authority, limiter, Wormhole bridge, fee collector and program accounts (which transceiver's sequence account is listed is the caller's choice). Substituted entries are refused, and nothing else changes.",
["inputs","histories"],"all callers, repeated calls, slots, pre-created tables and substituted entries",
unit+"the instruction is never executed.",
[N+"instructions/luts.rs"],["initialize_lut","InitializeLUT"])
p("C28","A relay request costs exactly the quoted fee and is made once per item",
"A relay request succeeds only for an outbound item of a registered deployment already sent by its Wormhole transceiver, to a registered and enabled chain, with a gas drop-off within the chain's maximum and a fee within the caller's maximum. The payer then pays exactly the larger of the account rent and (base price + native price × (drop-off + gas price × gas cost)) converted at the SOL price with the specified roundings, it is recorded for that item with the drop-off, a second request for the item fails as long as the first is open, and overflowing inputs are refused.",
["inputs","histories","configurations"],"all prices, gas costs, drop-offs, maximum fees, chains, items, registrations and substituted accounts",
"The quoter has no tests in the stable suite.",
[Q+"processor/request_relay.rs",Q+"state.rs"],["request_relay","mul_div","check_release_constraint_and_fetch_chain_id"])
p("C29","Quoter settings and proceeds are controlled by owner and assistant only",
"The quoter is initialised once by its upgrade authority; only the owner can change the assistant and fee recipient, and only owner or assistant can register chains or deployments, deregister deployments, set prices and parameters, and close relay requests. Each such action has exactly the requested effect, a zero SOL price and a default fee recipient are refused, newly registered chains are disabled, and closing a request pays its whole balance to the configured fee recipient.",
["inputs","histories"],"all admin instructions, signers (owner, assistant, former ones, strangers), arguments and substituted accounts",
"The quoter has no tests in the stable suite.",
[Q+"processor/admin.rs",Q+"processor/update_prices.rs",Q+"processor/close_relay.rs",Q+"state.rs"],["Initialize","SetAssistant","SetFeeRecipient","RegisterChain","RegisterNtt","DeregisterNtt","UpdateSolPrice","UpdateChainPrices","UpdateChainParams","CloseRelay","Instance::is_authorized"])
p("C30","Governance acts only on genuine Wormhole governance, once per message",
"The governance program executes an instruction only for a guardian-verified message emitted by the Wormhole governance emitter on Solana, with the general-purpose governance module, the Solana action and chain, and this program as the target. Each such message is executed at most once, a failed execution does not consume it, and different sequence numbers are independent.",
["inputs","histories"],"all VAA emitters, chains, modules, actions, targets, forged accounts, sequence numbers and repeated submissions",
"The stable suite parses two fixed packets at most; the instruction is never executed.",
[G+"instructions/governance.rs"],["Governance","governance","ReplayProtection","GovernanceMessage"])
p("C31","Governance executes exactly the encoded instruction",
"The executed instruction has exactly the program, data, accounts, order and signer/writable flags of the message, with only the owner and payer placeholders replaced by the governance authority and the transaction's payer. Governance packets follow the documented layout, announce exactly their own length, decode to what was encoded for every number of accounts and data length, and malformed packets are rejected.",
["inputs"],"all programs, account lists (including duplicates and placeholders at any position), flags and data; arbitrary and mutated packets",
"Two fixed packets are decoded by its unit tests, which are not in the stable suite.",
[G+"instructions/governance.rs"],["governance","GovernanceMessage::read_body","GovernanceMessage::write_body","Acc","sentinel_pubkey"])
p("C32","Chains are isolated: one chain's traffic never uses another's settings",
"Every operation concerning a remote chain uses and changes only that chain's manager peer, transceiver peer and inbound limit; substituting the accounts of another chain (including chains whose ids share bytes or differ in byte order) is refused. Setting a peer or limit for one chain leaves every other chain's settings, capacity and pending transfers unchanged.",
["inputs","configurations","histories"],"all pairs of chain ids over the whole 16-bit range, all operations, substituted per-chain accounts",
unit+"no per-chain account is ever used in it.",
[N+"instructions/admin.rs",N+"instructions/transfer.rs",N+"instructions/redeem.rs",N+"transceivers/wormhole/instructions/admin.rs",N+"transceivers/wormhole/instructions/receive_message.rs"],["NttManagerPeer::SEED_PREFIX","InboxRateLimit::SEED_PREFIX","TransceiverPeer::SEED_PREFIX"])
p("C33","SOL is spent only by the payer, and only on rent and stated fees",
"Every instruction of every program takes SOL only from the payer that signed for it, and exactly as much as needed: the rent-exempt minimum of the accounts it creates (less what their addresses already hold), the Wormhole bridge's current fee per published message, and for a relay request the quoted fee. What a closed account held goes entirely to the designated recipient. No other account's SOL balance changes in a successful transaction.",
["inputs","configurations","histories"],"all instructions, payers, owners distinct from payers, bridge fees, prices and addresses that hold SOL beforehand",
unit+"no instruction is executed, so no SOL ever moves.",
[N+"instructions/transfer.rs",N+"instructions/redeem.rs",N+"instructions/admin.rs",N+"transceivers/wormhole/accounts.rs",T+"wormhole/accounts.rs",Q+"processor/request_relay.rs",Q+"processor/close_relay.rs"],["pay_wormhole_fee","post_message","request_relay","CloseRelay","DeregisterNtt"])
p("C34","Anyone can move a transfer forward, and nobody can block it",
"Submitting an approved transfer, publishing, receiving a message, voting, releasing, broadcasting, creating the lookup table, requesting a relay and executing governance need no privilege: whoever pays can do them whenever their stated conditions hold. SOL sent in advance to an address an instruction is about to use, donations to custody, additional accounts passed along, or other users' traffic never make a valid operation of any program fail.",
["histories","inputs","schedules"],"all valid operations by any payer, with any address to be created funded in advance by any amount, after any hostile history",
unit+"no instruction is executed.",
[N+"instructions/transfer.rs",N+"instructions/redeem.rs",N+"instructions/release_inbound.rs",N+"transceivers/wormhole/instructions/release_outbound.rs",N+"transceivers/wormhole/instructions/receive_message.rs",T+"wormhole/instructions/release_outbound.rs",T+"wormhole/instructions/receive_message.rs",G+"instructions/governance.rs"],["Transfer","Redeem","ReleaseInbound","ReleaseOutbound","ReceiveMessage","InitializeLUT"])
p("C35","Every valid operation of the published interface works",
"An instruction of any of the programs, called by the party entitled to it with the published name, account order, signer and writable flags and argument encoding, in a state that meets its conditions, succeeds after any history: it needs no account, signature or permission beyond the published ones. Every account it writes stays readable in the published layout, and the programs report their version and transceiver type.",
["inputs","histories","configurations"],"all instructions of the manager, transceiver, quoter and governance programs with all valid arguments and entitled callers, after any history",
unit+"no instruction is executed, so account order, flags and argument layout are never exercised.",
[N+"lib.rs",T+"lib.rs",Q+"lib.rs",G+"lib.rs",N+"instructions/admin.rs",N+"instructions/initialize.rs",N+"config.rs",Q+"state.rs",Q+"processor/admin.rs","solana/ts/idl/3_0_0/json/example_native_token_transfers.json"],["example_native_token_transfers","ntt_transceiver","ntt_quoter","wormhole_governance","VERSION","TRANSCEIVER_TYPE"])
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))

import json
M='solana/programs/example-native-token-transfers/src/'
X='solana/programs/ntt-transceiver/src/'
Q='solana/programs/ntt-quoter/src/'
G='solana/programs/wormhole-governance/src/'
N='solana/modules/ntt-messages/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":s,"where":files[0]} for s in state]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Cross-chain messages round-trip and keep the documented byte layout",
"Every token-transfer, manager, transceiver, transceiver-info and transceiver-registration message encodes to exactly the documented big-endian cross-chain byte layout, decodes back to an equal message consuming every byte, and reports a size equal to the number of bytes it writes. Decoding arbitrary bytes never crashes, and input that is truncated or carries the wrong prefix or an unknown mode byte is rejected. The identity under which a manager message is tracked is the Keccak-256 hash of the big-endian source chain id followed by the encoded manager message, so two messages differing in any field or in source chain never share an identity.",
["inputs"],"all field values of every message type, all byte strings",
"The unit tests decode a few fixed byte strings; the layout must hold for every field value, and every malformed prefix/truncation must be rejected.",
[N+'ntt.rs',N+'ntt_manager.rs',N+'transceiver.rs',N+'transceivers/wormhole.rs',N+'trimmed_amount.rs',N+'chain_id.rs',N+'mode.rs'],
[("Readable/Writeable implementations",N+"*.rs"),("manager message digest",N+"ntt_manager.rs keccak256")])

p("C02","Decimal conversion truncates, never creates value, and never wraps",
"An amount put on the wire uses the smallest of 8, the local decimals and the peer's decimals, rounds down, and the local amount taken from the sender is exactly what the wire amount is worth, so dust smaller than one wire unit is never taken. Converting a wire amount back to local decimals is the exact power-of-ten scaling (rounding down when the local token has fewer decimals), and converting an already trimmed amount to local decimals and back gives the same amount. A conversion whose exact result does not fit in 64 bits is an error, never a wrapped or saturated value.",
["inputs"],"all 64-bit amounts and all decimals pairs from 0 to 255",
"Unit tests sample a handful of amounts and decimals; overflow and rounding boundaries depend on the whole product space.",
[N+'trimmed_amount.rs',M+'instructions/transfer.rs',M+'instructions/redeem.rs'],
[("trim / untrim / scale / remove_dust",N+"trimmed_amount.rs")])

p("C03","A transfer takes exactly what it records and publishes nothing else",
"A successful outbound transfer takes from the sender exactly the requested amount rounded down to a representable amount and creates one queued transfer recording that amount with its decimals, the token account owner as sender, and the requested destination chain, recipient and that chain's registered peer manager. A rejected transfer changes no state at all. A transfer succeeds if and only if balance and allowance suffice, the destination has a registered peer, some transceiver is enabled, the manager is unpaused, the rate limit admits it and the token charges no fee on transfer.",
["inputs","histories"],"all amounts, decimals, destination chains, recipients, token programs and prior histories",
"Only two fixed scenarios are in the test suite; the amount/recipient/peer recording must hold for every combination after any admin history.",
[M+'instructions/transfer.rs',M+'queue/outbox.rs',N+'trimmed_amount.rs'],
[("transfer_lock / transfer_burn / insert_into_outbox",M+"instructions/transfer.rs")],
["OutboxItem account","sender and custody token accounts"],"account state after each transaction")

p("C04","Inbound transfers pay the exact amount to the named recipient",
"Releasing an approved inbound transfer (of a token without transfer fee) credits exactly the message amount, converted to local decimals, to the associated token account of the recipient named in the message, and to nobody else. The amount and recipient are fixed by the first attestation and never change later. If the release cannot be completed the transaction fails and the transfer stays releasable.",
["inputs","histories"],"all messages, decimals, recipients and interleavings of redeem/release calls by any caller",
"Tests use one amount and one recipient; wrong recipient accounts, other decimals and repeated calls are not sampled.",
[M+'instructions/redeem.rs',M+'instructions/release_inbound.rs',M+'queue/inbox.rs'],
[("release_inbound_mint / release_inbound_unlock",M+"instructions/release_inbound.rs"),("redeem",M+"instructions/redeem.rs")],
["InboxItem account","recipient, custody and mint accounts"],"token balances after each transaction")

p("C05","Tokens are conserved between users, custody and supply",
"In locking mode the custody balance always equals everything locked by outbound transfers minus everything unlocked by inbound releases (plus direct deposits), and the program never changes the token supply. In burning mode the supply falls by exactly the amount of each outbound transfer and rises by exactly the amount of each inbound release, and the custody balance is left unchanged by both. No other operation of the program moves, mints or burns tokens.",
["histories"],"all operation histories in both modes with both token programs",
"Conservation is an invariant over unbounded histories mixing transfers, redeems, releases, admin actions and failures.",
[M+'instructions/transfer.rs',M+'instructions/release_inbound.rs'],
[("lock/burn",M+"instructions/transfer.rs"),("unlock/mint",M+"instructions/release_inbound.rs")],
["custody balance","mint supply"],"token accounts after every transaction")

p("C06","Each inbound message is paid out at most once",
"Whatever the order and repetition of receiving, redeeming and releasing, by any callers and through any transceivers, each cross-chain message (source chain plus message content) is credited at most once and its state only moves forward from unapproved to approved to released. A repeated delivery or redemption after approval, and a repeated release after payment, is rejected and changes nothing. Redeeming one message never alters the state of a different message.",
["histories"],"all sequences of receive/redeem/release over any set of messages",
"Tests replay one message once; safety must hold for every history.",
[M+'instructions/redeem.rs',M+'queue/inbox.rs',M+'instructions/release_inbound.rs',M+'transceivers/wormhole/instructions/receive_message.rs'],
[("content-addressed InboxItem and release state machine",M+"queue/inbox.rs"),("message account init",M+"transceivers/wormhole/instructions/receive_message.rs")],
["InboxItem.release_status"],"account state after each transaction")

p("C07","Only messages from registered peers for this manager and chain count",
"An attested message is accepted only if its emitter is the transceiver peer registered for its emitter chain, and it is credited only if its source manager is the manager peer registered for that chain, its destination manager is this program and its destination chain is this chain. A message failing any of these changes no state, whichever accounts the caller supplies. A message meeting all of them is accepted and recorded field for field.",
["inputs","configurations"],"all emitters, chains, managers, destination chains and peer registrations, including re-registered peers",
"Tests try a couple of wrong addresses; a near miss (same address, other chain; peer replaced later) needs generated combinations.",
[M+'transceivers/wormhole/instructions/receive_message.rs',M+'instructions/redeem.rs',M+'messages.rs'],
[("peer seeds and address constraints",M+"instructions/redeem.rs"),("VAA constraints",M+"transceivers/wormhole/instructions/receive_message.rs")],
["ValidatedTransceiverMessage account","InboxItem account"],"accept/reject and account state")

p("C08","Approval needs the threshold of distinct enabled transceivers",
"An inbound message becomes approved exactly when the number of distinct currently enabled transceivers that attested to that identical message reaches the configured threshold; earlier attestations only record a vote. Repeated attestations by one transceiver count once, disabled or unregistered transceivers cannot attest and their earlier votes do not count, and attestations to messages that differ in any field are never added together. A threshold of zero approves nothing.",
["histories","configurations"],"all transceiver sets, enabled subsets, thresholds, vote orders and message variants",
"The test suite only has threshold 1 with one or two transceivers.",
[M+'instructions/redeem.rs',M+'bitmap.rs',M+'registered_transceiver.rs',M+'messages.rs'],
[("vote bitmap and threshold",M+"instructions/redeem.rs"),("count_enabled_votes",M+"bitmap.rs")],
["InboxItem.votes","Config.threshold, Config.enabled_transceivers"],"account state after each redeem")

p("C09","Outbound messages are published once, when due, and faithfully",
"For each queued outbound transfer each enabled transceiver publishes at most one message, never before the transfer's release time and never while disabled; a premature attempt either fails or does nothing, as the caller chose. The published message carries exactly the queued transfer's identity, amount, sender, token, recipient, destination chain and destination manager, from the program's own emitter with finalized consistency. A due, unpublished transfer can be published by anyone paying the fee.",
["histories","inputs"],"all transfers, release attempts, times, transceivers and callers",
"Tests publish one immediate transfer once; delay boundaries, several transceivers and every field need generated histories.",
[M+'transceivers/wormhole/instructions/release_outbound.rs',M+'queue/outbox.rs',M+'transceivers/wormhole/accounts.rs',X+'wormhole/instructions/release_outbound.rs',M+'instructions/mark_outbox_item_as_released.rs'],
[("try_release and released bitmap",M+"queue/outbox.rs"),("post_message",M+"transceivers/wormhole/accounts.rs")],
["OutboxItem.released","posted message account"],"posted message accounts")

p("C10","Rate limiter capacity follows the 24-hour refill law",
"A limiter's capacity at any time is its capacity at the last update plus limit times elapsed time over 24 hours, rounded down, never above the limit; consuming within capacity subtracts exactly the amount and updates the time, and exceeding it changes nothing and asks for a 24-hour delay. Refilling adds the amount up to the limit. Changing the limit shifts the current capacity by the change in limit, never below zero or above the new limit, and none of these ever wraps for any 64-bit limit, amount and non-decreasing times.",
["inputs","histories"],"all limits, amounts, elapsed times and operation sequences",
"One unit test walks one sequence with round numbers.",
[M+'queue/rate_limit.rs'],[("RateLimitState",M+"queue/rate_limit.rs")],["limit, capacity, last timestamp"],"limiter state and result")

p("C11","Outbound transfers respect the outbound rate limit",
"An outbound transfer whose amount fits the current outbound capacity is releasable immediately and consumes exactly that capacity; one that does not fit is rejected unless the sender asked for queueing, in which case it is releasable exactly 24 hours later and consumes no capacity. Only transfers that really happen consume capacity.",
["histories","inputs"],"all histories of transfers, time steps, limit changes and inbound backflow",
"Needs capacity boundary values produced by histories; tests use a limit far from the boundary.",
[M+'instructions/transfer.rs',M+'queue/outbox.rs',M+'queue/rate_limit.rs'],
[("insert_into_outbox",M+"instructions/transfer.rs")],["OutboxRateLimit","OutboxItem.release_timestamp"],"account state after each transaction")

p("C12","Inbound transfers over the limit wait 24 hours; others are immediate",
"An approved inbound transfer that fits the source chain's inbound capacity is releasable immediately and consumes exactly that chain's capacity; otherwise it is releasable exactly 24 hours after approval and consumes none. Before its release time nothing is paid: the attempt fails, or does nothing if the caller asked for that, and from its release time on it succeeds. Limits of different source chains are independent.",
["histories","inputs"],"all histories of redeems and releases over several chains, with time steps around the boundary",
"Boundary seconds and multi-chain independence are not sampled by the tests.",
[M+'instructions/redeem.rs',M+'queue/inbox.rs',M+'instructions/release_inbound.rs'],
[("consume_or_delay in redeem",M+"instructions/redeem.rs"),("try_release",M+"queue/inbox.rs")],["InboxRateLimit","InboxItem.release_status"],"account state after each transaction")

p("C13","Flow in one direction restores capacity in the other",
"An outbound transfer that was not delayed increases the inbound capacity of its destination chain, and an inbound transfer approved without delay increases the outbound capacity, each by exactly the transferred amount in local decimals and never above the respective limit. Delayed or failed transfers, unapproved attestations and later releases restore nothing, and no other chain's limiter changes.",
["histories"],"all histories over several chains and both directions",
"Backflow is asserted once in the test suite with a single chain and no delay.",
[M+'instructions/transfer.rs',M+'instructions/redeem.rs',M+'queue/rate_limit.rs'],
[("refill calls",M+"instructions/transfer.rs, "+M+"instructions/redeem.rs")],["InboxRateLimit","OutboxRateLimit"],"account state after each transaction")

p("C14","Pausing stops all movement of value and messages, and nothing else",
"While paused, no outbound transfer, inbound release, outbound publication (by the built-in transceiver or by marking through another one) or message receipt through the built-in transceiver succeeds, and no tokens move. Attestation of already received messages and all administration keep working, and unpausing restores every operation with no state lost.",
["histories","configurations"],"all histories with pause toggled at any point, both modes, all entry points",
"Tests pause once for one entry point.",
[M+'config.rs',M+'instructions/admin.rs',M+'instructions/transfer.rs',M+'instructions/release_inbound.rs',M+'transceivers/wormhole/instructions/receive_message.rs'],
[("NotPausedConfig",M+"config.rs")],["Config.paused"],"accept/reject and account state")

p("C15","Only the owner can administer the manager and transceivers",
"Setting manager or transceiver peers, registering transceivers, changing rate limits, pausing and starting an ownership transfer succeed only when signed by the current owner, and then change exactly the setting named with exactly the value given. Nobody else can change any of these settings through any operation, and the owner can perform them at any time with valid arguments. A transceiver peer, once set, cannot be overwritten.",
["histories","inputs"],"all admin instructions, signers (owner, former owner, pending owner, stranger, unsigned owner) and histories",
"Tests check one or two instructions with one wrong signer.",
[M+'instructions/admin.rs',M+'transceivers/wormhole/instructions/admin.rs',X+'wormhole/instructions/admin.rs'],
[("has_one = owner / Signer constraints",M+"instructions/admin.rs")],["Config, peer, limiter, registered transceiver accounts"],"accept/reject and account state")

p("C16","Ownership and upgrade authority move together, only to the nominee",
"A two-step ownership transfer leaves the current owner in control and locks the program upgrade authority until the nominated owner (or the current owner, cancelling) claims; the claimant then holds both ownership and upgrade authority and no nomination remains. A one-step transfer by the owner gives both to the new owner at once. Nobody other than the nominee and the current owner can ever obtain ownership or upgrade authority.",
["histories"],"all sequences of nominate/claim/one-step calls by any signers",
"Tests run one claim; cancel/re-nominate/claim orders need histories.",
[M+'instructions/admin.rs'],[("transfer_ownership, transfer_ownership_one_step_unchecked, claim_ownership",M+"instructions/admin.rs")],
["Config.owner, Config.pending_owner","program data upgrade authority"],"account state after each transaction")

p("C17","A spending approval authorises only the exact transfer approved",
"The program can move a user's tokens only through an approval given to the authority derived from that token owner and the exact amount, destination chain, recipient and queueing choice, and only that transfer can use it. Changing any one of these, or using another owner's approval, is rejected and moves nothing; at most the approved allowance can ever be taken. Distinct transfer requests have distinct authorities.",
["inputs","histories"],"all pairs (approved request, attempted request), owners and allowances",
"Each single-field mismatch and near-collision must be rejected for all values.",
[M+'instructions/transfer.rs',M+'lib.rs'],[("session authority seeds",M+"instructions/transfer.rs"),("TransferArgs::keccak256",M+"instructions/transfer.rs")],
["token account delegate and allowance"],"accept/reject and balances")

p("C18","Substituted or forged accounts are rejected without effect",
"Any operation of the manager, transceivers, quoter or governance called with a state, token, mint, custody, peer, limiter, message or program account other than the one that belongs to it - another instance's, another chain's, another message's, attacker-owned with copied contents, or a look-alike program - or with a required signature missing is rejected and changes nothing. This holds whatever the other accounts and arguments are.",
["inputs","configurations"],"all instructions, account slots and substitutes drawn from live and forged accounts",
"Tests try very few wrong accounts; each slot of each instruction needs every kind of substitute.",
[M+'instructions/',M+'transceivers/wormhole/',X+'wormhole/',Q+'processor/',G+'instructions/governance.rs',M+'messages.rs'],
[("account constraints",M+"instructions/*.rs"),("owner and discriminator checks",M+"messages.rs")],None,"accept/reject and full account state")

p("C19","Transceiver registration assigns unique permanent identities",
"Each registration of an executable program as a transceiver gives it the next unused number starting from zero and enables it; a program can be registered only once, numbers are never reused or changed, and registering one never disables or alters another. At most 128 transceivers can exist, and the set operations on transceiver votes agree with sets of numbers below 128, rejecting others.",
["histories","inputs"],"all registration histories including the 128 boundary, all bitmap operation sequences",
"Tests register two transceivers.",
[M+'instructions/admin.rs',M+'bitmap.rs',M+'registered_transceiver.rs'],
[("register_transceiver",M+"instructions/admin.rs"),("Bitmap",M+"bitmap.rs")],["Config.next_transceiver_id, enabled_transceivers"],"account state after each transaction")

p("C20","Initialization is once, by the deployer, and fixes the mode",
"The manager can be initialized exactly once and only by the program's upgrade authority, and in burning mode only for a mint whose mint authority is the program; it then starts unpaused, owned by the deployer, with threshold one, no transceivers, the given chain id, limit and mode, and custody at the program authority's associated account for that mint. Afterwards a locking manager accepts only lock and unlock operations and a burning one only burn and mint operations, and mode, token, chain id and custody never change.",
["inputs","histories","configurations"],"all arguments, deployers, mint authorities, token programs and later histories",
"Tests initialize once per mode.",
[M+'instructions/initialize.rs',M+'instructions/transfer.rs',M+'instructions/release_inbound.rs',M+'config.rs'],
[("initialize",M+"instructions/initialize.rs"),("mode constraints",M+"instructions/transfer.rs, "+M+"instructions/release_inbound.rs")],["Config"],"accept/reject and account state")

p("C21","Relay quotes charge exactly the documented fee and never more than allowed",
"A relay request charges the payer exactly the fee defined by the current prices, destination parameters, gas cost of the token's integration and requested gas drop-off (but at least the rent of its record), all of which is held by the request record. It is rejected, charging nothing, when that exceeds the payer's maximum, the drop-off exceeds the destination's maximum, the destination is disabled or unregistered, the integration is unregistered, the transfer has not been published by the registered Wormhole transceiver, or the computation does not fit 64 bits. A request meeting all conditions succeeds, and a transfer has at most one open request.",
["inputs","histories"],"all prices, gas costs, drop-offs and fee caps, transfers and registration histories",
"Fee arithmetic with rounding and overflow is sampled at one point by tests.",
[Q+'processor/request_relay.rs',Q+'state.rs'],[("calculate_fee / request_relay",Q+"processor/request_relay.rs")],
["RelayRequest account","payer lamports"],"lamports and accept/reject")

p("C22","Quoter administration and fee collection are access-controlled",
"Only the quoter owner can change its assistant and fee recipient, and only the owner or current assistant can register chains and integrations, update prices and parameters, or close relay requests; each changes exactly the named setting. Closing a relay request sends its entire balance to the configured fee recipient and nowhere else, exactly once. Initialization happens once, by the program's upgrade authority, and a newly registered chain accepts no relay until its parameters are set.",
["histories","inputs"],"all quoter instructions, signers and histories",
"Tests use one authority per call.",
[Q+'processor/admin.rs',Q+'processor/update_prices.rs',Q+'processor/close_relay.rs',Q+'state.rs'],
[("authority constraints",Q+"state.rs, "+Q+"processor/*.rs")],["Instance, RegisteredChain, RegisteredNtt, RelayRequest accounts"],"accept/reject, account state and lamports")

p("C23","Governance executes only genuine governance instructions, once",
"The governance program runs an instruction only if a posted Wormhole message from the governance emitter on the governance chain, addressed to this chain and this governance program, names exactly that program, accounts and data; it then invokes exactly that call, substituting only the owner and payer placeholders, signing as its own authority. Each governance message executes at most once, and a failed attempt can be retried. Any mismatch in emitter, module, action, chain, program or accounts is rejected with no effect, and governance messages round-trip through their byte encoding.",
["inputs","histories"],"all governance messages, emitters, account lists, data and replay orders",
"Tests run two fixed messages.",
[G+'instructions/governance.rs',G+'lib.rs'],[("governance instruction and message codec",G+"instructions/governance.rs")],
["replay account","target program state"],"accept/reject, CPI and account state")

p("C24","A standalone transceiver has the same guarantees as the built-in one",
"The separately deployed Wormhole transceiver accepts exactly the messages, publishes exactly the message contents, announces the same information and enforces the same owner, once-only and release-time rules as the built-in one, with its own emitter and peers. A transfer is marked as published for a transceiver only through that transceiver's own program signature, only when due, enabled and unpaused, and never for another transceiver.",
["histories","inputs"],"all histories mixing both transceivers, direct marking attempts and message variants",
"Tests cover one happy path of the standalone transceiver.",
[X+'wormhole/instructions/',X+'lib.rs',M+'instructions/mark_outbox_item_as_released.rs'],
[("standalone receive/release/admin",X+"wormhole/instructions/*.rs"),("mark_outbox_item_as_released",M+"instructions/mark_outbox_item_as_released.rs")],
["OutboxItem.released","posted message account"],"posted messages and account state")

p("C25","Broadcasts announce the true configuration",
"An identity broadcast, callable by anyone at any time, publishes exactly this manager's address, mode, token and token decimals, and a peer broadcast publishes exactly the registered transceiver peer for the named chain, both from the transceiver's own emitter with finalized consistency. A broadcast for an unregistered chain fails, and broadcasts change no state of the manager or transceiver.",
["inputs","configurations"],"all modes, mints, decimals, chains and peers, both transceivers",
"Tests do one broadcast with fixed values.",
[M+'transceivers/wormhole/instructions/broadcast_id.rs',M+'transceivers/wormhole/instructions/broadcast_peer.rs',X+'wormhole/instructions/broadcast_id.rs',X+'wormhole/instructions/broadcast_peer.rs'],
[("broadcast_id / broadcast_peer",M+"transceivers/wormhole/instructions/*.rs")],["posted message account"],"posted messages")

p("C26","The lookup table lists exactly the manager's own accounts",
"Creating the manager's lookup table, callable by anyone any number of times, records the newest table's address and fills it with exactly the program, the manager's real configuration, custody, token program, mint, authority and limiter, and the Wormhole program and its accounts as named in the call, under an authority only the program controls. Calls naming another configuration, custody, token program, mint, authority, limiter or Wormhole program, or a table derived from a different slot, are rejected; the fee collector and sequence entries are recorded as given, not checked.",
["inputs","histories"],"all recent slots, repetitions, callers and substituted entries",
"Tests create it once.",
[M+'instructions/luts.rs'],[("initialize_lut",M+"instructions/luts.rs")],["LUT account","lookup table account"],"account state")

p("C27","Transfer hooks run exactly once for every token movement by the manager",
"For a token with a transfer hook, every outbound transfer and every inbound release (other than one whose recipient is the custody account itself) runs the hook exactly once for the full amount with the real source, destination and authority, in both locking and burning modes, and a missing or wrong hook account makes the whole operation fail with no effect. A release or transfer that does nothing or fails runs no hook.",
["histories","configurations"],"all histories of transfers and releases with a hooked token in both modes",
"Tests count one transfer and one release.",
[M+'instructions/transfer.rs',M+'instructions/release_inbound.rs','solana/programs/dummy-transfer-hook/src/lib.rs'],
[("invoke_transfer_checked with remaining accounts",M+"instructions/transfer.rs, "+M+"instructions/release_inbound.rs")],["hook counter account"],"counter after each transaction")

TL='solana/ts/lib/'
TS='solana/ts/sdk/'
SD='sdk/definitions/src/'
p("C28","The TypeScript definitions encode and identify messages as the contracts do",
"The TypeScript definitions encode every transfer, manager, transceiver, transceiver-info and transceiver-registration message to exactly the documented cross-chain bytes, decode those bytes back to the same values, and refuse bytes that are cut short or carry another message type's prefix. The message identity they compute equals the one the contracts track (Keccak-256 of the big-endian source chain id and the encoded manager message), and transceiver instructions are encoded as the EVM contracts parse them: a count, then index, length and payload of each in the order given, more than 255 refused.",
["inputs"],"all field values of every message type, all additional payloads, all truncations, all lists of transceiver instructions",
"The TypeScript tests decode a few captured messages (and need a network to run); client and contract must agree for every value.",
[SD+'layouts/transceiverMessage.ts',SD+'layouts/manager.ts',SD+'layouts/transfer.ts',SD+'layouts/transceiverInfo.ts',SD+'layouts/amount.ts',SD+'layouts/prefix.ts',SD+'ntt.ts'],
[("message layouts",SD+"layouts/*.ts"),("messageDigest / encodeTransceiverInstructions",SD+"ntt.ts")])

p("C29","What the Solana TypeScript client builds does what was asked",
"Every instruction and every whole operation (initialize, transfer, redeem, complete a queued transfer, register transceiver, set peers and limits, pause, hand over ownership, broadcast, lookup table) that the Solana TypeScript client builds for a manager, with its built-in or a standalone transceiver, is accepted by the programs exactly when the request is legitimate, and then has exactly the effect that was asked for: the same amounts, recipients, chains, queueing choice, accounts and published messages as the correct call, and nothing more.",
["histories","inputs"],"all manager states, request parameters, token programs, modes and callers",
"The client's tests run a few scenarios against a local validator, which is not part of the repository's reliable tests; seeds, argument encodings and account lists must be right for all states.",
[TL+'ntt.ts',TS+'ntt.ts',TL+'bindings.ts',TL+'utils.ts'],
[("instruction builders, PDA seeds, session authority",TL+"ntt.ts"),("transfer / redeem / completeInboundQueuedTransfer / admin operations",TS+"ntt.ts")],None,"state after executing the built transactions on the programs")

p("C30","What the Solana TypeScript client reports is the state of the chain",
"In every reachable state the Solana TypeScript client reports the manager's true mode, pause flag, threshold, owner, custody account, token decimals, outbound and inbound limits, manager and transceiver peers (or their absence), and for every inbound message whether it is executed, whether it is queued and until when, for whom and for how much. A message already released is reported as executed and never as queued, one with no attestation as not approved; address verification reports a difference if and only if there is one. The reported current capacity is never more than the limiter would admit now.",
["histories"],"all reachable states, chains and messages, built-in and standalone transceiver",
"Reading is tested only in passing; users decide on money with it in every state of every message.",
[TS+'ntt.ts',TL+'ntt.ts'],
[("getPeer, getInboundLimit, getIsExecuted, getIsApproved, getInboundQueuedTransfer, verifyAddresses",TS+"ntt.ts")],None,"values returned by the client")

p("C31","The TypeScript quoter client quotes enough and requests what was asked",
"Administrative instructions built by the TypeScript quoter client have exactly the effect asked for, for every key, price and parameter. A delivery price it quotes covers the fee the quoter charges with at least a five per cent margin and exceeds the cost only by that margin and the request's rent; a relay requested at the quoted price is accepted with exactly the drop-off asked for and is then reported as requested. Where relaying is not available (unregistered or paused chain, unregistered manager, drop-off above the chain's maximum) nothing is quoted. An automatic transfer carries a relay request for that transfer with exactly the gas drop-off the caller asked for.",
["inputs","histories"],"all prices, parameters, drop-offs, registrations and histories of the quoter",
"Tests quote one price; unit conversions (gwei, lamports, micro-dollars) and availability must be right for all values.",
[TL+'quoter.ts',TS+'ntt.ts',TL+'utils.ts'],
[("calcRelayCost, createRequestRelayInstruction, admin builders",TL+"quoter.ts"),("quoteDeliveryPrice, isRelayingAvailable, transfer with automatic",TS+"ntt.ts")],None,"quoter state and charged lamports")

p("C32","Route and CLI helpers trim, match and compare exactly",
"The TypeScript route trims an amount to the smallest of 8, source and destination decimals, rounding down, at its original scale; reports the capacity threshold as exceeded exactly when the amount is above 95 per cent of the capacity; and finds, regardless of letter case, exactly the configured contracts and destination tokens of the token group the asked address belongs to on the asked chain (an error or nothing when there is none). A contract version is compatible exactly when its major version equals and its minor version is at least the client's, and the Solana client picks the interface of a deployed program by that rule. The CLI's comparison of local and deployed configuration reports exactly the leaves that differ, with both values, and nothing when they agree.",
["inputs","configurations"],"all amounts, decimals, capacities, versions, token configurations and configuration trees",
"No test covers these helpers; a user sends money by their answers.",
['sdk/route/src/types.ts',SD+'ntt.ts','cli/src/diff.ts'],
[("trimAmount, isCapacityThresholdExceeded, resolve*","sdk/route/src/types.ts"),("abiVersionMatches",SD+"ntt.ts"),("diffObjects","cli/src/diff.ts")])

p("C33","Routes send what they quoted and report a transfer's true progress",
"A transfer validated, quoted and initiated through the manual or automatic TypeScript route asks the source chain's protocol, with the configured source contracts, for exactly the quoted amount (the requested one without dust) to the given recipient with the requested gas drop-off, never queued and automatic only on the automatic route; the quoted destination amount is that amount in destination decimals, the quoted relay fee is the delivery price, and a capacity warning is given if and only if a rate limit applies and the amount is above 95 per cent of the capacity. The automatic route quotes nothing when no relay is available, and tokens outside the configuration are refused. Tracking reports attested, redeemed, queued (with the true release time) and finalized exactly when the destination says so; completing redeems that message once, on the destination contracts, and only when attested; finalizing releases that message only when it is queued; a resumed transfer carries the contracts and amount the message names.",
["inputs","histories","configurations"],"all amounts, decimals, options, configurations, capacities and destination states",
"No test runs the routes offline; a user follows their money through them.",
['sdk/route/src/automatic.ts','sdk/route/src/manual.ts','sdk/route/src/types.ts'],
[("validate, quote, initiate, resume, track, complete, finalize","sdk/route/src/*.ts")],None,"calls made to the chains' protocols, receipts")

p("C34","The TypeScript client for EVM chains builds the calls asked for and reads the contracts truly",
"Against any state of the EVM manager and transceiver contracts and every supported contract version, each operation of the TypeScript EVM client yields exactly the transactions asked for: right contract, function, arguments, value, sender and chain. A transfer carries the amount, destination chain, recipient, queueing choice and relaying choice asked for, pays exactly the delivery price quoted for those choices, and is preceded by an approval of exactly that amount to the manager if and only if the allowance is below it; redeeming submits the given message to the transceiver and is refused for a wrong number or type of messages; completing a queued transfer names that message. What it reads (mode, pause, owner, pausers, threshold, peers, limits and queued amounts in token units, capacities, delivery prices, relaying flags, whether a message is approved, queued or executed and not queued) is what the contracts hold for the chain and message asked about, with nothing reported where nothing is stored; comparing configured with deployed addresses names exactly those that differ. Unsupported contract versions and a network other than the configured one are refused.",
["inputs","configurations"],"all contract states, addresses, amounts, chains, messages and contract versions",
"The repository tests this client only against live chains; the contracts execute whatever it encodes.",
['evm/ts/src/ntt.ts','evm/ts/src/bindings.ts'],
[("EvmNtt, EvmNttWormholeTranceiver","evm/ts/src/ntt.ts"),("loadAbiVersion","evm/ts/src/bindings.ts")],None,"encoded transactions and returned values")

p("C35","The command line tool's file, reports and transactions agree with the chains",
"Whatever the contracts hold, the command line tool's pull and clone write a deployment file stating exactly the deployed configuration of every chain (limits in tokens, with exactly the token's decimals; nothing is written when declined, when nothing differs, or when cloning over a file), and status, which sends nothing, says up to date if and only if the file equals the chains and no registration is missing, and names each missing or wrong registration. Push sends exactly the missing registrations and, unless declined, the settings that differ (pausing, pausers, limits and owner, with the file's values, ownership handed over last); it refuses limits not written with the token\'s decimals and changes it cannot make, and repeated after an interruption it ends in the state the file asks for. Adding a chain that is already there, a second locking chain or a deprecated test chain, or without mode or token, is refused before anything is deployed, init never overwrites a file, and the tool's settings are set, removed and read back exactly, an environment variable taking precedence over the local setting and that over the global one.",
["histories","inputs","fault_sequences"],"all deployments of up to five chains, files differing from them, sequences of commands, declined questions, failing reads and transactions",
"No test runs the tool offline; an operator changes and audits live deployments with it.",
['cli/src/index.ts','cli/src/configuration.ts','cli/src/diff.ts'],
[("pull, push, status, clone, init, add-chain","cli/src/index.ts"),("set-chain, unset-chain, get-chain, get","cli/src/configuration.ts")],None,"file contents, transactions sent, lines printed and exit status")

p("C36","The command line tool deploys and upgrades what was asked and records it",
"Adding or upgrading a chain with the command line tool hands the build and deployment programs exactly what was asked: the requested source version (the numerically latest one on request, the local tree only on request and after confirmation), network, token, mode, decimals, core contract, relayers, signer, verification key, program key, binary and priority fee, and initializes a new Solana manager with that mint and mode. The deployment file then states exactly the deployed chain (after an upgrade, its version as read from the chain) and is otherwise unchanged; whenever a question is declined, a version, payer, key, mint, authority, program or binary is missing or does not fit, or a program fails, nothing is recorded, and nothing is deployed unless it was too late, and project files that were replaced for the deployment are restored. The keys, token authorities and token accounts it prints are the ones the programs use.",
["inputs","histories","fault_sequences"],"all requests, versions, keys, mints and binaries, answers to questions and outcomes of the programs it runs",
"No test runs the tool offline; deployments are made once and cannot be taken back.",
['cli/src/index.ts','cli/src/tag.ts'],
[("add-chain, upgrade, deployEvm, deploySolana, solana token-authority / ata / key-base58","cli/src/index.ts"),("getAvailableVersions, getGitTagName","cli/src/tag.ts")],None,"programs run with their arguments, file contents, exit status")

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')

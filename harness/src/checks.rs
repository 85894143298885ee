//! Which drivers decide which property, and what makes a case non-trivial for it.
use crate::engine::{Fail, Obs, Src};
use crate::gen::{history, Op, Profile};
use crate::{gov, quoter};

pub type Run = Box<dyn Fn(&mut Src, &mut Obs) -> Result<(), Fail> + Sync>;
/// every group must have one of its situations in the case
pub type Rule = &'static [&'static [&'static str]];

pub struct Part {
    pub name: &'static str,
    pub what: &'static str,
    /// a fifth of the cases of the quick tier
    pub cases: u64,
    pub rule: Rule,
    pub run: Run,
}
pub struct PropCheck {
    pub id: &'static str,
    pub parts: Vec<Part>,
}

fn world(name: &'static str, what: &'static str, cases: u64, rule: Rule, p: Profile) -> Part {
    Part { name, what, cases, rule, run: Box::new(move |s, o| history(s, o, &p)) }
}
fn quo(name: &'static str, what: &'static str, cases: u64, rule: Rule, forge: u64, mean: u64) -> Part {
    Part { name, what, cases, rule, run: Box::new(move |s, o| quoter::history(s, o, forge, mean)) }
}
fn govern(name: &'static str, what: &'static str, cases: u64, rule: Rule, forge: u64, mean: u64) -> Part {
    Part { name, what, cases, rule, run: Box::new(move |s, o| gov::history(s, o, forge, mean)) }
}
#[cfg(feature = "direct")]
fn direct(
    name: &'static str,
    what: &'static str,
    cases: u64,
    rule: Rule,
    f: fn(&mut Src, &mut Obs) -> Result<(), Fail>,
) -> Part {
    Part { name, what, cases, rule, run: Box::new(f) }
}

const OUT: &[&str] = &["outbound transfer within capacity", "outbound transfer queued for 24 h"];
const PUBLISHED: &[&str] = &["published", "published by standalone transceiver"];

/// inbound traffic only, with the odds and ends needed to vary it
fn inbound() -> Profile {
    Profile::base().set(&[
        (Op::Transfer, 3),
        (Op::TransferMiss, 0),
        (Op::ReleaseOut, 0),
        (Op::BroadcastId, 0),
        (Op::BroadcastPeer, 0),
        (Op::Inbound, 16),
        (Op::Receive, 6),
        (Op::Redeem, 12),
        (Op::ReleaseIn, 16),
        (Op::Replay, 6),
    ])
}
fn outbound() -> Profile {
    Profile::base().set(&[
        (Op::Inbound, 4),
        (Op::Receive, 0),
        (Op::Redeem, 1),
        (Op::ReleaseIn, 3),
        (Op::Transfer, 18),
        (Op::ReleaseOut, 16),
        (Op::BroadcastId, 0),
        (Op::BroadcastPeer, 0),
    ])
}
fn admin() -> Profile {
    Profile {
        miss: 35,
        ..Profile::base().set(&[
            (Op::SetPeer, 6),
            (Op::OutLimit, 6),
            (Op::InLimit, 6),
            (Op::Pause, 6),
            (Op::Register, 6),
            (Op::Nominate, 6),
            (Op::Claim, 5),
            (Op::SetXPeer, 6),
            (Op::Forge, 4),
            (Op::Transfer, 4),
            (Op::Inbound, 4),
            (Op::ReleaseOut, 3),
            (Op::ReleaseIn, 3),
            (Op::Redeem, 3),
            (Op::Replay, 4),
        ])
    }
}

fn client() -> Profile {
    Profile {
        kinds: [4, 3, 3, 0],
        client: true,
        mean: 16,
        ..Profile::base().set(&[
            (Op::Transfer, 6),
            (Op::TransferMiss, 1),
            (Op::Inbound, 8),
            (Op::Forge, 0),
            (Op::Mark, 1),
            (Op::Lut, 2),
            (Op::BroadcastId, 2),
            (Op::BroadcastPeer, 2),
            (Op::SetPeer, 3),
            (Op::Register, 3),
            (Op::Nominate, 2),
            (Op::ClientTransfer, 12),
            (Op::ClientRedeem, 12),
            (Op::ClientRegister, 2),
            (Op::ClientXPeer, 3),
        ])
    }
}

pub fn find(id: &str) -> Option<PropCheck> {
    all().into_iter().find(|c| c.id == id)
}

pub fn all() -> Vec<PropCheck> {
    let mut v = vec![
        PropCheck {
            id: "C01",
            parts: vec![
                #[cfg(feature = "direct")]
                direct(
                    "codec",
                    "generated messages of every kind against the documented bytes; truncated, mutated and random bytes against a reference decoder; identity hash",
                    400_000,
                    &[&["round trip"]],
                    crate::direct::codec,
                ),
                world(
                    "on-chain",
                    "messages received, tracked and published by the deployed programs",
                    9_000,
                    &[&["received", "received by standalone transceiver"], PUBLISHED],
                    Profile::base().set(&[
                        (Op::BroadcastId, 4),
                        (Op::BroadcastPeer, 4),
                        (Op::ReleaseOut, 12),
                        (Op::Receive, 6),
                        (Op::Forge, 0),
                        (Op::Pause, 0),
                    ]),
                ),
            ],
        },
        PropCheck {
            id: "C02",
            parts: vec![
                #[cfg(feature = "direct")]
                direct(
                    "conversion",
                    "trimming and untrimming over all decimals and 64-bit amounts against 128-bit arithmetic",
                    2_000_000,
                    &[&["rounded down", "scaled up", "dust left with the sender", "conversion out of range"]],
                    crate::direct::amounts,
                ),
                world(
                    "on-chain",
                    "outbound and inbound transfers of tokens and peers with unusual decimals",
                    16_000,
                    &[OUT, &["inbound approved", "inbound approved with delay", "amount does not fit", "vote recorded"]],
                    Profile { odd_decimals: true, miss: 6, ..Profile::base().set(&[(Op::SetPeer, 6), (Op::Forge, 0), (Op::Pause, 0)]) },
                ),
            ],
        },
        PropCheck {
            id: "C03",
            parts: vec![
                world(
                    "transfers",
                    "outbound transfers with every precondition varied, including fee-charging tokens",
                    14_000,
                    &[OUT, &["rejected"]],
                    Profile { miss: 25, kinds: [5, 3, 2, 2], ..outbound().set(&[(Op::TransferMiss, 5), (Op::ReleaseOut, 5), (Op::Poke, 2)]) },
                ),
                world(
                    "decimals",
                    "the same with unusual decimals on both sides",
                    6_000,
                    &[OUT],
                    Profile { odd_decimals: true, ..outbound().set(&[(Op::ReleaseOut, 2), (Op::SetPeer, 6)]) },
                ),
            ],
        },
        PropCheck {
            id: "C04",
            parts: vec![
                world("inbound", "inbound transfers through all stages, odd recipients", 14_000, &[&["inbound paid"]], inbound()),
                world(
                    "decimals",
                    "the same with several transceivers and unusual decimals",
                    6_000,
                    &[&["inbound paid"]],
                    Profile { votes: true, odd_decimals: true, ..inbound() },
                ),
            ],
        },
        PropCheck {
            id: "C05",
            parts: vec![world(
                "mixed",
                "all operations in both modes and for all token kinds; every token balance and the supply compared after every transaction",
                20_000,
                &[OUT, &["inbound paid"]],
                Profile { kinds: [6, 3, 2, 1], mean: 26, ..Profile::base().set(&[(Op::Deposit, 3)]) },
            )],
        },
        PropCheck {
            id: "C06",
            parts: vec![
                world(
                    "replays",
                    "repeated and reordered deliveries, redemptions and releases",
                    12_000,
                    &[&["inbound paid"], &["exact replay of an earlier call", "already released", "message received twice", "already approved"]],
                    inbound().set(&[(Op::Replay, 14), (Op::Redeem, 18), (Op::ReleaseIn, 18)]),
                ),
                world(
                    "several transceivers",
                    "the same message through several transceivers",
                    8_000,
                    &[&["inbound paid"]],
                    Profile { votes: true, ..inbound().set(&[(Op::Replay, 10), (Op::Redeem, 18), (Op::ReleaseIn, 18)]) },
                ),
            ],
        },
        PropCheck {
            id: "C07",
            parts: vec![
                world(
                    "near misses",
                    "messages wrong in exactly one respect, peers changing, accounts mixed",
                    20_000,
                    &[&["inbound approved", "inbound approved with delay", "vote recorded"], &["rejected"]],
                    Profile { miss: 40, ..inbound().set(&[(Op::SetPeer, 5), (Op::SetXPeer, 4), (Op::ReleaseIn, 5), (Op::Forge, 6)]) },
                ),
                #[cfg(feature = "direct")]
                direct("stored messages", "the stored form of a message against the message", 60_000, &[&["stored view"]], crate::direct::codec),
            ],
        },
        PropCheck {
            id: "C08",
            parts: vec![
                world(
                    "votes",
                    "one to many transceivers, thresholds, disabling, duplicate and differing attestations",
                    18_000,
                    &[&["vote recorded"], &["inbound approved", "inbound approved with delay"]],
                    Profile {
                        votes: true,
                        ..inbound().set(&[(Op::Redeem, 20), (Op::ReleaseIn, 8), (Op::Poke, 5), (Op::Register, 3), (Op::Forge, 4)])
                    },
                ),
                #[cfg(feature = "direct")]
                direct("vote sets", "vote counting against sets of numbers", 20_000, &[&["vote set changed"]], crate::direct::bitmap),
            ],
        },
        PropCheck {
            id: "C09",
            parts: vec![world(
                "publication",
                "publishing queued transfers early, due, repeatedly, while disabled, by both transceivers",
                18_000,
                &[OUT, PUBLISHED],
                Profile { votes: true, ..outbound().set(&[(Op::ReleaseOut, 26), (Op::Mark, 5), (Op::Poke, 3), (Op::Time, 10), (Op::Replay, 8)]) },
            )],
        },
        PropCheck {
            id: "C10",
            parts: vec![
                #[cfg(feature = "direct")]
                direct(
                    "limiter",
                    "histories of consuming, refilling and limit changes over all 64-bit values against exact arithmetic",
                    400_000,
                    &[&["consumed", "refilled", "limit lowered", "limit raised"]],
                    crate::direct::limiter,
                ),
                world(
                    "on-chain",
                    "limits set, consumed and refilled through the programs",
                    12_000,
                    &[&["outbound limit set", "inbound limit set"], OUT],
                    Profile::base().set(&[(Op::Time, 16), (Op::OutLimit, 10), (Op::InLimit, 10), (Op::Forge, 0), (Op::Pause, 0)]),
                ),
            ],
        },
        PropCheck {
            id: "C11",
            parts: vec![world(
                "outbound limit",
                "transfers around the outbound capacity, with and without queueing",
                18_000,
                &[&["outbound transfer within capacity"], &["outbound transfer queued for 24 h", "over the rate limit without queueing"]],
                outbound().set(&[(Op::Transfer, 26), (Op::OutLimit, 6), (Op::Time, 14), (Op::ReleaseOut, 10), (Op::TransferMiss, 4), (Op::Pause, 1)]),
            )],
        },
        PropCheck {
            id: "C12",
            parts: vec![
                world(
                    "inbound limit",
                    "approvals and releases around the inbound capacities of several chains and around the release time",
                    14_000,
                    &[&["inbound approved with delay"], &["inbound paid", "inbound release did nothing", "released too early"]],
                    inbound().set(&[(Op::InLimit, 8), (Op::Time, 14), (Op::Pause, 1), (Op::SetPeer, 3)]),
                ),
                world(
                    "several transceivers",
                    "the same with several transceivers and thresholds up to four",
                    7_000,
                    &[&["inbound approved with delay"], &["inbound paid", "inbound release did nothing", "released too early"]],
                    Profile { votes: true, ..inbound().set(&[(Op::InLimit, 8), (Op::Time, 12), (Op::Redeem, 20), (Op::Pause, 1), (Op::SetPeer, 3)]) },
                ),
            ],
        },
        PropCheck {
            id: "C13",
            parts: vec![world(
                "backflow",
                "alternating inbound and outbound flow with small limits on several chains",
                18_000,
                &[&["outbound transfer within capacity"], &["inbound approved"]],
                Profile { mean: 28, ..Profile::base().set(&[
                    (Op::Transfer, 18),
                    (Op::Inbound, 18),
                    (Op::Redeem, 12),
                    (Op::OutLimit, 6),
                    (Op::InLimit, 6),
                    (Op::Time, 8),
                    (Op::Forge, 0),
                    (Op::Pause, 1),
                    (Op::ReleaseOut, 3),
                    (Op::BroadcastId, 0),
                    (Op::BroadcastPeer, 0),
                ]) },
            )],
        },
        PropCheck {
            id: "C14",
            parts: vec![world(
                "pausing",
                "every operation while paused and after unpausing",
                18_000,
                &[&["paused"], &["succeeded while paused"]],
                Profile { mean: 28, ..Profile::base().set(&[
                    (Op::Pause, 14),
                    (Op::Forge, 1),
                    (Op::Mark, 6),
                    (Op::Receive, 6),
                    (Op::SetPeer, 3),
                    (Op::Register, 2),
                    (Op::Nominate, 2),
                    (Op::Claim, 2),
                    (Op::SetXPeer, 2),
                    (Op::BroadcastId, 2),
                    (Op::BroadcastPeer, 2),
                    (Op::Lut, 3),
                ]) },
            )],
        },
        PropCheck {
            id: "C15",
            parts: vec![world(
                "administration",
                "administration by owners, former owners, nominees and strangers",
                18_000,
                &[
                    &["not the owner", "missing signature"],
                    &["peer set", "outbound limit set", "inbound limit set", "transceiver peer set", "transceiver registered"],
                ],
                admin(),
            )],
        },
        PropCheck {
            id: "C16",
            parts: vec![world(
                "ownership",
                "one- and two-step ownership transfers, cancellations, claims by strangers",
                20_000,
                &[&["owner nominated", "ownership transferred in one step"], &["ownership claimed", "not the owner", "claimed by neither nominee nor owner"]],
                admin().set(&[(Op::Nominate, 22), (Op::Claim, 22), (Op::Transfer, 1), (Op::Inbound, 1), (Op::Redeem, 0), (Op::ReleaseIn, 0), (Op::ReleaseOut, 0), (Op::Forge, 8), (Op::Poke, 8)]),
            )],
        },
        PropCheck {
            id: "C17",
            parts: vec![
                world(
                    "approvals",
                    "transfers under approvals given for something else, by someone else or too small",
                    16_000,
                    &[OUT, &["transfer under an approval for something else", "not approved", "allowance too small"]],
                    Profile { mean: 18, ..outbound().set(&[(Op::TransferMiss, 22), (Op::ReleaseOut, 2), (Op::Forge, 6), (Op::Replay, 6)]) },
                ),
                #[cfg(feature = "direct")]
                direct("requests", "pairs of transfer requests: equal authority exactly when equal", 300_000, &[&["request pair compared"]], crate::direct::request_hash),
            ],
        },
        PropCheck {
            id: "C18",
            parts: vec![
                world(
                    "manager and transceivers",
                    "otherwise valid calls with one account substituted or one signature missing",
                    16_000,
                    &[&["account substituted", "required signature missing"]],
                    Profile { votes: true, kinds: [5, 3, 2, 0], ..Profile::base().set(&[(Op::Forge, 40), (Op::Lut, 1), (Op::Reinit, 1), (Op::Mark, 5)]) },
                ),
                quo("quoter", "the same for the quoter", 12_000, &[&["account substituted", "required signature missing"]], 45, 16),
                govern("governance", "the same for governance", 12_000, &[&["account substituted", "required signature missing"]], 60, 6),
            ],
        },
        PropCheck {
            id: "C19",
            parts: vec![
                world(
                    "registration",
                    "registrations of programs and non-programs, repeats, near the maximum, interleaved with traffic",
                    14_000,
                    &[&["transceiver registered"]],
                    Profile {
                        votes: true,
                        ..admin().set(&[(Op::Register, 30), (Op::Poke, 8), (Op::Redeem, 4), (Op::Inbound, 6), (Op::Nominate, 1), (Op::Claim, 1)])
                    },
                ),
                #[cfg(feature = "direct")]
                direct("vote sets", "set operations against sets of numbers", 60_000, &[&["vote set changed"]], crate::direct::bitmap),
            ],
        },
        PropCheck {
            id: "C20",
            parts: vec![world(
                "initialization",
                "initialization by various callers, for various mints, modes and values, repeated; operations of both modes afterwards",
                20_000,
                &[&["initialized", "initialization varied"], &["rejected"]],
                Profile {
                    vary_init: true,
                    mean: 14,
                    miss: 20,
                    ..Profile::base().set(&[(Op::Reinit, 6), (Op::TransferMiss, 4)])
                },
            )],
        },
        PropCheck {
            id: "C21",
            parts: vec![quo(
                "relay requests",
                "relay requests with prices, parameters, drop-offs, maxima and transfers varied around every boundary",
                60_000,
                &[&["relay requested"], &["rejected"]],
                4,
                18,
            )],
        },
        PropCheck {
            id: "C22",
            parts: vec![quo(
                "administration",
                "administration, fee collection and initialization by everybody",
                60_000,
                &[&["rejected"], &["setting changed", "owner setting changed", "relay closed"]],
                10,
                18,
            )],
        },
        PropCheck {
            id: "C23",
            parts: vec![
                govern(
                    "execution",
                    "posted governance messages, genuine or wrong in one respect, executed once, repeatedly, with accounts missing or substituted",
                    60_000,
                    &[&["governance executed"], &["rejected"]],
                    10,
                    8,
                ),
                #[cfg(feature = "direct")]
                direct("codec", "governance messages against the documented bytes", 200_000, &[&["governance message round trip"]], gov::codec),
            ],
        },
        PropCheck {
            id: "C24",
            parts: vec![world(
                "standalone transceiver",
                "traffic through the standalone transceiver and marking by other transceivers",
                20_000,
                &[&["published by standalone transceiver", "received by standalone transceiver", "marked"]],
                Profile {
                    votes: true,
                    ..Profile::base().set(&[(Op::Mark, 14), (Op::ReleaseOut, 14), (Op::Receive, 6), (Op::SetXPeer, 4), (Op::BroadcastId, 3), (Op::BroadcastPeer, 3), (Op::Poke, 3), (Op::Forge, 5)])
                },
            )],
        },
        PropCheck {
            id: "C25",
            parts: vec![world(
                "broadcasts",
                "broadcasts by anyone at any time, from both transceivers, between other operations",
                20_000,
                &[&["identity broadcast"], &["peer broadcast", "no transceiver peer for the chain"]],
                Profile {
                    odd_decimals: true,
                    ..Profile::base().set(&[(Op::BroadcastId, 20), (Op::BroadcastPeer, 22), (Op::SetXPeer, 8), (Op::Pause, 4), (Op::Nominate, 2), (Op::Claim, 2), (Op::Forge, 6)])
                },
            )],
        },
        PropCheck {
            id: "C26",
            parts: vec![world(
                "lookup table",
                "lookup tables created repeatedly, with wrong slots and accounts, between other operations",
                12_000,
                &[&["lookup table created"]],
                Profile { mean: 12, miss: 25, ..admin().set(&[(Op::Lut, 45), (Op::Forge, 14)]) },
            )],
        },
        PropCheck {
            id: "C27",
            parts: vec![world(
                "hooks",
                "transfers and releases of a token with a transfer hook, with its accounts complete, missing or wrong",
                20_000,
                &[OUT, &["inbound paid"]],
                Profile { kinds: [0, 0, 1, 0], miss: 20, ..Profile::base().set(&[(Op::Pause, 1), (Op::BroadcastId, 0), (Op::BroadcastPeer, 0), (Op::Forge, 6)]) },
            )],
        },
    ];
    v.extend([
        PropCheck {
            id: "C28",
            parts: vec![Part {
                name: "messages",
                what: "messages of every type encoded, decoded and identified by the TypeScript definitions, whole, cut short and of another type",
                cases: 6_000,
                rule: &[&["message encoded"], &["message decoded"]],
                run: Box::new(crate::sdk::messages),
            }],
        },
        PropCheck {
            id: "C31",
            parts: vec![Part {
                name: "quoter client",
                what: "the relay quoter run through its TypeScript client: administration, quotes, requests at the quoted price, what the client reads back",
                cases: 700,
                rule: &[&["built by the client"], &["quote covers the fee", "relay requested at the quoted price"]],
                run: Box::new(|s, o| quoter::client_history(s, o, 14)),
            }, world(
                "automatic transfers",
                "transfers sent by the TypeScript client together with a relay request",
                500,
                &[&["client: relay requested with the transfer"]],
                Profile { relay: true, mean: 10, ..client().set(&[(Op::ClientTransfer, 40), (Op::ClientRedeem, 2), (Op::Poke, 0)]) },
            )],
        },
        PropCheck {
            id: "C32",
            parts: vec![Part {
                name: "route",
                what: "amounts, contract lookups, version checks and configuration differences of the TypeScript route and CLI",
                cases: 6_000,
                rule: &[&["dust removed"], &["destination token found", "contracts found", "configurations differ"]],
                run: Box::new(crate::sdk::route),
            }],
        },
        PropCheck {
            id: "C33",
            parts: vec![Part {
                name: "routes",
                what: "transfers sent, tracked, resumed, completed and finalized by the TypeScript manual and automatic routes over recorded protocols",
                cases: 6_000,
                rule: &[&["transfer sent as quoted", "transfer tracked"]],
                run: Box::new(crate::sdk::flow),
            }],
        },
        PropCheck {
            id: "C34",
            parts: vec![Part {
                name: "evm",
                what: "reads and transactions of the TypeScript client for EVM chains over generated contract states, all supported contract versions",
                cases: 8_000,
                rule: &[&["EVM transfer sent", "EVM transfer approved and sent", "EVM message redeemed", "EVM queued transfer completed", "EVM administration"], &["EVM state read", "EVM peer read", "EVM limit read", "EVM message progress read", "EVM queued transfer read"]],
                run: Box::new(crate::evm::evm),
            }],
        },
        PropCheck {
            id: "C35",
            parts: vec![
                Part {
                    name: "deployment",
                    what: "pull, push, status and clone of the command line tool over modelled deployments, with declined prompts, failing reads and failing transactions",
                    cases: 3_000,
                    rule: &[&["configuration pushed", "configuration pulled", "difference reported", "deployment cloned"]],
                    run: Box::new(crate::cli::deployment),
                },
                Part {
                    name: "settings",
                    what: "settings of the command line tool, new deployment files and chains that may not be added",
                    cases: 1_000,
                    rule: &[&["setting read", "setting in force read", "chain not added"]],
                    run: Box::new(crate::cli::settings_file),
                },
            ],
        },
        PropCheck {
            id: "C36",
            parts: vec![
                Part {
                    name: "deploying",
                    what: "adding and upgrading chains with the command line tool, over recorded git, forge, anchor and solana programs with generated outcomes",
                    cases: 3_000,
                    rule: &[&["EVM chain added", "EVM chain upgraded", "Solana chain added", "Solana chain upgraded"]],
                    run: Box::new(crate::deploy::deploying),
                },
                Part {
                    name: "addresses",
                    what: "keys and addresses printed by the command line tool",
                    cases: 300,
                    rule: &[&["address printed"]],
                    run: Box::new(crate::deploy::addresses),
                },
            ],
        },
        PropCheck {
            id: "C29",
            parts: vec![world(
                "client",
                "instructions and whole operations built by the TypeScript client, executed by the deployed programs and compared with what was asked for",
                1_200,
                &[&["client: outbound transfer published", "client: outbound transfer queued", "client: inbound transfer paid", "client: inbound transfer queued"]],
                client(),
            )],
        },
        PropCheck {
            id: "C30",
            parts: vec![world(
                "client",
                "the manager's state as the TypeScript client reports it, between other operations",
                1_000,
                &[&["state read by the client"], &["executed transfer read by the client", "queued transfer read by the client"]],
                Profile { client: false, votes: true, ..client().set(&[(Op::ClientRead, 20), (Op::ClientTransfer, 0), (Op::ClientRedeem, 0), (Op::ClientRegister, 0), (Op::ClientXPeer, 0), (Op::Inbound, 20), (Op::SetXPeer, 4)]) },
            )],
        },
    ]);
    v.sort_by_key(|c| c.id);
    v
}

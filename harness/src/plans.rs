//! Which workloads and monitors decide which property.
use crate::run::{Driver, Fun, Plan};
use crate::{adv, cluster, codecs, fuzz, lattice, rr, sim, storm, twin};

type Marks = &'static [&'static str];
fn d(name: &'static str, quick: u64, thorough: u64, f: Fun, marks: Marks) -> Driver {
    Driver { name, quick, thorough, f, marks }
}
fn w1(quick: u64, thorough: u64, marks: Marks) -> Driver {
    d("world", quick, thorough, |p, s, t, _| adv::run_case(p, s, t), marks)
}

/// several instances on a bad network, each with the property's monitor
fn w3(quick: u64, thorough: u64, marks: Marks) -> Driver {
    d("cluster", quick, thorough, cluster::case, marks)
}

const ID: &str = "identities form a total conflict order per address and their PartialEq/Addr are consistent";
const CODEC: &str = "the codec used by the workload is correct (hand-written, bincode and postcard ones are used; C20 checks the bundled ones)";
const TOKEN: &str = "fewer than 200 epochs pass between a timer being issued and delivered (the token is 8 bits wide)";
const SIM: &str = "virtual time: latencies stay below rtt/4 and (period-rtt)/4, every timer fires exactly on time, datagram loss only where the case injects it";
const W1RULE: &str = "A case is one generated history (20-600 calls) of one real instance in a generated world: \
crafted/mutated datagrams, own timers (in order, late, out of order, stale, duplicated), every public call, \
boundary-biased identities, incarnations, packet sizes and configurations (driver world), or of 2-7 real instances \
on a faulty network, each one monitored (driver cluster), or (driver huge) an instance with 70k members and packets of megabytes. Every call is observed by the property's \
monitor (effects, results, state before and after). Non-trivial: the situation the property talks about occurred \
(counters under 'observed'). Distinct: by hash of the whole effect stream. ";

macro_rules! rule {
    ($($x:expr),*) => { concat!($($x),*) };
}

pub fn plan(prop: &str) -> Option<Plan> {
    let p = |prop, drivers, rule: &'static str, need, assumptions| Plan { prop, drivers, rule, need, assumptions };
    let w1rule = W1RULE;
    Some(match prop {
        "C01" => p(
            "C01",
            vec![
                d("pairs", 1, 1, lattice::pairs, &[]),
                d("huge", 6, 8, fuzz::huge, &["more_than_64k_members"]),
                d("orders", 200_000, 20_000_000, lattice::orders, &["orders_compared"]),
                d("exchange", 200_000, 20_000_000, lattice::exchange, &["exchanges"]),
                w1(120_000, 4_000_000, &["moved_forward"]),
                w3(20_000, 1_000_000, &["moved_forward"]),
            ],
            rule!("pairs: every (record, update) pair over 3 generations x 6 incarnations x 3 states against the precedence \
table written from the property. orders: a multiset of updates applied to fresh instances in many orders and \
multiplicities (all permutations when small), views compared and compared with the reference join; non-trivial: \
at least two orders compared. exchange: two instances with different histories swap full states both ways and must \
agree; own state re-applied must change nothing (driver huge: 70k records). world: single-instance histories with the forward-only monitor; \
non-trivial: a record moved. Distinct: by hash of inputs/effects."),
            &["moved_forward", "orders_compared", "exchanges", "own_state_reapplied", "pairs"],
            &[ID, "exchange excludes records about either participant's own address, as the property does"],
        ),
        "C02" => p(
            "C02",
            vec![
                d("large", 4, 48, sim::c02_large, &["converged"]),
                d("join", 60_000, 3_000_000, sim::c02, &["converged"]),
            ],
            rule!("A case is one simulated cluster (real instances, virtual time): size, join order and targets, configuration, \
RNG seeds, latencies and codec generated. Every event is checked (no error, no MemberDown/Idle/Defunct, no live member \
recorded Suspect/Down), and convergence is required within 6n+16 probe periods (+12 announce periods when enabled). \
Non-trivial: the cluster converged under observation. Distinct: by hash of the event stream."),
            &["converged"],
            &[SIM, "linear bound chosen as 6n+16 periods; the recorded finding C02-starved-joiners is tolerated up to its listed rate"],
        ),
        "C03" => p(
            "C03",
            vec![
                d("large", 4, 48, sim::c03_large, &["failures"]),
                d("fail", 60_000, 3_000_000, sim::c03, &["failures"]),
            ],
            rule!("A case forms a cluster, then crashes and/or leave_cluster()s a generated subset at generated moments (mid-probe \
included) and watches every survivor: MemberDown for each failed member within (2n+1) periods + suspect_to_down_after of \
virtual time, nobody live declared Down, a leaver told members at once and stays silent to probes. Non-trivial: a failure \
was injected and detected. Distinct: by hash of the event stream."),
            &["leaves", "crashes"],
            &[SIM],
        ),
        "C04" => p(
            "C04",
            vec![d("loss", 100_000, 5_000_000, sim::c04, &["single_losses"])],
            rule!("A case forms a cluster, then drops exactly one generated datagram (any kind, any direction, any moment) and keeps \
watching: no MemberDown/Defunct/Rejoin anywhere, everybody Alive everywhere again within the bound. Non-trivial: the \
datagram was really dropped. Distinct: by hash of the event stream."),
            &["single_losses"],
            &[SIM, "suspect_to_down_after leaves room for the refutation to travel (several periods)"],
        ),
        "C05" => p(
            "C05",
            vec![d("heal", 40_000, 2_000_000, sim::c05, &["healed"])],
            rule!("A case forms a cluster of renewable identities, partitions it (generated split) until both sides declared each \
other Down, heals it, and requires full mutual activity under current identities within a bounded number of \
announce-to-down periods; Rejoin (never Defunct) with winning identities, Active afterwards. Non-trivial: the healed \
cluster converged. Distinct: by hash of the event stream."),
            &["healed"],
            &[SIM, "the recorded finding C05-simultaneous-renewal is tolerated up to its listed rate", "remove_down_after is longer than the partition"],
        ),
        "C06" => p(
            "C06",
            vec![
                d("presets", 1, 1, fuzz::presets, &[]),
                d("huge", 6, 6, fuzz::huge, &["more_than_64k_members"]),
                d("abuse", 60_000, 4_000_000, fuzz::abuse, &["datagrams_sent"]),
                w1(20_000, 1_000_000, &["datagrams"]),
            ],
            rule!("abuse: 1-3 real instances with extreme configurations, codecs (six, one of them answering arbitrarily), identities \
(also with inconsistent conflict resolution), RNGs (also constant ones) get arbitrary calls, timers (stale, duplicated, \
forged) and bytes (valid, mutated, random, each other's) with catch_unwind around every call; run in a release build and in \
one with debug assertions, overflow checks and unstable-notifications; the whole run is in a supervised child, so aborts \
count too. huge: 70k members and packets of megabytes. presets: both constructors over all edges (thorough: every u32). \
Non-trivial: the case made foca emit datagrams. Distinct: by hash of call kinds, results and effect counts."),
            &["cluster_sizes", "more_than_64k_members", "mutated_datagrams", "genuine_deliveries", "flap_marathons", "probe_marathons", "bulk_applies", "wild_identities", "codec_tiny", "codec_weird", "defunct", "rejoins"],
            &["user-supplied traits never panic", "memory use bounded by what the case itself feeds in (20 GB limit)"],
        ),
        "C07" => p("C07", vec![d("huge", 6, 8, fuzz::huge, &["more_than_64k_members"]), w1(120_000, 4_000_000, &["datagrams"]), w3(20_000, 1_000_000, &["datagrams"])], w1rule, &["datagrams", "feeds"], &[CODEC, ID]),
        "C08" => p("C08", vec![d("huge", 6, 8, fuzz::huge, &["more_than_64k_members"]), w1(120_000, 4_000_000, &["MemberUp"]), w3(20_000, 1_000_000, &["MemberUp"])], w1rule, &["MemberUp"], &[CODEC, ID]),
        "C09" => p("C09", vec![d("huge", 6, 8, fuzz::huge, &["more_than_64k_members"]), w1(120_000, 4_000_000, &["renames"]), w3(20_000, 1_000_000, &["renames"])], w1rule, &["renames"], &[CODEC, ID]),
        "C10" => p("C10", vec![w1(120_000, 4_000_000, &["refutations"]), w3(20_000, 1_000_000, &["refutations"])], w1rule, &["refutations"], &[CODEC, ID]),
        "C11" => p("C11", vec![w1(120_000, 4_000_000, &["timeouts_effective"]), w3(20_000, 1_000_000, &["timeouts_effective"])], w1rule, &["timeouts_effective"], &[CODEC, ID, TOKEN]),
        "C12" => p("C12", vec![w1(120_000, 4_000_000, &["rounds_failed"]), w3(20_000, 1_000_000, &["rounds_failed"])], w1rule, &["rounds_failed"], &[CODEC, ID, TOKEN]),
        "C13" => p(
            "C13",
            vec![w1(120_000, 4_000_000, &["timers_fired"]), w3(20_000, 1_000_000, &["timers_fired"])],
            w1rule,
            &["timers_fired"],
            &[CODEC, ID, TOKEN, "each issued timer is delivered exactly once"],
        ),
        "C14" => p(
            "C14",
            vec![d("rr", 60_000, 4_000_000, rr::c14, &["full_windows"]), w1(60_000, 2_000_000, &["full_windows"])],
            rule!("rr: an instance is given a generated arrangement of active and Down records, cursor position and RNG seed, then \
only probed (acks, losses, Down churn that keeps the active set); every sliding window of 2n-1 rounds must ping each of \
the n active members. world: the same monitor on arbitrary histories whenever the active set stays put. Non-trivial: at \
least one complete window was judged. Distinct: by hash of the effect stream."),
            &["full_windows", "windows_with_down_records"],
            &[ID],
        ),
        "C15" => p("C15", vec![d("huge", 6, 8, fuzz::huge, &["more_than_64k_members"]), w1(120_000, 4_000_000, &["accepted"]), w3(20_000, 1_000_000, &["accepted"])], w1rule, &["accepted"], &[CODEC, ID]),
        "C16" => p("C16", vec![w1(120_000, 4_000_000, &["items_accepted"]), w3(20_000, 1_000_000, &["items_accepted"])], w1rule, &["items_accepted"], &[CODEC, ID]),
        "C17" => p(
            "C17",
            vec![
                d("process", 1_500, 20_000, twin::process, &["compared_with_another_process"]),
                d("twin", 60_000, 4_000_000, twin::c17, &["rejected_inserted"]),
            ],
            rule!("A case runs a generated history on one instance and the same history with rejected inputs of every listed kind \
inserted at generated places on a twin with the same seed; every send, timer, notification, result and ordered state \
snapshot must be identical (and a third, plain re-run must be too). process: the same history in this long-lived process and in \
one of its own. Non-trivial: at least one rejected input was inserted (twin) / both were compared (process). Distinct: by hash of the effect stream."),
            &["oversized", "truncated_header", "random_bytes", "undecodable_members", "from_ourselves", "bad_framing", "not_for_us", "stale_timer", "reuse_not_undead", "same_identity", "invalid_config", "empty_item", "huge_item", "compared_with_another_process"],
            &[CODEC, TOKEN, "the user's BroadcastHandler and RNG are deterministic"],
        ),
        "C18" => p(
            "C18",
            vec![d("storm", 1_000_000, 40_000_000, storm::c18, &["cascades_with_replies"])],
            rule!("A case brings 2-6 instances into generated mutual states (including mutually Down, Defunct, left, renewed), drains \
the network, holds all timers, injects one datagram (genuine or crafted from one of them) and delivers until silence: \
replies per datagram bounded, cascade over within 4000 deliveries. Non-trivial: the cascade had replies. Distinct: by hash \
of the exchange."),
            &["cascades_with_replies", "pairs_considering_each_other_down"],
            &[CODEC, ID],
        ),
        "C19" => p("C19", vec![w1(120_000, 4_000_000, &["destinations_checked"]), w3(20_000, 1_000_000, &["destinations_checked"])], w1rule, &["destinations_checked"], &[CODEC, ID]),
        "C20" => p(
            "C20",
            vec![
                d("sweep", 150_000, 8_000_000, codecs::c20, &["decoded_equal"]),
                d("unlimited", 1, 1, codecs::c20_unlimited_string, &[]),
                w1(40_000, 1_000_000, &["feeds"]),
            ],
            rule!("sweep: generated headers and members of every kind over several identity types and codec configurations: round trip, \
exact consumption with trailing data, every shorter buffer, every truncation, bit flips and random bytes. world: instances \
using the bundled codecs at packet sizes that run out mid-feed, every datagram parsed. Non-trivial: a value was encoded and \
decoded back (sweep) / a Feed was sent (world). Distinct: by hash of the encoded bytes/effects."),
            &["decoded_equal", "too_small", "truncated_err", "arbitrary_err", "feeds"],
            &["bincode without a size limit is only used with identities that hold no strings or byte buffers (recorded finding C20-unlimited-string-length)"],
        ),
        _ => return None,
    })
}

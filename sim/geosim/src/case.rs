//! What a simulated run is, independent of the scenario: a serialisable case, executed in forked
//! children, giving a digest, counters and possibly a violation.
use crate::proc::Slot;
use serde::{Deserialize, Serialize};
use simrt::sched::{Plan, RunStats, Strategy, Switch};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Strat {
    Sequential,
    Random(f64),
    Boundary(f64),
    Pct(u32, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PlanDef {
    pub strat: Strat,
    pub hot: u64,
    pub seed: u64,
    pub query_cap: u64,
    pub max_switches: u64,
    pub env_seed: u64,
    pub clock_jumps: bool,
    pub spurious: bool,
    /// recorded schedule (thread, query, event, next thread); replaces the seed when present
    pub switches: Option<Vec<(u32, u32, u64, u32)>>,
    pub first: Option<u32>,
}
impl PlanDef {
    pub fn sequential() -> PlanDef {
        PlanDef {
            strat: Strat::Sequential,
            hot: 0,
            seed: 1,
            query_cap: 40_000_000,
            max_switches: 0,
            env_seed: 0,
            clock_jumps: false,
            spurious: false,
            switches: None,
            first: None,
        }
    }
    pub fn plan(&self) -> Plan {
        Plan {
            strategy: match self.strat {
                Strat::Sequential => Strategy::Sequential,
                Strat::Random(mean) => Strategy::Random { mean },
                Strat::Boundary(mean) => Strategy::Boundary { mean },
                Strat::Pct(d, len) => Strategy::Pct { d, len },
            },
            hot: self.hot,
            seed: self.seed,
            replay: self.switches.as_ref().map(|v| v.iter().map(|&(t, uid, off, to)| Switch { t, uid, off, to }).collect()),
            first: self.first,
            query_cap: self.query_cap,
            max_switches: self.max_switches,
            env_seed: self.env_seed,
            clock_jumps: self.clock_jumps,
            spurious: self.spurious,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// kind of violation: minimisation keeps it
    pub class: String,
    pub what: String,
}
pub type Counts = BTreeMap<String, u64>;
pub fn add(c: &mut Counts, k: &str, n: u64) {
    if n == 0 {
        return;
    }
    if let Some(v) = c.get_mut(k) {
        if k.starts_with("max ") {
            *v = (*v).max(n)
        } else {
            *v += n
        }
    } else {
        c.insert(k.to_string(), n);
    }
}
pub fn merge(c: &mut Counts, d: &Counts) {
    for (k, v) in d {
        add(c, k, *v);
    }
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Sched {
    pub switches: Vec<(u32, u32, u64, u32)>,
    pub first: u32,
    pub hash: u64,
    pub counts: Counts,
}
pub fn sched_of(log: Vec<Switch>, st: &RunStats, first: u32) -> Sched {
    let mut counts = Counts::new();
    for (k, v) in [
        ("steps", st.events),
        ("switches", st.switches),
        ("fault: preemption inside a call", st.preempt_inside),
        ("lock waits", st.futex_blocks),
        ("fault: spurious wake-up", st.spurious),
        ("clock reads", st.clock_reads),
        ("fault: clock jump", st.clock_jumps),
        ("random reads", st.random_reads),
        ("environment reads", st.env_reads),
        ("files looked for", st.file_opens),
        ("threads the library started itself", st.foreign_threads),
        ("accesses to static data", st.hot_accesses),
        ("max steps in one call", st.max_qev),
    ] {
        add(&mut counts, k, v);
    }
    Sched { switches: log.iter().map(|s| (s.t, s.uid, s.off, s.to)).collect(), first, hash: st.sched_hash, counts }
}
#[derive(Clone, Debug, Default)]
pub struct RunOut {
    pub viol: Option<Viol>,
    pub digest: u64,
    pub sched: Sched,
    pub counts: Counts,
    pub nontrivial: bool,
}
/// Per-worker context.
pub struct Cx {
    pub slot: Slot,
    pub solo: HashMap<String, geoexec::ops::Outcome>,
    pub solo_runs: u64,
    pub seen: HashSet<u64>,
}
impl Cx {
    pub fn new() -> Cx {
        Cx { slot: Slot::new(), solo: HashMap::new(), solo_runs: 0, seen: HashSet::new() }
    }
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    simrt::rng::mix(h)
}

//! What a batch of runs covered.

use std::collections::{BTreeMap, HashSet};

use serde::{Deserialize, Serialize};

#[derive(Clone, Default, Serialize, Deserialize)]
pub struct Stats {
    pub runs: u64,
    pub nontrivial: u64,
    pub steps: u64,
    pub edits: u64,
    pub sim_time: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub classes: BTreeMap<String, u64>,
    /// Failures that belong to other properties, by class.
    pub foreign: BTreeMap<String, u64>,
    pub orders: HashSet<u64>,
    pub states: HashSet<u64>,
    pub samples: Vec<serde_json::Value>,
    pub crashes: u64,
}

const MAXED: [&str; 2] = ["deepest backlog", "largest snapshot (bytes)"];
pub const CAP: usize = 400_000;

impl Stats {
    pub fn probe(&mut self, k: &str, n: u64) {
        let e = self.probes.entry(k.to_string()).or_insert(0);
        if MAXED.contains(&k) {
            *e = (*e).max(n);
        } else {
            *e += n;
        }
    }

    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.steps += o.steps;
        self.edits += o.edits;
        self.sim_time += o.sim_time;
        self.crashes += o.crashes;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            self.probe(k, *v);
        }
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.foreign {
            *self.foreign.entry(k).or_insert(0) += v;
        }
        self.orders.extend(o.orders);
        self.states.extend(o.states);
        self.samples.extend(o.samples);
    }
}

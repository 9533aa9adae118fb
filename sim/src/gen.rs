//! The discrete-event scheduler: users, network, disks, crashes and clocks of
//! one simulated session, all drawn from one seed. It emits the steps that
//! `exec` runs.

use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::io::Write;

use crate::exec::*;
use crate::imp::*;
use crate::rng::{mix, Rng};
use crate::step::*;

/// Stands for the largest unit with which a session's text fits a 32-bit memory.
pub const BRIM: u64 = 1 << 22;

#[derive(Clone, Debug)]
pub struct Params {
    pub class: &'static str,
    pub edits: u32,
    pub peers: u16,
    pub max_peers: u16,
    pub init: u32,
    pub scale: u64,
    pub wires: Vec<Wire>,
    pub ids: u8,
    pub base_share: f64,
    pub start_by_load: f64,
    // network
    pub lat: u64,
    pub jitter: u64,
    pub straggle: f64,
    pub drop: f64,
    pub dup: f64,
    pub echo: f64,
    pub fifo: bool,
    pub partition: f64,
    pub slow: f64,
    pub sync_every: u64,
    pub sync_mode: u8,
    // peers
    pub drain: u8,
    pub part_drain: f64,
    pub crash: f64,
    pub join: f64,
    pub fork: f64,
    pub snap: f64,
    pub stale: f64,
    pub log_before_send: bool,
    pub torn: f64,
    pub think: u64,
    pub burst: u64,
    pub spree: f64,
    // clients
    pub weights: [f64; 15],
    pub max_ins: u64,
    pub anchor: f64,
    pub resolve: u64,
    pub bad: f64,
    pub noop: f64,
    pub bad_snap: f64,
    pub bad_msg: f64,
    pub swap: f64,
    pub twin: f64,
    pub trip: f64,
    pub check: u64,
    /// The last so many edits are wide deletions.
    pub finale: u32,
}

fn rate(r: &mut Rng, on: f64, hi: f64) -> f64 {
    if r.chance(on) {
        r.f() * r.f() * hi
    } else {
        0.0
    }
}

/// Everything about a run's shape is drawn anew for every run (swarm style);
/// the property only shifts the odds.
pub fn params(prop: &str, r: &mut Rng, thorough: bool) -> Params {
    let big = if thorough { [0.50, 0.36, 0.12, 0.02] } else { [0.62, 0.30, 0.07, 0.01] };
    let class = ["tiny", "mid", "large", "huge"][r.weighted(&big)];
    let flood = match prop {
        "C02" | "C08" => 0.04,
        _ => 0.01,
    };
    let class = if r.chance(flood) { "flood" } else { class };
    let (edits, peers, max_peers) = match class {
        "flood" => (r.range(600, 5000), 3, 3),
        "tiny" => (r.range(3, 40), r.range(2, 4), 6),
        "mid" => (r.range(40, 500), r.range(2, 7), 12),
        "large" => (r.range(500, 2500), r.range(2, 4), 7),
        _ => (r.range(3000, 9000), 2, 4),
    };
    let mut weights = [0.0; 15];
    for w in &mut weights {
        if r.chance(0.6) {
            *w = r.f() * r.f() + 0.02;
        }
    }
    weights[0] += 0.3 * r.f();
    weights[1] += 0.1;
    if class == "large" || class == "huge" {
        // Let documents grow.
        weights[6] *= 0.05;
        weights[7] *= 0.01;
        weights[1] += 0.5;
    }
    let delete_all = weights[7];
    weights[7] = delete_all * 0.15;
    let init = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 40),
        3 => r.range(2, 40),
        4 => r.range(40, 400),
        _ => r.range(200, 3000),
    };
    let scale = match r.below(10) {
        0 => 1 << 16,
        1 => 1 << 31,
        2 => 3,
        3 => 1 << 40,
        _ => 1,
    };
    let wires = match r.below(4) {
        0 => vec![Wire::Bin],
        1 => vec![Wire::Json],
        2 => vec![Wire::Native, Wire::Bin, Wire::Json],
        _ => vec![Wire::Native],
    };
    let small = class == "tiny" || class == "mid";
    let mut p = Params {
        class,
        edits: edits as u32,
        peers: peers as u16,
        max_peers,
        init: init as u32,
        scale,
        wires,
        ids: r.below(6) as u8,
        base_share: 0.0,
        start_by_load: *r.pick(&[0.0, 0.0, 0.5, 1.0]),
        lat: *r.pick(&[1, 10, 50]),
        jitter: *r.pick(&[0, 20, 200, 1000, 5000]),
        straggle: rate(r, 0.5, 0.3),
        drop: rate(r, 0.6, 0.6),
        dup: rate(r, 0.6, 0.6),
        echo: rate(r, 0.4, 0.4),
        fifo: r.chance(0.25),
        partition: rate(r, 0.5, 0.05),
        slow: rate(r, 0.4, 0.6),
        sync_every: *r.pick(&[200, 1000, 5000, 20000]),
        sync_mode: r.below(4) as u8,
        drain: r.below(4) as u8,
        part_drain: rate(r, 0.3, 0.5),
        crash: rate(r, 0.5, 0.06),
        join: rate(r, 0.5, 0.04),
        fork: rate(r, 0.5, 0.04),
        snap: rate(r, 0.6, 0.15),
        stale: r.f() * 0.5,
        log_before_send: r.chance(0.8),
        torn: r.f() * 0.4,
        think: *r.pick(&[5, 50, 500]),
        burst: *r.pick(&[1, 3, 10]),
        spree: 0.0,
        weights,
        max_ins: *r.pick(&[1, 4, 30, 200]),
        anchor: rate(r, 0.4, 0.3),
        resolve: r.range(1, 6),
        bad: rate(r, 0.3, 0.05),
        noop: rate(r, 0.3, 0.08),
        bad_snap: 0.0,
        bad_msg: 0.0,
        swap: rate(r, 0.2, 0.03),
        twin: rate(r, 0.2, 0.03),
        trip: 0.0,
        check: if small { *r.pick(&[1, 5, 20]) } else { *r.pick(&[100, 400]) },
        finale: 0,
    };
    if class == "large" || class == "huge" {
        p.max_ins = p.max_ins.min(8);
        p.crash *= 0.1;
        p.join *= 0.1;
        p.fork *= 0.1;
        p.snap *= 0.1;
        p.partition *= 0.3;
        p.anchor *= 0.3;
        p.twin *= 0.2;
        p.swap *= 0.1;
    }
    let many = |r: &mut Rng, hi: f64| 0.1 * hi + r.f() * hi;
    match prop {
        "C02" => {
            p.straggle = many(r, 0.5);
            p.jitter = p.jitter.max(200);
            p.fifo = false;
        },
        "C03" => {
            p.dup = many(r, 1.0);
            p.echo = many(r, 0.5);
            p.straggle = p.straggle.max(0.1);
        },
        "C05" | "C06" => {
            for k in [3, 4, 5, 6, 14] {
                p.weights[k] += r.f() * 0.6;
            }
        },
        "C07" => {
            p.weights[0] += 1.0;
            p.weights[10] += 0.5;
            p.weights[12] += r.f();
            p.weights[13] += 0.3 * r.f();
        },
        "C09" => {
            p.snap = many(r, 0.3);
            p.crash = many(r, 0.1);
            p.join = p.join.max(0.02);
            p.start_by_load = *r.pick(&[0.5, 1.0]);
            p.straggle = p.straggle.max(0.1 * r.f());
        },
        "C10" => {
            p.fork = many(r, 0.15);
            p.twin = many(r, 0.1);
            p.swap = many(r, 0.1);
            p.start_by_load = 0.0;
            p.straggle = p.straggle.max(0.1 * r.f());
        },
        "C11" => {
            p.snap = many(r, 0.3);
            p.bad_snap = 1.0;
            p.torn = 0.5;
            p.crash = p.crash.max(0.02);
        },
        "C12" => {
            p.wires = match r.below(3) {
                0 => vec![Wire::Bin],
                1 => vec![Wire::Json],
                _ => vec![Wire::Bin, Wire::Json],
            };
            p.trip = 0.5;
            p.anchor = many(r, 0.2);
            p.snap = p.snap.max(0.02);
            if small {
                p.max_peers = p.max_peers.max(8);
            }
        },
        "C13" => {
            p.bad_msg = many(r, 0.8);
            p.anchor = many(r, 0.1);
        },
        "C14" | "C15" => {
            p.anchor = many(r, 0.6);
            p.resolve = r.range(2, 12);
            p.jitter = p.jitter.max(20);
        },
        "C16" => {
            p.base_share = 0.2 + 0.6 * r.f();
            p.start_by_load = 1.0;
            p.join = many(r, 0.06);
            p.snap = many(r, 0.1);
            p.anchor = p.anchor.max(0.05);
            p.fork *= 0.5;
        },
        "C17" => {
            p.noop = many(r, 0.1);
            p.crash = p.crash.max(0.02);
            p.snap = p.snap.max(0.03);
        },
        "C18" => {
            p.bad = many(r, 0.5);
            p.noop = many(r, 0.4);
        },
        "C20" => {
            p.base_share = 1.0;
            p.class = *r.pick(&["mid", "large", "large", "huge"]);
            p.edits = match p.class {
                "mid" => r.range(100, 500),
                "large" => r.range(500, 3000),
                _ => r.range(4000, 16000),
            } as u32;
            p.peers = 2;
            p.max_peers = 3;
            p.wires = vec![Wire::Native];
            p.max_ins = *r.pick(&[1, 4, 30]);
            p.weights[0] += r.f();
            p.weights[1] += r.f();
            p.weights[6] *= 0.05;
            p.weights[7] = 0.0;
            p.anchor = p.anchor.min(0.1);
            p.check = 1000;
            p.spree = many(r, 0.02);
            for rate in [&mut p.crash, &mut p.join, &mut p.fork, &mut p.snap, &mut p.twin, &mut p.swap] {
                *rate *= 0.1;
            }
            p.snap = p.snap.max(4.0 / p.edits as f64);
            p.join = p.join.max(2.0 / p.edits as f64);
        },
        // Of every kind, but with peers that follow each other's typing.
        "C21" => {
            p.base_share = 1.0;
            p.spree = rate(r, 0.5, 0.1);
        },
        // Interpreted a thousand times slower: small, and varied. The pinned
        // build generates, so that a broken tree cannot disturb it.
        "C19" if cfg!(colasim_asan) => {
            p.bad_msg = rate(r, 0.5, 0.3);
            p.bad_snap = rate(r, 0.3, 1.0);
            p.trip = rate(r, 0.3, 0.2);
        },
        "C19" => {
            p.base_share = 1.0;
            p.class = ["tiny", "mid", "tree", "deep"][r.weighted(&[3.0, 3.0, 5.0, 1.0])];
            p.edits = match p.class {
                "tiny" => r.range(3, 20),
                "mid" => r.range(20, 60),
                "deep" => r.range(1000, 1300),
                _ => r.range(40, 110),
            } as u32;
            p.peers = 2;
            p.max_peers = if p.class == "tree" { 2 } else { 5 };
            if r.chance(0.6) {
                p.wires = vec![Wire::Native];
            }
            p.init = p.init.min(300);
            p.max_ins = p.max_ins.min(8);
            p.check = if p.class == "tiny" { 20 } else { 400 };
            p.dup *= 0.3;
            p.echo *= 0.3;
            p.snap *= 0.3;
            p.anchor = p.anchor.min(0.1);
            p.resolve = p.resolve.min(2);
            p.noop *= 0.5;
            p.bad *= 0.5;
            p.bad_msg = rate(r, 0.3, 0.1);
            p.trip = rate(r, 0.3, 0.1);
            if p.class == "deep" {
                // Enough scattered text for a third level, then deletions of
                // most of it.
                p.init = r.range(2000, 4000) as u32;
                p.weights = [0.0; 15];
                p.weights[1] = 1.0;
                p.max_ins = 1;
                p.finale = 3;
                p.peers = if r.chance(0.2) { 2 } else { 1 };
                p.max_peers = p.peers;
                for rate in [
                    &mut p.dup,
                    &mut p.echo,
                    &mut p.snap,
                    &mut p.bad_msg,
                    &mut p.trip,
                    &mut p.crash,
                    &mut p.anchor,
                    &mut p.twin,
                    &mut p.swap,
                    &mut p.noop,
                    &mut p.bad,
                ] {
                    *rate = 0.0;
                }
            }
            if p.class == "tree" {
                // Enough scattered text to split inodes, then wide deletions.
                p.init = r.range(100, 300) as u32;
                p.weights = [0.0; 15];
                p.weights[0] = 0.3 * r.f();
                p.weights[1] = 1.0;
                p.weights[5] = 0.2 * r.f();
                p.weights[6] = 0.15 * r.f();
                p.weights[11] = 0.2 * r.f();
                p.weights[13] = 0.3 * r.f();
                p.weights[14] = 0.5 * r.f();
                p.max_ins = p.max_ins.min(4);
                p.anchor = 0.0;
                for rate in [&mut p.dup, &mut p.echo, &mut p.snap, &mut p.bad_msg, &mut p.trip, &mut p.fork, &mut p.join, &mut p.crash] {
                    *rate *= 0.1;
                }
            }
        },
        // Executed three times, one of them interpreted.
        "C22" => {
            p.base_share = 1.0;
            p.class = ["tiny", "small", "mid"][r.weighted(&[3.0, 3.0, 1.0])];
            p.edits = match p.class {
                "tiny" => r.range(3, 20),
                "small" => r.range(20, 60),
                _ => r.range(60, 150),
            } as u32;
            p.peers = r.range(2, 4) as u16;
            p.max_peers = 8;
            p.init = p.init.min(300);
            p.max_ins = p.max_ins.min(30);
            p.check = 400;
            p.scale = *r.pick(&[1, 1, 1, 1, 3, 1 << 12, BRIM, BRIM, 1 << 31, 1 << 40]);
            p.snap = rate(r, 0.7, 0.1);
            p.join = rate(r, 0.7, 0.1);
            p.anchor = rate(r, 0.7, 0.2);
            p.bad_msg = rate(r, 0.2, 0.1);
            p.bad_snap = rate(r, 0.2, 0.5);
            p.part_drain = 0.0;
        },
        _ => {},
    }
    if p.init as u64 * p.scale > 1 << 55 {
        p.scale = 1;
    }
    p
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Ev {
    Act(u16),
    Msg { from: u16, p: u16, u: u32 },
    Res { p: u16, a: u32 },
    Drain(u16),
    Sync(u16),
    Restart { of: u16 },
    Heal,
    Untwin(u16),
}

/// Fault kinds, counted when they actually happen.
#[derive(Default, Clone)]
pub struct Faults(pub BTreeMap<&'static str, u64>);

impl Faults {
    fn hit(&mut self, k: &'static str) {
        *self.0.entry(k).or_insert(0) += 1;
    }
}

struct PeerCtl {
    cursor: usize,
    last: Option<u32>,
    slow: bool,
    group: u8,
    snaps: Vec<u32>,
    log: Vec<u32>,
    fixed_drain: u8,
}

pub struct Sim {
    r: Rng,
    pub prm: Params,
    pub cfg: Config,
    pub ex: Exec,
    pub steps: Vec<Step>,
    heap: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    seq: u64,
    pub t: u64,
    ctl: BTreeMap<u16, PeerCtl>,
    next_label: u16,
    next_uid: u32,
    next_snap: u32,
    next_anc: u32,
    edits: u32,
    hot: f64,
    parted: bool,
    fifo_at: BTreeMap<(u16, u16), u64>,
    all_ops: Vec<u32>,
    lost: BTreeSet<u32>,
    id_base: u64,
    ids_used: BTreeSet<u64>,
    pub faults: Faults,
    trace: Option<std::fs::File>,
    max_steps: usize,
    proto_ok: bool,
    stop_on: &'static str,
}

impl Sim {
    /// `stop_on`: end the run at the first violation with this tag.
    pub fn new(
        prop: &'static str,
        seed: u64,
        thorough: bool,
        proto_ok: bool,
        trace: Option<std::fs::File>,
    ) -> Result<Self, (Config, Violation)> {
        let mut r = Rng::new(seed);
        let prm = params(prop, &mut r, thorough);
        let imp = if r.chance(prm.base_share) { Imp::Base } else { Imp::Cur };
        let id_base = r.next();
        let mut used = BTreeSet::new();
        let id = draw_id(&mut r, prm.ids, id_base, 0, &mut used);
        let cfg = Config { init: prm.init, scale: prm.scale, id, imp };
        let mut trace = trace;
        if let Some(f) = &mut trace {
            let _ = writeln!(f, "{}", serde_json::to_string(&cfg).unwrap());
            let _ = f.flush();
        }
        let ex = match Exec::new(cfg.clone(), Subst::default()) {
            Ok(e) => e,
            Err(v) => return Err((cfg, v)),
        };
        let max_steps = (4000 + prm.edits as usize * 40).min(60_000);
        Ok(Sim {
            r,
            prm,
            cfg,
            ex,
            steps: Vec::new(),
            heap: BinaryHeap::new(),
            seq: 0,
            t: 0,
            ctl: BTreeMap::new(),
            next_label: 1,
            next_uid: 1,
            next_snap: 1,
            next_anc: 1,
            edits: 0,
            hot: 0.5,
            parted: false,
            fifo_at: BTreeMap::new(),
            all_ops: Vec::new(),
            lost: BTreeSet::new(),
            id_base,
            ids_used: used,
            faults: Faults::default(),
            trace,
            max_steps,
            proto_ok,
            stop_on: prop,
        })
    }

    fn done(&self) -> bool {
        self.ex.poisoned
            || self.ex.violations.iter().any(|v| v.tags.contains(&self.stop_on))
            || self.ex.violations.len() >= 6
    }

    fn emit(&mut self, s: Step) {
        if self.done() {
            return;
        }
        if let Some(f) = &mut self.trace {
            let _ = writeln!(f, "{}", serde_json::to_string(&s).unwrap());
            let _ = f.flush();
        }
        let i = self.steps.len();
        self.ex.step(i, &s);
        self.steps.push(s);
    }

    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.heap.push(Reverse((t, self.seq, e)));
    }

    fn exp(&mut self, mean: u64) -> u64 {
        let u = self.r.f().max(1e-9);
        (-(u.ln()) * mean as f64) as u64
    }

    fn new_id(&mut self) -> u64 {
        let n = self.ids_used.len() as u64;
        draw_id(&mut self.r, self.prm.ids, self.id_base, n, &mut self.ids_used)
    }

    fn wire(&mut self) -> Wire {
        let w = self.prm.wires.clone();
        *self.r.pick(&w)
    }

    fn adopt(&mut self, label: u16, group: u8) {
        let slow = self.r.chance(self.prm.slow);
        if slow {
            self.faults.hit("slow peer");
        }
        let fixed_drain = if self.prm.drain == 3 { self.r.below(3) as u8 } else { self.prm.drain };
        self.ctl.insert(
            label,
            PeerCtl { cursor: 0, last: None, slow, group, snaps: Vec::new(), log: Vec::new(), fixed_drain },
        );
        let d = self.exp(self.prm.think) + 1;
        self.at(self.t + d, Ev::Act(label));
        let d = self.exp(self.prm.sync_every) + 1;
        self.at(self.t + d, Ev::Sync(label));
        if fixed_drain != 0 {
            let d = self.exp(self.prm.jitter.max(50)) + 1;
            self.at(self.t + d, Ev::Drain(label));
        }
    }

    fn start_from(&mut self, src: u16, by_load: bool, imp: Option<Imp>) -> Option<u16> {
        let to = self.next_label;
        self.next_label += 1;
        let id = self.new_id();
        let shadow = self.r.chance(0.4);
        if by_load {
            let s = self.snapshot(src);
            let imp = imp.unwrap_or_else(|| self.pick_imp());
            self.emit(Step::Load { s, to, id, imp, shadow });
        } else {
            self.emit(Step::Fork { p: src, to, id, shadow });
        }
        if self.ex.peers.get(&to).is_some_and(|p| p.doc.is_some()) {
            let g = self.ctl.get(&src).map_or(0, |c| c.group);
            self.adopt(to, g);
            if shadow {
                let d = self.exp(20 * self.prm.think + 500);
                self.at(self.t + d, Ev::Untwin(to));
            }
            Some(to)
        } else {
            None
        }
    }

    fn pick_imp(&mut self) -> Imp {
        if self.r.chance(self.prm.base_share) {
            Imp::Base
        } else {
            Imp::Cur
        }
    }

    fn snapshot(&mut self, p: u16) -> u32 {
        let s = self.next_snap;
        self.next_snap += 1;
        let w = self.wire();
        self.emit(Step::Snap { p, s, w });
        if self.r.chance(self.prm.bad_snap) {
            for _ in 0..self.r.range(1, 6) {
                let d = self.damage(s);
                let imp = self.pick_imp();
                self.emit(Step::BadLoad { s, imp, d });
            }
        }
        s
    }

    fn damage(&mut self, s: u32) -> Damage {
        let r = &mut self.r;
        // Half of the positions near the header, where the format is fragile.
        let pos = |r: &mut Rng| if r.chance(0.4) { r.below(48) as u32 } else { r.next() as u32 };
        match r.below(9) {
            0 => Damage::Flip((0..r.range(1, 3)).map(|_| (pos(r), r.below(8) as u8)).collect()),
            1 => Damage::Trunc(pos(r)),
            2 => Damage::Append(r.range(1, 64) as u32, r.next()),
            3 => Damage::Over(pos(r), r.range(1, 40) as u32, r.next()),
            4 => Damage::Torn(pos(r)),
            5 => Damage::TornOld(pos(r), s.saturating_sub(r.range(1, 5) as u32)),
            6 => Damage::Replace(r.below(200) as u32, r.next()),
            7 => Damage::Proto(match r.below(4) {
                0 => r.below(10),
                1 => r.below(300),
                2 => r.next() & 0xFFFF_FFFF,
                _ => 1 << r.below(32),
            }),
            _ => Damage::Swap(pos(r), pos(r), r.range(1, 16) as u32),
        }
    }

    fn msg_damage(&mut self) -> Damage {
        let r = &mut self.r;
        let pos = |r: &mut Rng| r.below(48) as u32;
        match r.below(7) {
            0 | 1 => Damage::Trunc(pos(r)),
            2 => Damage::Flip((0..r.range(1, 4)).map(|_| (pos(r), r.below(8) as u8)).collect()),
            3 => Damage::Over(pos(r), r.range(1, 12) as u32, r.next()),
            4 => Damage::Replace(r.below(60) as u32, r.next()),
            5 => {
                // Runs of 0xFF: overlong and overflowing integers.
                let p = pos(r);
                Damage::Flip((p..p + r.range(1, 14) as u32).map(|i| (i, 7)).collect())
            },
            _ => Damage::Append(r.range(1, 30) as u32, r.next()),
        }
    }

    fn reachable(&self, a: u16, b: u16) -> bool {
        !self.parted || self.ctl.get(&a).map(|c| c.group) == self.ctl.get(&b).map(|c| c.group)
    }

    fn latency(&mut self, from: u16, to: u16) -> u64 {
        let mut l = self.prm.lat + self.exp(self.prm.jitter);
        if self.ctl.get(&to).is_some_and(|c| c.slow) {
            l = l * 8 + self.exp(500);
        }
        if self.r.chance(self.prm.straggle) {
            l = l * self.r.range(5, 100) + self.r.range(50, 20_000);
            self.faults.hit("message held back");
        }
        let mut at = self.t + l + 1;
        if self.prm.fifo {
            let e = self.fifo_at.entry((from, to)).or_insert(0);
            at = at.max(*e + 1);
            *e = at;
        }
        at
    }

    /// Sends edit `u` of `from` to everybody.
    fn broadcast(&mut self, from: u16, u: u32) {
        let live = self.ex.live();
        for q in live {
            if q == from {
                if self.r.chance(self.prm.echo) {
                    let at = self.latency(from, q);
                    self.faults.hit("edit echoed to its author");
                    self.at(at, Ev::Msg { from, p: q, u });
                }
                continue;
            }
            if !self.reachable(from, q) {
                self.faults.hit("message lost in a partition");
                continue;
            }
            if self.r.chance(self.prm.drop) {
                self.faults.hit("message lost");
                continue;
            }
            let at = self.latency(from, q);
            self.at(at, Ev::Msg { from, p: q, u });
            while self.r.chance(self.prm.dup) {
                let at = self.latency(from, q);
                self.faults.hit("message duplicated");
                self.at(at, Ev::Msg { from, p: q, u });
                if self.r.chance(0.5) {
                    break;
                }
            }
        }
    }

    fn made(&mut self, p: u16, u: u32) {
        self.edits += 1;
        self.all_ops.push(u);
        if self.prm.log_before_send {
            self.ctl.get_mut(&p).unwrap().log.push(u);
        }
        if self.r.chance(self.prm.trip) {
            self.emit(Step::Trip { u });
        }
        if self.r.chance(self.prm.bad_msg) {
            for _ in 0..self.r.range(1, 4) {
                let d = self.msg_damage();
                let w = *self.r.pick(&[Wire::Bin, Wire::Bin, Wire::Json]);
                let what = if self.r.chance(0.15) { What::Text } else { What::Edit };
                let inner = self.r.chance(0.85);
                self.emit(Step::BadMsg { u, w, what, inner, d });
            }
        }
        self.broadcast(p, u);
    }

    /// Where one of the latest insertions, by anyone, is at `p`.
    fn recent(&mut self, p: u16) -> Option<(usize, usize)> {
        for _ in 0..3 {
            let back = self.r.skewed(30) as usize;
            let Some(i) = self.all_ops.len().checked_sub(back + 1) else { continue };
            if let Some(s) = self.ex.span_of(p, self.all_ops[i]) {
                return Some(s);
            }
        }
        None
    }

    fn edit(&mut self, p: u16) {
        let len = self.ex.len(p);
        let u = self.next_uid;
        self.next_uid += 1;
        let limit = if self.prm.class == "tiny" { 400 } else { 30_000 };
        let mut k = self.r.weighted(&self.prm.weights);
        if self.ex.units() > limit && !(3..=7).contains(&k) && k != 14 {
            k = 5;
        }
        if self.edits + self.prm.finale > self.prm.edits {
            k = 15;
        }
        if len == 0 && ((3..=7).contains(&k) || k > 11) {
            k = 1;
        }
        let mx = self.prm.max_ins;
        let n = |s: &mut Self| s.r.skewed(mx - 1) + 1;
        let last = self.ctl[&p].last;
        let cursor = match last {
            Some(l) if self.r.chance(0.8) => self.ex.end_of(p, l).unwrap_or(self.ctl[&p].cursor),
            _ => self.ctl[&p].cursor,
        }
        .min(len);
        let hot = (self.hot * len as f64) as usize;
        let near = if k > 11 { self.recent(p) } else { None };
        let mut ins: Option<(usize, u64)> = None;
        let mut del: Option<(usize, u64)> = None;
        match k {
            0 => ins = Some((cursor, if self.r.chance(0.9) { 1 } else { n(self) })),
            1 => ins = Some((self.r.below(len as u64 + 1) as usize, n(self))),
            2 => ins = Some((self.r.below(len as u64 + 1) as usize, mx)),
            3 => {
                if cursor > 0 {
                    del = Some((cursor - 1, 1))
                } else {
                    del = Some((0, 1))
                }
            },
            4 => del = Some((self.r.below(len as u64) as usize, 1)),
            5 => {
                let s = self.r.below(len as u64) as usize;
                del = Some((s, self.r.skewed(20) + 1))
            },
            6 => {
                let s = self.r.below(len as u64) as usize;
                del = Some((s, self.r.below(len as u64 - s as u64 + 1).max(1)))
            },
            7 => del = Some((0, len as u64)),
            15 if len > 0 => {
                let s = self.r.below(len as u64 / 4 + 1);
                let most = len as u64 - s;
                del = Some((s as usize, most - self.r.below(most / 3 + 1)));
            },
            8 => ins = Some((0, n(self))),
            9 => ins = Some((len, n(self))),
            10 => ins = Some((hot.min(len), n(self))),
            // At somebody's recent text: right after it, inside it, or
            // deleting from or up to its border.
            12..=14 if near.is_some() => {
                let (a, b) = near.unwrap();
                let one = self.r.chance(0.6);
                let m = if one { 1 } else { n(self) };
                match k {
                    12 => ins = Some((b, m)),
                    13 => ins = Some((a + self.r.below((b - a) as u64) as usize, m)),
                    _ => match self.r.below(4) {
                        0 => del = Some((a, (b - a) as u64)),
                        1 => del = Some((a, self.r.skewed(20) + 1)),
                        2 => {
                            let s = a.saturating_sub(self.r.skewed(20) as usize);
                            del = Some((s, (b - s) as u64));
                        },
                        _ => {
                            let s = a + self.r.below((b - a) as u64) as usize;
                            del = Some((s, (b - s) as u64));
                        },
                    },
                }
            },
            12 | 13 => ins = Some((cursor, 1)),
            14 => del = Some((self.r.below(len as u64) as usize, 1)),
            _ => {
                // Around a neighbour's recent text: the hottest races.
                let s = hot.saturating_sub(self.r.below(4) as usize);
                if len > 0 {
                    del = Some((s.min(len - 1), self.r.skewed(8) + 1))
                } else {
                    ins = Some((0, 1))
                }
            },
        }
        if let Some((pos, n)) = ins {
            self.emit(Step::Ins { p, u, pos: pos as u32, n: n as u32 });
            let c = self.ctl.get_mut(&p).unwrap();
            c.cursor = pos + n as usize;
            c.last = Some(u);
        } else if let Some((pos, n)) = del {
            let b = if self.r.chance(0.8) { 0 } else { self.r.range(1, 3) as u8 };
            self.emit(Step::Del { p, u, pos: pos as u32, n: n as u32, b });
            let c = self.ctl.get_mut(&p).unwrap();
            c.cursor = pos;
        }
        if !self.ex.by_uid.contains_key(&u) {
            return;
        }
        // Anchors in or next to what was just edited.
        while self.r.chance(self.prm.anchor) {
            let len = self.ex.len(p) as u64;
            let a = self.next_anc;
            self.next_anc += 1;
            let pos = match (self.r.below(5), ins, del) {
                (0 | 1, Some((pos, _)), _) => pos as u64,
                (2, Some((pos, n)), _) => pos as u64 + self.r.below(n + 1),
                (0..=2, _, Some((pos, _))) => (pos as u64).min(len),
                (3, _, _) => *self.r.pick(&[0, len]),
                _ => self.r.below(len + 1),
            };
            let right = self.r.chance(0.5);
            self.emit(Step::Anc { p, a, pos: pos.min(len) as u32, right });
            if self.prm.bad_msg > 0.0 && self.r.chance(0.7) {
                let d = self.msg_damage();
                let w = *self.r.pick(&[Wire::Bin, Wire::Json]);
                let inner = self.r.chance(0.85);
                self.emit(Step::BadAnc { a, w, inner, d });
            }
            let live = self.ex.live();
            for _ in 0..self.prm.resolve {
                let q = *self.r.pick(&live);
                // Cursors travel faster than edits and are looked at long
                // after.
                let d = match self.r.below(3) {
                    0 => 0,
                    1 => self.exp(self.prm.lat + self.prm.jitter),
                    _ => self.exp(20 * (self.prm.lat + self.prm.jitter) + 1000),
                };
                self.at(self.t + d + 1, Ev::Res { p: q, a });
            }
        }
        self.made(p, u);
    }

    /// A while of typing in one place, then of erasing, followed live by the
    /// others.
    fn spree(&mut self, p: u16) {
        let mut at = self.r.below(self.ex.len(p) as u64 + 1) as usize;
        let typed = self.r.range(10, 40);
        let erased = self.r.below(typed);
        for i in 0..typed + erased {
            let u = self.next_uid;
            self.next_uid += 1;
            if i < typed {
                self.emit(Step::Ins { p, u, pos: at as u32, n: 1 });
                at += 1;
            } else {
                at -= 1;
                self.emit(Step::Del { p, u, pos: at as u32, n: 1, b: 0 });
            }
            if !self.ex.by_uid.contains_key(&u) {
                return;
            }
            self.edits += 1;
            self.all_ops.push(u);
            for q in self.ex.live() {
                if q != p {
                    let w = self.wire();
                    self.emit(Step::Dlv { p: q, u, w });
                }
            }
        }
    }

    fn act(&mut self, p: u16) {
        if !self.ex.live().contains(&p) {
            return;
        }
        if self.edits >= self.prm.edits {
            return;
        }
        if self.r.chance(0.05) {
            self.hot = self.r.f();
        }
        for _ in 0..self.r.range(1, self.prm.burst) {
            if self.done() {
                return;
            }
            self.edit(p);
            if self.r.chance(self.prm.bad) {
                let c = self.bad_call();
                self.emit(Step::Bad { p, c });
            }
            if self.r.chance(self.prm.noop) {
                let u = self.next_uid;
                self.next_uid += 1;
                let ins = self.r.chance(0.5);
                let pos = self.r.next() as u32;
                self.emit(Step::Noop { p, u, ins, pos });
                if self.ex.by_uid.contains_key(&u) {
                    self.broadcast(p, u);
                    if self.r.chance(0.3) {
                        let w = self.wire();
                        self.emit(Step::Dlv { p, u, w });
                    }
                }
            }
        }
        if self.prm.spree > 0.0 && (self.edits < 8 || self.r.chance(self.prm.spree)) {
            self.spree(p);
        }
        if self.r.chance(self.prm.swap) {
            self.emit(Step::Swap { p });
        }
        if self.r.chance(self.prm.twin) {
            self.emit(Step::Twin { p });
            let d = self.exp(20 * self.prm.think + 500);
            self.at(self.t + d, Ev::Untwin(p));
        }
        if self.r.chance(self.prm.snap) {
            let s = self.snapshot(p);
            self.ctl.get_mut(&p).unwrap().snaps.push(s);
        }
        if self.r.chance(1.0 / self.prm.check as f64) {
            self.emit(Step::Check { p });
        }
        let live = self.ex.live();
        if live.len() < self.prm.max_peers as usize {
            if self.r.chance(self.prm.join) && self.start_from(p, true, None).is_some() {
                self.faults.hit("peer joined from a snapshot");
            }
            if self.r.chance(self.prm.fork) && self.start_from(p, false, None).is_some() {
                self.faults.hit("peer joined by fork");
            }
        }
        if self.r.chance(self.prm.partition) && !self.parted {
            self.parted = true;
            self.faults.hit("partition");
            let labels: Vec<u16> = self.ctl.keys().copied().collect();
            for l in labels {
                let g = self.r.below(2) as u8;
                self.ctl.get_mut(&l).unwrap().group = g;
            }
            let d = self.exp(self.prm.think * 20 + 1000);
            self.at(self.t + d, Ev::Heal);
        }
        let live = self.ex.live();
        if live.len() > 1 && self.r.chance(self.prm.crash) {
            self.crash(p);
            return;
        }
        let d = self.exp(self.prm.think) + 1;
        self.at(self.t + d, Ev::Act(p));
    }

    fn bad_call(&mut self) -> BadCall {
        let r = &mut self.r;
        let k = r.skewed(1000) as u32;
        match r.below(12) {
            0 | 1 => BadCall::InsertBeyond(k),
            2 => BadCall::InsertMax,
            3 | 4 => BadCall::DeleteBeyond(r.next() as u32, k),
            5 => BadCall::DeleteReversed(r.next() as u32, k),
            6 => BadCall::DeleteFromMax,
            7 => BadCall::DeleteToMaxInclusive(if r.chance(0.5) { 0 } else { r.next() as u32 }),
            8 => BadCall::AnchorBeyond(k, r.chance(0.5)),
            9 => BadCall::ForkZero,
            10 => BadCall::ForkSame,
            _ => {
                if r.chance(0.5) {
                    BadCall::DecodeZero
                } else {
                    BadCall::NewZero
                }
            },
        }
    }

    fn crash(&mut self, p: u16) {
        // Maybe in the middle of writing a snapshot: that one is torn.
        if self.r.chance(self.prm.torn) {
            let s = self.next_snap;
            self.next_snap += 1;
            let w = self.wire();
            self.emit(Step::Snap { p, s, w });
            let k = self.r.next() as u32;
            let old = self.ctl[&p].snaps.last().copied();
            let d = match (self.r.below(3), old) {
                (0, _) => Damage::Trunc(k),
                (1, Some(o)) => Damage::TornOld(k, o),
                _ => Damage::Torn(k),
            };
            let imp = self.ex.peers[&p].imp;
            self.emit(Step::BadLoad { s, imp, d });
            self.faults.hit("crash while writing a snapshot (torn)");
        }
        self.emit(Step::Crash { p });
        self.faults.hit("crash");
        let d = self.exp(2000) + 1;
        self.at(self.t + d, Ev::Restart { of: p });
    }

    fn restart(&mut self, of: u16) {
        let snaps = self.ctl[&of].snaps.clone();
        let log = self.ctl[&of].log.clone();
        let group = self.ctl[&of].group;
        let label = if snaps.is_empty() {
            // Nothing on disk: join anew.
            let live = self.ex.live();
            if live.is_empty() {
                return;
            }
            let src = *self.r.pick(&live);
            self.faults.hit("restart without a snapshot");
            self.start_from(src, true, None)
        } else {
            let back = if self.r.chance(self.prm.stale) {
                self.faults.hit("restart from an older snapshot (newer one lost)");
                self.r.below(snaps.len() as u64) as usize
            } else {
                0
            };
            let s = snaps[snaps.len() - 1 - back];
            let to = self.next_label;
            self.next_label += 1;
            let id = self.new_id();
            let imp = if self.prm.base_share > 0.0 && self.r.chance(0.3) {
                // Upgraded (or downgraded) while it was down.
                self.pick_imp()
            } else {
                self.ex.peers[&of].imp
            };
            let shadow = self.r.chance(0.4);
            self.emit(Step::Load { s, to, id, imp, shadow });
            if self.ex.peers.get(&to).is_some_and(|p| p.doc.is_some()) {
                self.adopt(to, group);
                if shadow {
                    let d = self.exp(20 * self.prm.think + 500);
                    self.at(self.t + d, Ev::Untwin(to));
                }
                let mut keep = snaps.clone();
                keep.truncate(snaps.len() - back);
                self.ctl.get_mut(&to).unwrap().snaps = keep;
                Some(to)
            } else {
                None
            }
        };
        let Some(to) = label else { return };
        self.faults.hit("restart");
        // What it had written to its log comes back to it first.
        for u in log {
            if self.done() {
                return;
            }
            let dup = self.ex.has(to, u);
            if !dup || self.r.chance(0.3) {
                let w = self.wire();
                self.emit(Step::Dlv { p: to, u, w });
            }
            self.ctl.get_mut(&to).unwrap().log.push(u);
        }
    }

    fn deliver(&mut self, from: u16, p: u16, u: u32) {
        if !self.ex.live().contains(&p) {
            self.faults.hit("message to a dead peer");
            return;
        }
        if !self.reachable(from, p) {
            self.faults.hit("message lost in a partition");
            return;
        }
        if !self.proto_ok && !self.same_imp(p, u) {
            return;
        }
        let w = self.wire();
        self.emit(Step::Dlv { p, u, w });
        match self.ctl[&p].fixed_drain {
            0 => self.take(p),
            1 if self.r.chance(0.3) => self.take(p),
            _ => {},
        }
    }

    fn same_imp(&self, p: u16, u: u32) -> bool {
        match self.ex.by_uid.get(&u) {
            Some(&o) => {
                let a = self.ex.ops[o as usize].author;
                self.ex.peers[&a].imp == self.ex.peers[&p].imp
            },
            None => false,
        }
    }

    fn take(&mut self, p: u16) {
        let v = &self.ex.peers[&p].v;
        let idle = v.pend_ins.is_empty() && v.pend_del.is_empty();
        if idle && !self.r.chance(0.1) {
            return;
        }
        if self.r.chance(self.prm.part_drain) {
            let ins = self.r.below(4) as u16;
            let del = self.r.below(3) as u16;
            self.emit(Step::Part { p, ins, del });
        } else {
            self.emit(Step::Drain { p });
        }
    }

    fn sync(&mut self, p: u16) {
        if !self.ex.live().contains(&p) {
            return;
        }
        let live: Vec<u16> = self.ex.live().into_iter().filter(|&q| q != p && self.reachable(p, q)).collect();
        if !live.is_empty() {
            let q = *self.r.pick(&live);
            let mut missing: Vec<u32> = self
                .all_ops
                .iter()
                .copied()
                .filter(|&u| self.ex.has(q, u) && !self.ex.has(p, u))
                .collect();
            self.order(&mut missing);
            missing.truncate(400);
            for u in missing {
                let at = self.latency(q, p);
                self.at(at, Ev::Msg { from: q, p, u });
            }
        }
        let d = self.exp(self.prm.sync_every) + 1;
        if self.edits < self.prm.edits {
            self.at(self.t + d, Ev::Sync(p));
        }
    }

    fn order(&mut self, us: &mut [u32]) {
        match self.prm.sync_mode {
            0 => {},
            1 => us.reverse(),
            2 => {
                for i in (1..us.len()).rev() {
                    let j = self.r.below(i as u64 + 1) as usize;
                    us.swap(i, j);
                }
            },
            _ => {
                // Locally shuffled.
                for i in 1..us.len() {
                    if self.r.chance(0.3) {
                        us.swap(i - 1, i);
                    }
                }
            },
        }
    }

    /// Two peers edit for long without hearing of each other, often the same
    /// text; a third one then gets everything in an unhelpful order and only
    /// drains now and then.
    fn run_flood(&mut self) {
        self.adopt(0, 0);
        for _ in 0..2 {
            let by_load = self.r.chance(self.prm.start_by_load);
            if self.start_from(0, by_load, None).is_none() {
                return;
            }
        }
        let n = self.prm.edits as usize / 2;
        let del = match self.r.below(4) {
            0 | 1 => 1.0,
            2 => 0.0,
            _ => self.r.f(),
        };
        let spread = self.r.below(4) * self.r.below(8);
        if del > 0.5 && self.ex.len(0) < n {
            let u = self.next_uid;
            self.next_uid += 1;
            self.emit(Step::Ins { p: 0, u, pos: 0, n: n as u32 });
            self.all_ops.push(u);
            for p in 1..3 {
                self.emit(Step::Dlv { p, u, w: Wire::Native });
            }
        }
        let mut made: [Vec<u32>; 2] = Default::default();
        for (a, made) in made.iter_mut().enumerate() {
            let p = a as u16;
            for _ in 0..n {
                if self.done() {
                    return;
                }
                let u = self.next_uid;
                self.next_uid += 1;
                let pos = self.r.below(spread + 1) as u32;
                if self.ex.len(p) > 0 && self.r.chance(del) {
                    self.emit(Step::Del { p, u, pos, n: 1, b: 0 });
                } else {
                    self.emit(Step::Ins { p, u, pos, n: 1 });
                }
                self.edits += 1;
                self.all_ops.push(u);
                made.push(u);
            }
        }
        let rare = self.r.f() * self.r.f() * 0.02;
        for made in made.iter_mut().rev() {
            if self.r.chance(0.5) {
                made.reverse();
            } else {
                self.order(made);
            }
            for &u in made.iter() {
                self.emit(Step::Dlv { p: 2, u, w: Wire::Native });
                if self.r.chance(rare) {
                    self.take(2);
                }
                if self.done() {
                    return;
                }
            }
            self.faults.hit("flood of edits after a long partition");
            self.emit(Step::Drain { p: 2 });
        }
    }

    pub fn run(&mut self) {
        if self.prm.class == "flood" {
            self.run_flood();
            self.settle();
            return;
        }
        // Initial membership.
        self.adopt(0, 0);
        for _ in 1..self.prm.peers {
            let live = self.ex.live();
            let src = *self.r.pick(&live);
            let by_load = self.r.chance(self.prm.start_by_load);
            self.start_from(src, by_load, None);
        }
        let mut restarts: Vec<u16> = Vec::new();
        while let Some(Reverse((t, _, ev))) = self.heap.pop() {
            if self.done() {
                break;
            }
            self.t = t;
            if self.steps.len() > self.max_steps {
                break;
            }
            let ending = self.edits >= self.prm.edits;
            match ev {
                Ev::Act(p) => self.act(p),
                Ev::Msg { from, p, u } => self.deliver(from, p, u),
                Ev::Res { p, a } => {
                    if self.proto_ok || self.prm.base_share == 0.0 {
                        let w = self.wire();
                        self.emit(Step::Res { p, a, w });
                    }
                },
                Ev::Drain(p) => {
                    if self.ex.live().contains(&p) {
                        self.take(p);
                        let d = self.exp(10 * self.prm.jitter.max(50)) + 1;
                        if !ending {
                            self.at(self.t + d, Ev::Drain(p));
                        }
                    }
                },
                Ev::Sync(p) => self.sync(p),
                Ev::Restart { of } => {
                    if ending && self.ex.live().len() >= 2 {
                        restarts.push(of);
                    } else {
                        self.restart(of)
                    }
                },
                Ev::Heal => {
                    self.parted = false;
                    self.faults.hit("partition healed");
                },
                Ev::Untwin(p) => self.emit(Step::Untwin { p }),
            }
        }
        self.settle();
    }

    fn settle(&mut self) {
        if self.done() {
            return;
        }
        // Faults stop. Everybody gets everything that still exists somewhere,
        // in bounded time: one exchange.
        self.parted = false;
        let mut known: BTreeSet<u32> = BTreeSet::new();
        for &u in &self.all_ops {
            if self.ex.live().iter().any(|&p| self.ex.has(p, u)) || self.ctl.values().any(|c| c.log.contains(&u)) {
                known.insert(u);
            } else {
                self.lost.insert(u);
            }
        }
        if !self.lost.is_empty() {
            self.faults.hit("edits lost with their author");
        }
        let live = self.ex.live();
        if self.prm.spree > 0.0 && !live.is_empty() {
            let p = *self.r.pick(&live);
            self.spree(p);
        }
        let mut q: Vec<(u16, u32)> = Vec::new();
        for &p in &live {
            let mut m: Vec<u32> = known.iter().copied().filter(|&u| !self.ex.has(p, u)).collect();
            self.order(&mut m);
            q.extend(m.into_iter().map(|u| (p, u)));
        }
        for (p, u) in q {
            if self.done() {
                return;
            }
            if !self.proto_ok && !self.same_imp(p, u) {
                continue;
            }
            let w = self.wire();
            self.emit(Step::Dlv { p, u, w });
            if self.ctl[&p].fixed_drain == 0 && self.r.chance(0.3) {
                self.take(p);
            }
        }
        // One late snapshot restart of the converged state.
        if self.prm.snap > 0.0 && self.r.chance(0.3) && !live.is_empty() {
            let p = *self.r.pick(&live);
            let to = self.next_label;
            self.next_label += 1;
            let s = self.snapshot(p);
            let id = self.new_id();
            let imp = self.pick_imp();
            self.emit(Step::Load { s, to, id, imp, shadow: false });
        }
    }

    pub fn finish(&mut self) {
        if !self.done() {
            let n = self.steps.len();
            self.ex.finish(n);
        }
    }

    /// Did the run have anything in it that a sequential test does not?
    pub fn nontrivial(&self) -> bool {
        let f: u64 = self.faults.0.values().sum();
        self.edits >= 2 && (f > 0 || self.prm.jitter > 0)
    }

    pub fn edits(&self) -> u32 {
        self.edits
    }
}

fn draw_id(r: &mut Rng, mode: u8, base: u64, n: u64, used: &mut BTreeSet<u64>) -> u64 {
    for k in 0.. {
        let id = match mode {
            0 => n + 1 + k,
            1 => r.next(),
            2 if n + k < 1000 => 1000 - (n + k),
            2 => n + k,
            // Same low bits, same high bits: collisions in the id maps.
            3 => ((n + k + 1) << 32) | (base & 0xff),
            // Few, as long as there are any left.
            4 => (base & 0xfe00_0000_0000_0000) | (r.below(if k < 200 { 64 } else { 1 << 40 }) << 3) | 1,
            _ => match r.below(4) {
                0 => r.below(130),
                1 => u64::MAX - r.below(5),
                2 => 1 << r.below(64),
                _ => mix(base ^ r.next()),
            },
        };
        if id != 0 && id != 0xFEED_5EED && used.insert(id) {
            return id;
        }
    }
    unreachable!()
}

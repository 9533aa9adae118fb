//! What replicas, snapshots and messages weigh, in bytes, against the pinned
//! build. Memory is measured by the `counted` build's allocator.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::case::Found;
use crate::cost::{kinds, live, Judged, Kind};
use crate::imp::*;
use crate::lite::Lite;
use crate::step::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum What {
    /// The memory a copy of a replica takes.
    Copy,
    /// The memory a replica gives back when it is dropped.
    Held,
    Snapshot,
    Insertion,
    Deletion,
    Anchor,
}

fn name(w: What) -> &'static str {
    match w {
        What::Copy => "replica, copied",
        What::Held => "replica, dropped",
        What::Snapshot => "snapshot",
        What::Insertion => "serialized insertion",
        What::Deletion => "serialized deletion",
        What::Anchor => "serialized anchor",
    }
}

/// One may weigh this many times what it does in the pinned build, plus this.
fn one(w: What) -> (f64, f64) {
    match w {
        // Vectors grow by doubling.
        What::Held => (3.0, 16384.0),
        What::Copy => (1.6, 4096.0),
        What::Snapshot => (1.5, 256.0),
        _ => (1.5, 24.0),
    }
}

/// On average over at least 40 of them.
const MEAN: (u64, f64, f64) = (40, 1.25, 2.0);

/// Keystrokes in a row, made or received by one peer, may make that many new
/// runs for each, on top of these, from 20 of them on.
const RUNS: (u64, f64, f64) = (20, 0.25, 8.0);

struct Weighed {
    step: usize,
    what: What,
    bytes: u64,
}

fn weigh(imp: Imp, cfg: &Config, steps: &[Step], beat: &mut dyn FnMut()) -> (Vec<Weighed>, bool, Option<Found>) {
    let mut out = Vec::new();
    let mut found = None;
    let kinds = kinds(steps);
    let mut row: BTreeMap<u16, bool> = BTreeMap::new();
    let mut typed: BTreeMap<(u16, Kind), (u64, u64)> = BTreeMap::new();
    let every = (steps.len() / 12).max(40);
    let done = catch_unwind(AssertUnwindSafe(|| {
        let mut l = Lite::new(cfg, imp);
        for (i, s) in steps.iter().enumerate() {
            beat();
            let fresh = match s {
                Step::Ins { u, .. } | Step::Del { u, .. } => l.edit(*u).is_none(),
                _ => false,
            };
            let typing = match (s, kinds[i]) {
                (Step::Ins { p, .. } | Step::Dlv { p, .. }, Some(k @ (Kind::Typing | Kind::RemoteTyping))) => {
                    l.runs(*p).map(|n| (*p, k, n))
                },
                _ => None,
            };
            // The first one may follow a deletion.
            let first = match s {
                Step::Ins { p, .. } => {
                    let t = kinds[i] == Some(Kind::Typing);
                    t && !row.insert(*p, t).unwrap_or(false)
                },
                Step::Dlv { .. } => false,
                _ => {
                    row.clear();
                    false
                },
            };
            let typing = typing.filter(|_| !first);
            l.step(s);
            if let Some((p, k, n)) = typing {
                let e = typed.entry((p, k)).or_default();
                *e = (e.0 + 1, e.1 + l.runs(p).unwrap_or(n).saturating_sub(n) as u64);
                if e.0 >= RUNS.0 && e.1 as f64 > RUNS.1 * e.0 as f64 + RUNS.2 && found.is_none() {
                    found = Some(Found {
                        class: format!("weight:runs:{k:?}"),
                        message: format!(
                            "{} keystrokes in a row, {} one peer, made {} new runs",
                            e.0,
                            if k == Kind::Typing { "typed by" } else { "delivered to" },
                            e.1
                        ),
                        step: i,
                    });
                }
            }
            let mut add = |what, bytes: usize| out.push(Weighed { step: i, what, bytes: bytes as u64 });
            match s {
                Step::Ins { u, .. } | Step::Del { u, .. } if fresh => {
                    if let Some(e) = l.edit(*u) {
                        let what = if matches!(s, Step::Ins { .. }) { What::Insertion } else { What::Deletion };
                        add(what, edit_bytes(Wire::Bin, e).len());
                    }
                },
                Step::Anc { a, .. } => {
                    if let Some(a) = l.anc(*a) {
                        add(What::Anchor, anc_bytes(Wire::Bin, a).len());
                    }
                },
                Step::Snap { s, .. } => {
                    if let Some(b) = l.snap(*s) {
                        add(What::Snapshot, b.len());
                    }
                },
                _ => {},
            }
            if i % every == every - 1 || i + 1 == steps.len() {
                for d in l.docs() {
                    let before = live();
                    let copy = d.clone();
                    let bytes = live() - before;
                    drop(copy);
                    add(What::Copy, bytes.max(0) as usize);
                    add(What::Snapshot, d.encode().len());
                }
            }
        }
        for d in l.into_docs() {
            let before = live();
            drop(d);
            let bytes = (before - live()).max(0) as u64;
            out.push(Weighed { step: steps.len(), what: What::Held, bytes });
        }
    }));
    (out, done.is_err(), found)
}

/// Executes the steps on the tree's code and on the pinned build and compares
/// what everything weighs.
pub fn judge(cfg: &Config, steps: &[Step], beat: &mut dyn FnMut()) -> Judged {
    let (cur, panicked, mut found) = weigh(Imp::Cur, cfg, steps, beat);
    let (base, _, _) = weigh(Imp::Base, cfg, steps, beat);
    let mut sums: BTreeMap<What, (u64, u64, u64)> = BTreeMap::new();
    let mut digest = 0;
    for (c, b) in cur.iter().zip(&base) {
        if (c.step, c.what) != (b.step, b.what) {
            break;
        }
        digest = crate::rng::mix(digest ^ c.bytes);
        let e = sums.entry(c.what).or_default();
        *e = (e.0 + 1, e.1 + c.bytes, e.2 + b.bytes);
        let (times, plus) = one(c.what);
        if found.is_none() && c.bytes as f64 > times * b.bytes as f64 + plus {
            found = Some(Found {
                class: format!("weight:{}", name(c.what)),
                message: format!(
                    "at step {}, a {}, weighs {} bytes; in the pinned build it weighs {}",
                    c.step,
                    name(c.what),
                    c.bytes,
                    b.bytes
                ),
                step: c.step,
            });
        }
    }
    for (k, (n, c, b)) in &sums {
        if matches!(k, What::Insertion | What::Deletion | What::Anchor) && *n >= MEAN.0 {
            let (c, b) = (*c as f64 / *n as f64, *b as f64 / *n as f64);
            if found.is_none() && c > MEAN.1 * b + MEAN.2 {
                found = Some(Found {
                    class: format!("weight:mean:{}", name(*k)),
                    message: format!(
                        "{n} times, a {}, weighs {c:.1} bytes on average; in the pinned build {b:.1}",
                        name(*k)
                    ),
                    step: steps.len(),
                });
            }
        }
    }
    let by = sums.iter().map(|(k, (n, c, _))| (name(*k), (*n, *c))).collect();
    Judged { found, by, panicked, digest }
}

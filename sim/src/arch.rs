//! Sessions across machines of different kinds. The same steps are executed
//! here and, interpreted, on a machine with another word size or byte order,
//! and everything that would be sent is handed over: each side integrates the
//! other's messages, loads its snapshots and resolves its anchors.

use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

use serde::{Deserialize, Serialize};

use crate::case::Found;
use crate::imp::*;
use crate::lite::Lite;
use crate::miri::Miri;
use crate::step::*;

/// Bytes that are read and written at once: everything is slow elsewhere.
#[derive(Clone, Default)]
pub struct Blob(pub Vec<u8>);

impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}

impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Bytes;
        impl serde::de::Visitor<'_> for Bytes {
            type Value = Blob;

            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }

            fn visit_bytes<E>(self, b: &[u8]) -> Result<Blob, E> {
                Ok(Blob(b.to_vec()))
            }
        }
        d.deserialize_bytes(Bytes)
    }
}

/// What one side sends to the other.
#[derive(Clone, Default, Serialize, Deserialize)]
pub struct Post {
    /// Whether it is an insertion, as bincode, as JSON; the latter only if
    /// someone receives it that way.
    pub edits: BTreeMap<u32, (bool, Blob, Blob)>,
    pub ancs: BTreeMap<u32, (Blob, Blob)>,
    pub snaps: BTreeMap<u32, Blob>,
}

/// How a session is executed with the rest of the world elsewhere.
#[derive(Default)]
pub struct Abroad {
    /// Without it, with one's own messages.
    pub theirs: Option<Post>,
    pub ours: Post,
    /// What the calls returned.
    pub answers: Vec<Vec<u64>>,
    /// The edits and anchors that someone receives as JSON.
    json: (BTreeSet<u32>, BTreeSet<u32>),
}

impl Abroad {
    fn new(steps: &[Step], theirs: Option<Post>) -> Self {
        let mut a = Abroad { theirs, ..Abroad::default() };
        for s in steps {
            match s {
                Step::Dlv { u, w: Wire::Json, .. } => drop(a.json.0.insert(*u)),
                Step::Res { a: x, w: Wire::Json, .. } => drop(a.json.1.insert(*x)),
                _ => {},
            }
        }
        a
    }

    pub fn made(&mut self, u: u32, e: &Edit) {
        let json = self.json.0.contains(&u).then(|| edit_bytes(Wire::Json, e)).unwrap_or_default();
        self.ours.edits.insert(u, (is_ins(e), Blob(edit_bytes(Wire::Bin, e)), Blob(json)));
    }

    pub fn anchored(&mut self, a: u32, anc: &Anc) {
        let json = self.json.1.contains(&a).then(|| anc_bytes(Wire::Json, anc)).unwrap_or_default();
        self.ours.ancs.insert(a, (Blob(anc_bytes(Wire::Bin, anc)), Blob(json)));
    }
}

pub const REFUSED: u64 = u64::MAX;

pub fn pick<'a>(w: Wire, bin: &'a Blob, json: &'a Blob) -> (Wire, &'a [u8]) {
    match w {
        Wire::Json => (w, &json.0),
        _ => (Wire::Bin, &bin.0),
    }
}

/// The session with characters just small enough for all of them to be counted
/// in 31 bits: larger objects there cannot be in 32-bit memory.
pub fn brim(cfg: &mut Config, steps: &[Step]) {
    let units = steps.iter().fold(cfg.init as u64, |n, s| n + if let Step::Ins { n, .. } = s { *n as u64 } else { 0 });
    cfg.scale = (i32::MAX as u64 / units.max(1)).max(1);
}

/// One side's account.
#[derive(Serialize, Deserialize)]
pub struct Report {
    pub ours: Post,
    pub answers: Vec<Vec<u64>>,
    /// Messages read and written again; nothing for those that were refused.
    pub again: BTreeMap<u32, (Option<Blob>, Option<Blob>)>,
    pub panic: Option<String>,
}

#[derive(Serialize, Deserialize)]
pub struct Order {
    pub cfg: Config,
    pub steps: Vec<Step>,
    pub theirs: Post,
    /// Only read and write messages: the lengths may not fit.
    pub read_only: bool,
}

fn execute(cfg: &Config, steps: &[Step], theirs: Option<Post>, beat: &mut dyn FnMut()) -> (Lite, Option<String>) {
    let mut l = Lite::new(cfg, Imp::Cur);
    l.abroad = Some(Abroad::new(steps, theirs));
    for s in steps {
        beat();
        // `BadCall`s panic as they should, and are caught inside.
        PANIC.with(|p| *p.borrow_mut() = None);
        if catch_unwind(AssertUnwindSafe(|| l.step(s))).is_err() {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
            return (l, Some(format!("{s:?}: {m}")));
        }
    }
    (l, None)
}

/// The machine elsewhere.
pub fn serve(order: &Order, beat: &mut dyn FnMut()) -> Report {
    if !order.read_only {
        let (l, panic) = execute(&order.cfg, &order.steps, Some(order.theirs.clone()), beat);
        let a = l.abroad.unwrap();
        return Report { ours: a.ours, answers: a.answers, again: BTreeMap::new(), panic };
    }
    let mut again = BTreeMap::new();
    let mut panic = None;
    for (u, (ins, bin, json)) in &order.theirs.edits {
        beat();
        let r = catch_unwind(|| {
            let read = |w, b: &Blob| match &b.0[..] {
                [] => Some(Blob::default()),
                b => edit_from(Imp::Cur, *ins, w, b).ok().map(|e| Blob(edit_bytes(w, &e))),
            };
            (read(Wire::Bin, bin), read(Wire::Json, json))
        });
        match r {
            Ok(r) => drop(again.insert(*u, r)),
            Err(_) => {
                let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
                panic.get_or_insert(format!("reading edit {u}: {m}"));
            },
        }
    }
    Report { ours: Post::default(), answers: vec![], again, panic }
}

pub enum Outcome {
    Agreed,
    /// Not about this.
    Other(String),
    Differs(Found),
}

/// Whether a machine of the kind `m` interprets agrees with this one.
pub fn judge(m: &mut Miri, kind: &str, cfg: &Config, steps: &[Step], limit: Duration, beat: &mut dyn FnMut()) -> (Outcome, u64) {
    // Which edits a partial drain yields is up to the order authors come in.
    let steps: Vec<Step> = steps
        .iter()
        .map(|s| match s {
            Step::Part { p, .. } => Step::Drain { p: *p },
            s => s.clone(),
        })
        .collect();
    let text: u128 = steps
        .iter()
        .map(|s| if let Step::Ins { n, .. } = s { *n as u128 } else { 0 })
        .sum::<u128>()
        + cfg.init as u128;
    let text = text * cfg.scale as u128;
    let narrow = kind == "armv7";
    let read_only = narrow && text > i32::MAX as u128;
    if text > u64::MAX as u128 / 4 {
        return (Outcome::Agreed, 0);
    }
    let (here, panic) = execute(cfg, &steps, None, &mut || ());
    if panic.is_some() {
        return (Outcome::Other("panic".into()), 0);
    }
    let ours = here.abroad.as_ref().unwrap();
    let order = Order { cfg: cfg.clone(), steps: steps.clone(), theirs: ours.ours.clone(), read_only };
    // Where it does not come to an end, a second interpreter has its say.
    let ends = |why: &str| why == "hang" || why.contains("abnormal termination") || why.contains("Undefined Behavior");
    let mut asked = m.ask(&order, limit, beat);
    if asked.as_ref().is_err_and(|why| ends(why)) {
        asked = m.ask(&order, limit * 2, beat);
    }
    let report: Report = match asked {
        Ok(r) => r,
        Err(why) if ends(&why) => {
            let found = Found { class: "architecture:stops".into(), message: format!("{why}, and not here [on {kind}]"), step: 0 };
            return (Outcome::Differs(found), crate::rng::mix(why.len() as u64));
        },
        Err(why) => return (Outcome::Other(why), 0),
    };
    let digest = crate::rng::mix(report.answers.iter().flatten().fold(7, |h, a| crate::rng::mix(h ^ a)) ^ report.answers.len() as u64);
    let differs = |what: &str, message: String| {
        let found = Found { class: format!("architecture:{what}"), message: format!("{message} [on {kind}]"), step: 0 };
        (Outcome::Differs(found), digest)
    };
    if let Some(p) = &report.panic {
        return differs("panic", format!("panics there and not here: {p}"));
    }
    if read_only {
        for (u, (bin, json)) in &report.again {
            let mine = here.edit(*u).unwrap();
            for (w, b) in [(Wire::Bin, bin), (Wire::Json, json)] {
                match b {
                    Some(b) if b.0.is_empty() => {},
                    Some(b) if edit_from(Imp::Cur, is_ins(mine), w, &b.0).as_ref() != Ok(mine) => {
                        return differs("truncated", format!("{mine:?} was read without an error and as something else"));
                    },
                    // The rest of the session may be what is too large, but
                    // then so is every edit at its end, roughly.
                    None if text < 1 << 32 => return differs("refused", format!("{mine:?} was not readable")),
                    _ => {},
                }
            }
        }
        return (Outcome::Agreed, digest);
    }
    // What they sent is what we would have sent.
    let other = report.ours.edits.keys().ne(ours.ours.edits.keys())
        || report.ours.ancs.keys().ne(ours.ours.ancs.keys())
        || report.ours.snaps.keys().ne(ours.ours.snaps.keys());
    for (i, (a, b)) in ours.answers.iter().zip(&report.answers).enumerate() {
        if a != b {
            return differs("answer", format!("answer {i} is {b:?} there and {a:?} here"));
        }
    }
    if other || ours.answers.len() != report.answers.len() {
        return differs("answer", "other calls were possible there than here".into());
    }
    for (u, (ins, bin, json)) in &report.ours.edits {
        let mine = here.edit(*u).unwrap();
        for (w, b) in [(Wire::Bin, bin), (Wire::Json, json)] {
            match edit_from(Imp::Cur, *ins, w, &b.0) {
                _ if b.0.is_empty() => {},
                Ok(e) if e == *mine => {},
                e => return differs("edit", format!("edit {u} arrives here as {e:?} and is {mine:?}")),
            }
        }
    }
    for (a, (bin, json)) in &report.ours.ancs {
        let mine = here.anc(*a).unwrap();
        for (w, b) in [(Wire::Bin, bin), (Wire::Json, json)] {
            match anc_from(Imp::Cur, w, &b.0) {
                _ if b.0.is_empty() => {},
                Ok(x) if x == *mine => {},
                x => return differs("anchor", format!("anchor {a} arrives here as {x:?} and is {mine:?}")),
            }
        }
    }
    // And back: here, with everything made there.
    let (back, panic) = execute(cfg, &steps, Some(report.ours), &mut || ());
    if let Some(p) = panic {
        return differs("panic", format!("panics here with what was made there: {p}"));
    }
    let theirs = back.abroad.as_ref().unwrap();
    for (i, (a, b)) in ours.answers.iter().zip(&theirs.answers).enumerate() {
        if a != b {
            return differs("answer", format!("answer {i} is {b:?} with what was made there and {a:?} with what was made here"));
        }
    }
    if let Some((u, _)) = ours.ours.edits.iter().find(|(u, _)| here.edit(**u) != back.edit(**u)) {
        return differs("edit", format!("edit {u} is {:?} with what was made there and {:?} with what was made here", back.edit(*u), here.edit(*u)));
    }
    (Outcome::Agreed, digest)
}

pub fn is_ins(e: &Edit) -> bool {
    matches!(e, Edit::CurIns(_) | Edit::BaseIns(_))
}

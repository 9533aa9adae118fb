//! Executes steps against real replicas and judges what they return.
//!
//! The reference model is deliberately small: every inserted unit gets a
//! number, every peer's buffer is the list of the numbers visible there, built
//! only from what cola returned, and for every peer it is remembered when it
//! got each edit's effect. All oracles are statements about those numbers.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::ops::{Bound, Range};

use crate::imp::*;
use crate::rng::{mix, Rng};
use crate::step::*;

pub const NEVER: u32 = u32::MAX;
const NONE: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub struct Violation {
    /// The properties this contradicts directly.
    pub tags: Vec<&'static str>,
    /// Coarse kind, kept stable while minimising.
    pub class: String,
    pub msg: String,
    pub step: usize,
}

/// Replacements used to attribute a failure: the same run without the
/// machinery a property is about.
#[derive(Clone, Copy, Default, Debug)]
pub struct Subst {
    pub load_as_fork: bool,
    pub fork_as_load: bool,
    pub native: bool,
    pub all_cur: bool,
    pub no_dups: bool,
    pub no_bad: bool,
}

#[derive(Clone, Debug)]
pub enum OpKind {
    Ins { first: u32, n: u32, left: u32 },
    Del { targets: Vec<u32> },
    Noop { ins: bool },
}

pub struct Op {
    pub uid: u32,
    pub author: u16,
    pub at: u32,
    /// How much of its author's log came before it.
    past: u32,
    pub kind: OpKind,
    edit: Option<Edit>,
    text: Option<TextId>,
    by: u64,
    bytes: [Option<Vec<u8>>; 2],
    key: u64,
}

struct Twin {
    doc: Doc,
    buf: Vec<u32>,
    tag: &'static str,
}

/// What is known about one peer besides its replica: copied on fork and load.
#[derive(Clone, Default)]
pub struct View {
    pub buf: Vec<u32>,
    delivered: Vec<bool>,
    applied_at: Vec<u32>,
    /// Operations in the order they took effect.
    log: Vec<u32>,
    vanished_at: Vec<u32>,
    /// Delivered insertions not yet applied.
    pub pend_ins: Vec<u32>,
    /// Delivered deletions not certainly merged.
    pub pend_del: Vec<u32>,
    key: u64,
    drained: bool,
    rid: u64,
}

pub struct Peer {
    pub doc: Option<Doc>,
    pub imp: Imp,
    pub v: View,
    char_clock: usize,
    twin: Option<Twin>,
    pub restored: bool,
}

struct Snapshot {
    bytes: Vec<u8>,
    imp: Imp,
    saved: Doc,
    view: View,
}

struct AncRec {
    anc: Anc,
    imp: Imp,
    /// Attached unit; `NONE` for the ends of the document.
    ch: u32,
    right: bool,
    created_by: u16,
}

#[derive(Default, Clone)]
pub struct Probes(pub BTreeMap<&'static str, u64>);

impl Probes {
    pub fn hit(&mut self, k: &'static str) {
        *self.0.entry(k).or_insert(0) += 1;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.0.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
}

pub struct Exec {
    sub: Subst,
    scale: usize,
    pub peers: BTreeMap<u16, Peer>,
    pub ops: Vec<Op>,
    pub by_uid: HashMap<u32, u32>,
    by_text: HashMap<(u64, usize), u32>,
    ch_op: Vec<u32>,
    edges: Vec<(u32, u32)>,
    snaps: HashMap<u32, Snapshot>,
    ancs: HashMap<u32, AncRec>,
    seen_states: HashMap<u64, (u64, u16, u32)>,
    /// How much of the past of an edit has been delivered to a peer.
    past_seen: HashMap<(u16, u32), u32>,
    pub now: u32,
    pub violations: Vec<Violation>,
    pub poisoned: bool,
    pub digest: u64,
    pub order_digest: u64,
    pub probes: Probes,
    pub states: HashSet<u64>,
    used_ids: HashSet<u64>,
    protocols: [Option<u64>; 2],
    c07_budget: u64,
    max_backlog: usize,
    debug: bool,
}

type R<T> = Result<T, Violation>;

const EDIT_TAGS: [&str; 7] = ["C01", "C02", "C04", "C05", "C06", "C07", "C08"];

/// The properties a crash or hang in the given call contradicts.
pub fn crash_tags(call: Call, dup: bool) -> Vec<&'static str> {
    let mut t: Vec<&'static str> = match call {
        Call::Insert => vec!["C01", "C04", "C07", "C08", "C17"],
        Call::IntIns | Call::DrainIns => vec!["C01", "C02", "C04", "C07", "C08", "C17"],
        Call::Delete => vec!["C01", "C04", "C05", "C08"],
        Call::IntDel | Call::DrainDel => EDIT_TAGS.to_vec(),
        Call::New => vec!["C01", "C08"],
        Call::Fork | Call::Clone => vec!["C01", "C08", "C10"],
        Call::Encode | Call::Decode => vec!["C01", "C08", "C09"],
        Call::DecodeDamaged => vec!["C11"],
        Call::Anchor => vec!["C14"],
        Call::Resolve => vec!["C14", "C15"],
        Call::Ser | Call::De => vec!["C12"],
        Call::DeDamaged => vec!["C13"],
        Call::Invariants => vec!["C08"],
        Call::Bad => vec!["C18"],
        Call::None => vec![],
    };
    if dup {
        t.push("C03");
    }
    t
}

fn fold(h: &mut u64, x: u64) {
    *h = mix(*h ^ x.wrapping_mul(0xD6E8_FEB8_6659_FD93));
}

fn buf_hash(b: &[u32]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    for &c in b {
        h = (h ^ c as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    mix(h)
}

impl View {
    fn is_delivered(&self, op: u32) -> bool {
        self.delivered.get(op as usize).copied().unwrap_or(false)
    }

    fn applied(&self, op: u32) -> u32 {
        self.applied_at.get(op as usize).copied().unwrap_or(NEVER)
    }

    fn vanished(&self, ch: u32) -> u32 {
        self.vanished_at.get(ch as usize).copied().unwrap_or(NEVER)
    }

    fn set_applied(&mut self, op: u32, now: u32) {
        let i = op as usize;
        if self.applied_at.len() <= i {
            self.applied_at.resize(i + 1, NEVER);
        }
        if self.applied_at[i] == NEVER {
            self.applied_at[i] = now;
            self.log.push(op);
        }
    }

    fn set_vanished(&mut self, ch: u32, now: u32) {
        let i = ch as usize;
        if self.vanished_at.len() <= i {
            self.vanished_at.resize(i + 1, NEVER);
        }
        if self.vanished_at[i] == NEVER {
            self.vanished_at[i] = now;
        }
    }

    fn set_delivered(&mut self, op: u32, key: u64) -> bool {
        let i = op as usize;
        if self.delivered.len() <= i {
            self.delivered.resize(i + 1, false);
        }
        let was = self.delivered[i];
        if !was {
            self.delivered[i] = true;
            self.key ^= key;
        }
        was
    }

    fn pending(&self) -> bool {
        !self.pend_ins.is_empty() || !self.pend_del.is_empty()
    }
}

impl Exec {
    pub fn new(cfg: Config, sub: Subst) -> R<Self> {
        let mut e = Exec {
            scale: cfg.scale as usize,
            sub,
            peers: BTreeMap::new(),
            ops: Vec::new(),
            by_uid: HashMap::new(),
            by_text: HashMap::new(),
            ch_op: Vec::new(),
            edges: Vec::new(),
            snaps: HashMap::new(),
            ancs: HashMap::new(),
            seen_states: HashMap::new(),
            past_seen: HashMap::new(),
            now: 1,
            violations: Vec::new(),
            poisoned: false,
            digest: 0,
            order_digest: 0,
            probes: Probes::default(),
            states: HashSet::new(),
            used_ids: HashSet::new(),
            protocols: [None, None],
            c07_budget: 20_000_000,
            max_backlog: 0,
            debug: std::env::var_os("COLASIM_TRACE").is_some(),
        };
        let imp = if sub.all_cur { Imp::Cur } else { cfg.imp };
        let len = cfg.init as usize * e.scale;
        let doc = guard(Call::New, || Doc::new(imp, cfg.id, len))
            .map_err(|c| e.crash(c, false))?;
        e.used_ids.insert(cfg.id);
        // Operation 0 is the initial document.
        e.ops.push(Op {
            uid: 0,
            author: 0,
            at: 0,
            past: 0,
            kind: OpKind::Ins { first: 0, n: cfg.init, left: NONE },
            edit: None,
            text: None,
            by: cfg.id,
            bytes: [None, None],
            key: 0,
        });
        e.ch_op = vec![0; cfg.init as usize];
        let mut v = View {
            buf: (0..cfg.init).collect(),
            drained: true,
            rid: cfg.id,
            ..View::default()
        };
        v.set_delivered(0, 0);
        v.set_applied(0, 0);
        e.peers.insert(
            0,
            Peer { doc: Some(doc), imp, v, char_clock: len, twin: None, restored: false },
        );
        Ok(e)
    }

    fn crash(&self, (call, msg): (Call, String), dup: bool) -> Violation {
        let at = msg.rsplit_once('[').map(|(_, l)| l.trim_end_matches(']')).unwrap_or("");
        let file = at.split(':').next().unwrap_or("");
        Violation {
            tags: crash_tags(call, dup),
            class: format!("panic:{call:?}:{file}"),
            msg: format!("{call:?} panicked: {msg}"),
            step: 0,
        }
    }

    fn bad(tags: &[&'static str], class: &str, msg: String) -> Violation {
        Violation { tags: tags.to_vec(), class: class.into(), msg, step: 0 }
    }

    fn report(&mut self, v: Violation) {
        if self.violations.len() < 8 {
            self.violations.push(v);
        }
    }

    /// Runs one step; a returned violation ends the run.
    pub fn step(&mut self, i: usize, s: &Step) {
        if self.poisoned {
            return;
        }
        self.now += 1;
        status(1, self.now as u64);
        let before = self.violations.len();
        if let Err(v) = self.step_inner(s) {
            self.report(v);
            self.poisoned = true;
        }
        for v in &mut self.violations[before..] {
            v.step = i;
        }
        if self.debug {
            eprintln!("{i}: {s:?}");
            for (l, p) in &self.peers {
                if p.doc.is_some() {
                    eprintln!("    {l}: {:?} pend {:?} {:?}", p.v.buf, p.v.pend_ins, p.v.pend_del);
                }
            }
        }
    }

    fn alive(&self, p: u16) -> bool {
        self.peers.get(&p).is_some_and(|p| p.doc.is_some())
    }

    fn step_inner(&mut self, s: &Step) -> R<()> {
        match s {
            Step::Ins { p, u, pos, n } => self.ins(*p, *u, *pos, *n),
            Step::Del { p, u, pos, n, b } => self.del(*p, *u, *pos, *n, *b),
            Step::Dlv { p, u, w } => self.deliver(*p, *u, *w),
            Step::Drain { p } => self.drain(*p),
            Step::Part { p, ins, del } => self.part(*p, *ins as usize, *del as usize),
            Step::Fork { p, to, id, shadow } => self.fork(*p, *to, *id, *shadow),
            Step::Snap { p, s, w } => self.snap(*p, *s, *w),
            Step::Load { s, to, id, imp, shadow } => self.load(*s, *to, *id, *imp, *shadow),
            Step::BadLoad { s, imp, d } => self.bad_load(*s, *imp, d),
            Step::BadMsg { u, w, what, inner, d } => self.bad_msg(*u, *w, *what, *inner, d),
            Step::BadAnc { a, w, inner, d } => self.bad_anc(*a, *w, *inner, d),
            Step::Crash { p } => {
                if let Some(peer) = self.peers.get_mut(p) {
                    if peer.doc.take().is_some() {
                        if peer.v.pending() {
                            self.probes.hit("crash with edits pending");
                        }
                        peer.twin = None;
                        peer.v.buf = Vec::new();
                    }
                }
                Ok(())
            },
            Step::Swap { p } => self.swap(*p),
            Step::Twin { p } => self.twin(*p),
            Step::Untwin { p } => {
                if let Some(peer) = self.peers.get_mut(p) {
                    peer.twin = None;
                }
                Ok(())
            },
            Step::Anc { p, a, pos, right } => self.anchor(*p, *a, *pos, *right),
            Step::Res { p, a, w } => self.resolve(*p, *a, *w),
            Step::Bad { p, c } => self.bad_call(*p, *c),
            Step::Noop { p, u, ins, pos } => self.noop(*p, *u, *ins, *pos),
            Step::Trip { u } => self.trip(*u),
            Step::Check { p } => self.check(*p),
        }
    }

    fn new_op(&mut self, u: u32, author: u16, kind: OpKind, edit: Edit, text: Option<TextId>, by: u64) -> u32 {
        let op = self.ops.len() as u32;
        let key = if matches!(kind, OpKind::Noop { .. }) { 0 } else { mix(0xA5A5 ^ ((u as u64) << 17)) };
        if let Some(t) = &text {
            if !matches!(kind, OpKind::Noop { .. }) {
                self.by_text.insert((t.by, t.range.start), op);
            }
        }
        self.ops.push(Op {
            uid: u,
            author,
            at: self.now,
            past: self.peers[&author].v.log.len() as u32,
            kind,
            edit: Some(edit),
            text,
            by,
            bytes: [None, None],
            key,
        });
        self.by_uid.insert(u, op);
        op
    }

    fn after_local(&mut self, p: u16) -> R<()> {
        let peer = &self.peers[&p];
        let len = peer.doc.as_ref().unwrap().len();
        if len != peer.v.buf.len() * self.scale {
            return Err(Self::bad(
                &["C08"],
                "length",
                format!("peer {p}: replica length {len}, buffer {}", peer.v.buf.len() * self.scale),
            ));
        }
        Ok(())
    }

    fn twin_diff(&mut self, p: u16, what: &str) -> R<()> {
        let peer = &self.peers[&p];
        if let Some(t) = &peer.twin {
            if t.buf != peer.v.buf {
                return Err(Self::bad(
                    &[t.tag],
                    "twin",
                    format!("peer {p} and its copy differ after {what}"),
                ));
            }
            if t.doc.len() != t.buf.len() * self.scale {
                return Err(Self::bad(&[t.tag], "twin", format!("peer {p}: copy's length differs after {what}")));
            }
        }
        Ok(())
    }

    fn ins(&mut self, p: u16, u: u32, pos: u32, n: u32) -> R<()> {
        if !self.alive(p) || self.by_uid.contains_key(&u) || n == 0 {
            return Ok(());
        }
        let scale = self.scale;
        let peer = self.peers.get_mut(&p).unwrap();
        let off = pos as usize % (peer.v.buf.len() + 1);
        if (peer.v.buf.len() + n as usize).checked_mul(scale).is_none_or(|x| x > usize::MAX / 4) {
            return Ok(());
        }
        let doc = peer.doc.as_mut().unwrap();
        let r = guard(Call::Insert, || doc.inserted(off * scale, n as usize * scale));
        let (edit, text) = r.map_err(|c| self.crash(c, false))?;
        let peer = self.peers.get_mut(&p).unwrap();
        let want = TextId { by: peer.v.rid, range: peer.char_clock..peer.char_clock + n as usize * scale };
        let mut viol = None;
        if text != want {
            viol = Some(Self::bad(
                &["C17"],
                "identity",
                format!("peer {p}: inserted text is {text:?}, expected {want:?}"),
            ));
        }
        peer.char_clock += n as usize * scale;
        let first = self.ch_op.len() as u32;
        let left = if off > 0 { peer.v.buf[off - 1] } else { NONE };
        let right = peer.v.buf.get(off).copied();
        peer.v.buf.splice(off..off, first..first + n);
        let mut twin_err = false;
        if let Some(t) = &mut peer.twin {
            let r = guard(Call::Insert, || t.doc.inserted(off * scale, n as usize * scale));
            match r {
                Ok((_, tt)) => twin_err = tt != text,
                Err(_) => twin_err = true,
            }
            t.buf.splice(off..off, first..first + n);
            if twin_err {
                let tag = t.tag;
                return Err(Self::bad(&[tag], "twin", format!("peer {p} and its copy differ on a local insertion")));
            }
        }
        let _ = twin_err;
        let op = self.new_op(u, p, OpKind::Ins { first, n, left }, edit, Some(text), 0);
        self.ch_op.resize(first as usize + n as usize, op);
        if left != NONE {
            self.edges.push((left, first));
        }
        if let Some(r) = right {
            self.edges.push((first + n - 1, r));
        }
        let (now, key) = (self.now, self.ops[op as usize].key);
        let v = &mut self.peers.get_mut(&p).unwrap().v;
        v.set_delivered(op, key);
        v.set_applied(op, now);
        fold(&mut self.digest, (op as u64) << 32 | off as u64);
        if let Some(v) = viol {
            self.report(v);
        }
        self.after_local(p)?;
        self.twin_diff(p, "a local insertion")?;
        self.settled(p)
    }

    fn del(&mut self, p: u16, u: u32, pos: u32, n: u32, b: u8) -> R<()> {
        if !self.alive(p) || self.by_uid.contains_key(&u) || n == 0 {
            return Ok(());
        }
        let scale = self.scale;
        let peer = self.peers.get_mut(&p).unwrap();
        let len = peer.v.buf.len();
        if len == 0 {
            return Ok(());
        }
        let start = pos as usize % len;
        let end = (start + n as usize).min(len);
        let (cs, ce) = (start * scale, end * scale);
        let bounds = move || -> (Bound<usize>, Bound<usize>) {
            match b {
                1 => (Bound::Included(cs), Bound::Included(ce - 1)),
                2 if cs > 0 => (Bound::Excluded(cs - 1), Bound::Excluded(ce)),
                3 if start == 0 && end == len => (Bound::Unbounded, Bound::Unbounded),
                3 if start == 0 => (Bound::Unbounded, Bound::Excluded(ce)),
                3 if end == len => (Bound::Included(cs), Bound::Unbounded),
                _ => (Bound::Included(cs), Bound::Excluded(ce)),
            }
        };
        let (bs, be) = bounds();
        let doc = peer.doc.as_mut().unwrap();
        let r = guard(Call::Delete, || doc.deleted(bs, be));
        let (edit, by) = r.map_err(|c| self.crash(c, false))?;
        let peer = self.peers.get_mut(&p).unwrap();
        let mut viol = None;
        if by != peer.v.rid {
            viol = Some(Self::bad(
                &["C17"],
                "identity",
                format!("peer {p} (id {}): deletion says it was made by {by}", peer.v.rid),
            ));
        }
        let mut targets: Vec<u32> = peer.v.buf.splice(start..end, []).collect();
        targets.sort_unstable();
        if let Some(t) = &mut peer.twin {
            let r = guard(Call::Delete, || t.doc.deleted(bs, be));
            t.buf.splice(start..end, []);
            if !matches!(r, Ok((_, b)) if b == by) {
                let tag = t.tag;
                return Err(Self::bad(&[tag], "twin", format!("peer {p} and its copy differ on a local deletion")));
            }
        }
        let now = self.now;
        for &c in &targets {
            peer.v.set_vanished(c, now);
        }
        let op = self.new_op(u, p, OpKind::Del { targets }, edit, None, by);
        let key = self.ops[op as usize].key;
        let v = &mut self.peers.get_mut(&p).unwrap().v;
        v.set_delivered(op, key);
        v.set_applied(op, now);
        fold(&mut self.digest, (op as u64) << 32 | start as u64);
        if let Some(v) = viol {
            self.report(v);
        }
        self.after_local(p)?;
        self.twin_diff(p, "a local deletion")?;
        self.settled(p)
    }

    fn noop(&mut self, p: u16, u: u32, ins: bool, pos: u32) -> R<()> {
        if !self.alive(p) || self.by_uid.contains_key(&u) || self.sub.no_bad {
            return Ok(());
        }
        let scale = self.scale;
        let peer = self.peers.get_mut(&p).unwrap();
        let off = pos as usize % (peer.v.buf.len() + 1) * scale;
        let doc = peer.doc.as_mut().unwrap();
        let r = guard(Call::Bad, || {
            if ins {
                doc.inserted(off, 0).0
            } else {
                doc.deleted(Bound::Included(off), Bound::Excluded(off)).0
            }
        });
        let edit = r.map_err(|c| self.crash(c, false))?;
        if let Some(t) = &mut self.peers.get_mut(&p).unwrap().twin {
            let _ = guard(Call::Bad, || {
                if ins {
                    t.doc.inserted(off, 0).0
                } else {
                    t.doc.deleted(Bound::Included(off), Bound::Excluded(off)).0
                }
            });
        }
        self.new_op(u, p, OpKind::Noop { ins }, edit, None, 0);
        self.probes.hit("empty edit made");
        self.after_local(p).map_err(|mut v| {
            v.tags.push("C18");
            v
        })
    }

    /// The edit as peer `dst` gets it.
    fn receive(&mut self, op: u32, imp: Imp, w: Wire) -> R<Edit> {
        let o = &mut self.ops[op as usize];
        let author_imp = match o.edit.as_ref().unwrap() {
            Edit::CurIns(_) | Edit::CurDel(_) => Imp::Cur,
            _ => Imp::Base,
        };
        let w = if self.sub.native { Wire::Native } else { w };
        if w == Wire::Native && author_imp == imp {
            return Ok(o.edit.clone().unwrap());
        }
        let w = if w == Wire::Native { Wire::Bin } else { w };
        let slot = (w == Wire::Json) as usize;
        if o.bytes[slot].is_none() {
            let e = o.edit.as_ref().unwrap();
            let b = guard(Call::Ser, || edit_bytes(w, e));
            match b {
                Ok(b) => self.ops[op as usize].bytes[slot] = Some(b),
                Err(c) => return Err(self.crash(c, false)),
            }
        }
        let o = &self.ops[op as usize];
        let bytes = o.bytes[slot].as_ref().unwrap();
        let is_ins = matches!(o.edit, Some(Edit::CurIns(_) | Edit::BaseIns(_)));
        let r = guard(Call::De, || edit_from(imp, is_ins, w, bytes));
        let tags: &[&'static str] = if imp == author_imp { &["C12"] } else { &["C12", "C16"] };
        match r {
            Err(c) => {
                let mut v = self.crash(c, false);
                v.tags = tags.to_vec();
                Err(v)
            },
            Ok(Err(e)) => Err(Self::bad(
                tags,
                "wire",
                format!("edit {} made by a {author_imp:?} peer cannot be deserialized by a {imp:?} peer ({w:?}): {e}", o.uid),
            )),
            Ok(Ok(e)) => {
                if imp == author_imp {
                    if &e != o.edit.as_ref().unwrap() {
                        let msg = format!("edit {} changed on the {w:?} wire: {:?} became {e:?}", o.uid, o.edit);
                        self.report(Self::bad(&["C12"], "wire", msg));
                    }
                } else {
                    let same = match &o.kind {
                        OpKind::Ins { .. } => edit_text(&e) == o.text,
                        OpKind::Del { .. } => edit_deleted_by(&e) == Some(o.by),
                        OpKind::Noop { .. } => true,
                    };
                    if !same {
                        let msg = format!("edit {} means something else to a {imp:?} peer: {e:?}", o.uid);
                        self.report(Self::bad(&["C16", "C12"], "wire", msg));
                    }
                }
                Ok(e)
            },
        }
    }

    /// Has everything the author of `op` had applied been delivered to `p`?
    fn past_delivered(&mut self, op: u32, p: u16) -> bool {
        let o = &self.ops[op as usize];
        let log = &self.peers[&o.author].v.log[..o.past as usize];
        let v = &self.peers[&p].v;
        let seen = self.past_seen.entry((p, op)).or_insert(0);
        while let Some(&x) = log.get(*seen as usize) {
            if !v.is_delivered(x) {
                return false;
            }
            *seen += 1;
        }
        true
    }

    /// May applying deletion `op` remove unit `c`?
    fn may_remove(&self, op: u32, c: u32) -> bool {
        let o = &self.ops[op as usize];
        let OpKind::Del { targets } = &o.kind else { return false };
        if targets.binary_search(&c).is_ok() {
            return true;
        }
        let a = &self.peers[&o.author].v;
        a.applied(self.ch_op[c as usize]) <= o.at && a.vanished(c) < o.at
    }

    /// Are all the units deletion `op` is about integrated and gone at `v`?
    fn targets_gone(&self, op: u32, v: &View) -> bool {
        let OpKind::Del { targets } = &self.ops[op as usize].kind else { return true };
        targets.iter().all(|&c| v.vanished(c) != NEVER)
    }

    fn place(&mut self, p: u16, op: u32, off: usize) -> R<()> {
        let scale = self.scale;
        let now = self.now;
        let OpKind::Ins { first, n, .. } = self.ops[op as usize].kind else { unreachable!() };
        let peer = self.peers.get_mut(&p).unwrap();
        if off % scale != 0 || off / scale > peer.v.buf.len() {
            return Err(Self::bad(
                &["C08"],
                "offset",
                format!("peer {p}: insertion at {off} in a buffer of {} (unit {scale})", peer.v.buf.len() * scale),
            ));
        }
        let off = off / scale;
        if off > 0 {
            self.edges.push((peer.v.buf[off - 1], first));
        }
        if let Some(&r) = peer.v.buf.get(off) {
            self.edges.push((first + n - 1, r));
        }
        peer.v.buf.splice(off..off, first..first + n);
        peer.v.set_applied(op, now);
        peer.v.pend_ins.retain(|&x| x != op);
        fold(&mut self.digest, (op as u64) << 32 | off as u64);
        Ok(())
    }

    /// Checks the shape of a list of ranges and removes them from the buffer.
    fn remove(&mut self, p: u16, ranges: &[Range<usize>]) -> R<Vec<u32>> {
        let scale = self.scale;
        let now = self.now;
        let peer = self.peers.get_mut(&p).unwrap();
        let len = peer.v.buf.len() * scale;
        let mut shape = None;
        for (i, r) in ranges.iter().enumerate() {
            if r.start >= r.end {
                shape = Some(("an empty or reversed range", false));
            }
            if r.end > len {
                shape = Some(("a range beyond the buffer", true));
            }
            if i > 0 && ranges[i - 1].end >= r.start {
                shape = Some(("ranges that touch, overlap or are unsorted", true));
            }
        }
        if let Some((what, _)) = shape {
            return Err(Self::bad(
                &["C06"],
                "ranges",
                format!("peer {p}: deletion returned {what}: {ranges:?} in a buffer of {len}"),
            ));
        }
        let mut removed = Vec::new();
        for r in ranges.iter().rev() {
            if r.start % scale != 0 || r.end % scale != 0 {
                return Err(Self::bad(
                    &["C05", "C08"],
                    "offset",
                    format!("peer {p}: deletion range {r:?} splits a unit of {scale}"),
                ));
            }
            removed.extend(peer.v.buf.splice(r.start / scale..r.end / scale, []));
        }
        for &c in &removed {
            peer.v.set_vanished(c, now);
        }
        for r in ranges {
            fold(&mut self.digest, (r.start as u64) << 20 ^ r.end as u64);
        }
        match ranges.len() {
            0 | 1 => {},
            2..=4 => self.probes.hit("deletion split into 2-4 ranges"),
            _ => self.probes.hit("deletion split into 5+ ranges"),
        }
        Ok(removed)
    }

    fn deliver(&mut self, p: u16, u: u32, w: Wire) -> R<()> {
        let Some(&op) = self.by_uid.get(&u) else { return Ok(()) };
        if !self.alive(p) {
            return Ok(());
        }
        let dup = self.peers[&p].v.is_delivered(op);
        if dup && self.sub.no_dups {
            return Ok(());
        }
        let imp = self.peers[&p].imp;
        let noop = matches!(self.ops[op as usize].kind, OpKind::Noop { .. });
        let is_ins = match self.ops[op as usize].kind {
            OpKind::Ins { .. } => true,
            OpKind::Noop { ins } => ins,
            _ => false,
        };
        if noop && self.sub.no_bad {
            return Ok(());
        }
        fold(&mut self.order_digest, (p as u64) << 40 | u as u64);
        let edit = self.receive(op, imp, w)?;
        // Is there concurrency here: does the receiver have something the
        // author did not?
        let past_ok = noop || self.past_delivered(op, p);
        let clean = !self.peers[&p].v.pending();
        let was_applied = self.peers[&p].v.applied(op) != NEVER;
        let sure = dup && !self.peers[&p].v.pend_del.contains(&op) && !self.peers[&p].v.pend_ins.contains(&op);
        if dup {
            if sure {
                if self.ops[op as usize].author == p {
                    self.probes.hit("own edit echoed back");
                } else {
                    self.probes.hit("duplicate of an applied edit");
                }
            } else {
                self.probes.hit("duplicate of a backlogged edit");
            }
        }
        let key = self.ops[op as usize].key;
        status(3, dup as u64);
        if is_ins {
            let peer = self.peers.get_mut(&p).unwrap();
            let doc = peer.doc.as_mut().unwrap();
            let r = guard(Call::IntIns, || doc.integrate_insertion(&edit));
            let r = r.map_err(|c| {
                let mut v = self.crash(c, dup);
                if noop {
                    v.tags = vec!["C18"];
                }
                v
            })?;
            self.mirror_ins(p, &edit, op, r, dup)?;
            match r {
                Some(off) => {
                    if noop {
                        return Err(Self::bad(&["C18"], "noop", format!("peer {p}: an empty insertion returned offset {off}")));
                    }
                    if was_applied {
                        return Err(Self::bad(
                            &["C03"],
                            "twice",
                            format!("peer {p}: insertion {u} integrated a second time, at {off}"),
                        ));
                    }
                    self.place(p, op, off)?;
                    if !past_ok {
                        self.probes.hit("insertion applied before its author's whole past");
                    }
                },
                None => {
                    if !noop && !was_applied {
                        if !dup {
                            let peer = self.peers.get_mut(&p).unwrap();
                            peer.v.pend_ins.push(op);
                            self.probes.hit("insertion backlogged");
                            let n = self.peers[&p].v.pend_ins.len();
                            self.max_backlog = self.max_backlog.max(n);
                        }
                        if past_ok && clean {
                            self.report(Self::bad(
                                &["C02"],
                                "late",
                                format!("peer {p}: insertion {u} was not applied although its author's whole past had been"),
                            ));
                        }
                    }
                },
            }
        } else {
            let peer = self.peers.get_mut(&p).unwrap();
            let doc = peer.doc.as_mut().unwrap();
            let r = guard(Call::IntDel, || doc.integrate_deletion(&edit));
            let ranges = r.map_err(|c| {
                let mut v = self.crash(c, dup);
                if noop {
                    v.tags = vec!["C18"];
                }
                v
            })?;
            self.mirror_del(p, &edit, &ranges, dup)?;
            if noop {
                if !ranges.is_empty() {
                    return Err(Self::bad(&["C18"], "noop", format!("peer {p}: an empty deletion returned {ranges:?}")));
                }
            } else {
                if sure && !ranges.is_empty() {
                    return Err(Self::bad(
                        &["C03"],
                        "twice",
                        format!("peer {p}: deletion {u} integrated a second time, at {ranges:?}"),
                    ));
                }
                let removed = self.remove(p, &ranges)?;
                if let Some(&c) = removed.iter().find(|&&c| !self.may_remove(op, c)) {
                    self.report(Self::bad(
                        &["C05"],
                        "overreach",
                        format!("peer {p}: deletion {u} removed unit {c}, which its author did not delete"),
                    ));
                }
                let gone = self.targets_gone(op, &self.peers[&p].v);
                let now = self.now;
                let v = &mut self.peers.get_mut(&p).unwrap().v;
                if !ranges.is_empty() {
                    v.set_applied(op, now);
                    v.pend_del.retain(|&x| x != op);
                    if !gone {
                        self.report(Self::bad(
                            &["C05"],
                            "underreach",
                            format!("peer {p}: deletion {u} returned {ranges:?} but left some of what its author deleted"),
                        ));
                    }
                } else if !sure {
                    if gone {
                        v.set_applied(op, now);
                    }
                    if past_ok && clean && !dup {
                        if !gone {
                            self.report(Self::bad(
                                &["C02", "C05"],
                                "late",
                                format!("peer {p}: deletion {u} had no effect although its author's whole past had been applied"),
                            ));
                        }
                    } else if !dup {
                        v.pend_del.push(op);
                        if !gone {
                            self.probes.hit("deletion backlogged");
                        }
                    }
                } else if !gone {
                    self.report(Self::bad(&["C05"], "underreach", format!("peer {p}: text of deletion {u} visible again")));
                }
            }
        }
        if !noop {
            let v = &mut self.peers.get_mut(&p).unwrap().v;
            v.set_delivered(op, key);
            let still = v.pending();
            if still && !dup {
                v.drained = false;
            }
            if dup && !clean {
                // A copy of a waiting edit may have been applied directly.
                v.drained = false;
            }
        }
        self.after_local(p).map_err(|mut v| {
            if noop {
                v.tags.push("C18");
            }
            if dup {
                v.tags.push("C03");
            }
            v
        })?;
        self.twin_diff(p, "a delivery")?;
        self.settled(p)
    }

    fn mirror_ins(&mut self, p: u16, edit: &Edit, op: u32, r: Option<usize>, dup: bool) -> R<()> {
        let scale = self.scale;
        let kind = self.ops[op as usize].kind.clone();
        let peer = self.peers.get_mut(&p).unwrap();
        let imp = peer.imp;
        let Some(t) = &mut peer.twin else { return Ok(()) };
        if t.doc.imp() != imp {
            return Ok(());
        }
        let tag = t.tag;
        let got = guard(Call::IntIns, || t.doc.integrate_insertion(edit));
        let mut v = match got {
            Ok(x) if x == r => {
                if let (Some(off), OpKind::Ins { first, n, .. }) = (r, kind) {
                    if off % scale == 0 && off / scale <= t.buf.len() {
                        let off = off / scale;
                        t.buf.splice(off..off, first..first + n);
                    }
                }
                return Ok(());
            },
            Ok(x) => Self::bad(&[tag], "twin", format!("peer {p} got {r:?} for insertion {}, its copy {x:?}", self.ops[op as usize].uid)),
            Err((c, m)) => Self::bad(&[tag], "twin", format!("peer {p} got {r:?} for an insertion, its copy's {c:?} panicked: {m}")),
        };
        if dup {
            v.tags.push("C03");
        }
        Err(v)
    }

    fn mirror_del(&mut self, p: u16, edit: &Edit, ranges: &[Range<usize>], dup: bool) -> R<()> {
        let scale = self.scale;
        let peer = self.peers.get_mut(&p).unwrap();
        let Some(t) = &mut peer.twin else { return Ok(()) };
        let tag = t.tag;
        let got = guard(Call::IntDel, || t.doc.integrate_deletion(edit));
        let mut v = match got {
            Ok(x) if x == ranges => {
                for r in ranges.iter().rev() {
                    if r.start <= r.end && r.end / scale <= t.buf.len() {
                        t.buf.splice(r.start / scale..r.end / scale, []);
                    }
                }
                return Ok(());
            },
            Ok(x) => Self::bad(&[tag], "twin", format!("peer {p} got {ranges:?} for a deletion, its copy {x:?}")),
            Err((c, m)) => Self::bad(&[tag], "twin", format!("peer {p} got {ranges:?} for a deletion, its copy's {c:?} panicked: {m}")),
        };
        if dup {
            v.tags.push("C03");
        }
        Err(v)
    }

    fn take_ins(&mut self, p: u16, max: usize) -> R<usize> {
        let doc = self.peers.get_mut(&p).unwrap().doc.as_mut().unwrap();
        let r = guard(Call::DrainIns, || doc.drain_ins(max));
        let items = r.map_err(|c| self.crash(c, false))?;
        let n = items.len();
        for (t, off) in items {
            let Some(&op) = self.by_text.get(&(t.by, t.range.start)) else {
                return Err(Self::bad(&["C17"], "identity", format!("peer {p}: the backlog yielded unknown text {t:?}")));
            };
            if self.ops[op as usize].text.as_ref() != Some(&t) {
                return Err(Self::bad(
                    &["C17"],
                    "identity",
                    format!("peer {p}: the backlog yielded {t:?} for {:?}", self.ops[op as usize].text),
                ));
            }
            let v = &self.peers[&p].v;
            if v.applied(op) != NEVER {
                return Err(Self::bad(
                    &["C03"],
                    "twice",
                    format!("peer {p}: the backlog yielded insertion {} a second time", self.ops[op as usize].uid),
                ));
            }
            if !v.is_delivered(op) {
                return Err(Self::bad(
                    &["C03", "C09", "C10"],
                    "phantom",
                    format!("peer {p}: the backlog yielded insertion {} which was never delivered", self.ops[op as usize].uid),
                ));
            }
            self.place(p, op, off)?;
            self.probes.hit("insertion taken from the backlog");
        }
        Ok(n)
    }

    fn take_del(&mut self, p: u16, max: usize) -> R<usize> {
        let doc = self.peers.get_mut(&p).unwrap().doc.as_mut().unwrap();
        let r = guard(Call::DrainDel, || doc.drain_del(max));
        let items = r.map_err(|c| self.crash(c, false))?;
        let n = items.len();
        for ranges in items {
            let removed = self.remove(p, &ranges)?;
            self.probes.hit("deletion taken from the backlog");
            if removed.is_empty() {
                continue;
            }
            let now = self.now;
            let pend = self.peers[&p].v.pend_del.clone();
            let v = &self.peers[&p].v;
            let m = pend.iter().copied().find(|&d| {
                removed.iter().all(|&c| self.may_remove(d, c)) && self.targets_gone(d, v)
            });
            match m {
                Some(d) => {
                    let v = &mut self.peers.get_mut(&p).unwrap().v;
                    v.set_applied(d, now);
                },
                None => {
                    self.report(Self::bad(
                        &["C05"],
                        "overreach",
                        format!("peer {p}: backlogged deletion {ranges:?} matches no waiting deletion"),
                    ));
                },
            }
        }
        Ok(n)
    }

    fn twin_take(&mut self, p: u16, ins: usize, del: usize) -> R<()> {
        let scale = self.scale;
        let Some(mut t) = self.peers.get_mut(&p).unwrap().twin.take() else { return Ok(()) };
        let tag = t.tag;
        let r = guard(Call::DrainIns, || t.doc.drain_ins(ins))
            .and_then(|i| guard(Call::DrainDel, || t.doc.drain_del(del)).map(|d| (i, d)));
        match r {
            Ok((i, d)) => {
                for (txt, off) in i {
                    let op = self.by_text.get(&(txt.by, txt.range.start)).copied();
                    let kind = op.map(|o| self.ops[o as usize].kind.clone());
                    match kind {
                        Some(OpKind::Ins { first, n, .. }) if off % scale == 0 && off / scale <= t.buf.len() => {
                            let off = off / scale;
                            t.buf.splice(off..off, first..first + n);
                        },
                        _ => {
                            return Err(Self::bad(&[tag], "twin", format!("peer {p}: its copy's backlog yielded {txt:?} at {off}")))
                        },
                    }
                }
                for rs in d {
                    for r in rs.iter().rev() {
                        if r.start > r.end || r.end / scale > t.buf.len() {
                            return Err(Self::bad(&[tag], "twin", format!("peer {p}: its copy's backlog yielded {rs:?}")));
                        }
                        t.buf.splice(r.start / scale..r.end / scale, []);
                    }
                }
            },
            Err((c, m)) => {
                return Err(Self::bad(&[tag], "twin", format!("peer {p}: its copy's {c:?} panicked: {m}")));
            },
        }
        self.peers.get_mut(&p).unwrap().twin = Some(t);
        Ok(())
    }

    fn drain(&mut self, p: u16) -> R<()> {
        if !self.alive(p) {
            return Ok(());
        }
        self.take_ins(p, usize::MAX)?;
        self.take_del(p, usize::MAX)?;
        self.twin_take(p, usize::MAX, usize::MAX)?;
        let now = self.now;
        let pend = self.peers[&p].v.pend_del.clone();
        for d in pend {
            let gone = self.targets_gone(d, &self.peers[&p].v);
            let past = self.past_delivered(d, p);
            let v = &mut self.peers.get_mut(&p).unwrap().v;
            if gone {
                v.set_applied(d, now);
            }
            if past {
                v.pend_del.retain(|&x| x != d);
                if !gone {
                    let uid = self.ops[d as usize].uid;
                    self.report(Self::bad(
                        &["C02", "C05"],
                        "stuck",
                        format!("peer {p}: deletion {uid} and its author's whole past were delivered and the backlog drained, but its text is still there"),
                    ));
                }
            }
        }
        let pend = self.peers[&p].v.pend_ins.clone();
        for i in pend {
            if self.past_delivered(i, p) {
                let uid = self.ops[i as usize].uid;
                self.peers.get_mut(&p).unwrap().v.pend_ins.retain(|&x| x != i);
                self.report(Self::bad(
                    &["C02"],
                    "stuck",
                    format!("peer {p}: insertion {uid} and its author's whole past were delivered and the backlog drained, but it never came"),
                ));
            }
        }
        self.peers.get_mut(&p).unwrap().v.drained = true;
        self.after_local(p)?;
        self.twin_diff(p, "a drain")?;
        // A second pass must find nothing.
        let doc = self.peers.get_mut(&p).unwrap().doc.as_mut().unwrap();
        let r = guard(Call::DrainIns, || (doc.drain_ins(1).len(), doc.drain_del(1).len()));
        let (i, d) = r.map_err(|c| self.crash(c, false))?;
        if i + d > 0 {
            return Err(Self::bad(
                &["C02"],
                "left",
                format!("peer {p}: a complete drain left edits that were ready ({i} insertions, {d} deletions)"),
            ));
        }
        self.settled(p)
    }

    fn part(&mut self, p: u16, ins: usize, del: usize) -> R<()> {
        if !self.alive(p) {
            return Ok(());
        }
        // A copy whose backlog yields in another order may legitimately be
        // elsewhere after a partial drain.
        self.peers.get_mut(&p).unwrap().twin = None;
        self.take_ins(p, ins)?;
        self.take_del(p, del)?;
        self.peers.get_mut(&p).unwrap().v.drained = false;
        self.probes.hit("partial drain");
        self.after_local(p)
    }

    /// If nothing is waiting to be drained, the buffer is a function of the
    /// set of delivered edits.
    fn settled(&mut self, p: u16) -> R<()> {
        let peer = &self.peers[&p];
        if !peer.v.drained && peer.v.pending() {
            return Ok(());
        }
        if peer.v.buf.len() > 300 && mix(self.now as u64) & 31 != 0 {
            return Ok(());
        }
        self.compare(p)
    }

    fn compare(&mut self, p: u16) -> R<()> {
        let peer = &self.peers[&p];
        let (k, h) = (peer.v.key, buf_hash(&peer.v.buf));
        if self.states.len() < 20_000 {
            self.states.insert(k ^ h.rotate_left(32));
        }
        let now = self.now;
        match self.seen_states.get(&k) {
            Some(&(h2, q, at)) if h2 != h => Err(Self::bad(
                &["C01"],
                "diverged",
                format!("peer {p} now and peer {q} at step {at} had the same edits but hold different buffers"),
            )),
            Some(&(_, q, _)) => {
                if q != p {
                    self.probes.hit("two peers compared on the same set of edits");
                }
                Ok(())
            },
            None => {
                if self.seen_states.len() < 100_000 {
                    self.seen_states.insert(k, (h, p, now));
                }
                Ok(())
            },
        }
    }

    fn add_peer(&mut self, to: u16, doc: Doc, view: View, id: u64, twin: Option<Twin>, restored: bool) {
        self.used_ids.insert(id);
        let mut v = view;
        v.rid = id;
        let imp = doc.imp();
        self.peers.insert(to, Peer { doc: Some(doc), imp, v, char_clock: 0, twin, restored });
    }

    fn fork(&mut self, p: u16, to: u16, id: u64, shadow: bool) -> R<()> {
        if !self.alive(p) || self.peers.contains_key(&to) || id == 0 || self.used_ids.contains(&id) {
            return Ok(());
        }
        let peer = &self.peers[&p];
        let src = peer.doc.as_ref().unwrap();
        let imp = peer.imp;
        let by_snapshot = || -> Result<Option<Doc>, (Call, String)> {
            let b = guard(Call::Encode, || src.encode())?;
            let r = guard(Call::Decode, || Doc::decode(imp, id, &b))?;
            Ok(r.ok())
        };
        let doc = if self.sub.fork_as_load {
            match by_snapshot() {
                Ok(Some(d)) => d,
                _ => return Ok(()),
            }
        } else {
            guard(Call::Fork, || src.fork(id)).map_err(|c| self.crash(c, false))?
        };
        let copy = if shadow { by_snapshot().ok().flatten() } else { None };
        let peer = &self.peers[&p];
        let pending = peer.v.pending();
        let twin = copy.map(|d| Twin { doc: d, buf: peer.v.buf.clone(), tag: "C10" });
        if pending {
            self.probes.hit("fork with edits pending");
        }
        if doc.id() != id {
            self.report(Self::bad(&["C10"], "id", format!("fork({id}) has id {}", doc.id())));
        }
        let peer = &self.peers[&p];
        let (view, restored) = (peer.v.clone(), peer.restored);
        self.add_peer(to, doc, view, id, twin, restored);
        self.after_local(to).map_err(|mut v| {
            v.tags.push("C10");
            v
        })?;
        self.settled(to)
    }

    fn snap(&mut self, p: u16, s: u32, w: Wire) -> R<()> {
        if !self.alive(p) {
            return Ok(());
        }
        let peer = &self.peers[&p];
        let doc = peer.doc.as_ref().unwrap();
        let imp = peer.imp;
        let mut bytes = guard(Call::Encode, || doc.encode()).map_err(|c| self.crash(c, false))?;
        let w = if self.sub.native { Wire::Native } else { w };
        if w != Wire::Native {
            let b = guard(Call::Ser, || doc.encode_wire(w)).map_err(|c| self.crash(c, false))?;
            let r = guard(Call::De, || snap_from_wire(imp, w, &b)).map_err(|c| self.crash(c, false))?;
            match r {
                Ok(x) if x == bytes => bytes = x,
                other => {
                    return Err(Self::bad(
                        &["C12"],
                        "wire",
                        format!("peer {p}: encoded replica changed on the {w:?} wire ({:?})", other.map(|x| x.len())),
                    ))
                },
            }
        }
        let saved = guard(Call::Clone, || doc.clone()).map_err(|c| self.crash(c, false))?;
        let (proto, _) = leb(&bytes);
        self.protocols[imp as usize] = Some(proto);
        if peer.v.pending() {
            self.probes.hit("snapshot with edits pending");
        }
        let view = peer.v.clone();
        self.probes.max("largest snapshot (bytes)", bytes.len() as u64);
        fold(&mut self.digest, bytes.len() as u64);
        if self.snaps.len() > 200 {
            return Ok(());
        }
        self.snaps.insert(s, Snapshot { bytes, imp, saved, view });
        Ok(())
    }

    fn load(&mut self, s: u32, to: u16, id: u64, imp: Imp, shadow: bool) -> R<()> {
        if !self.snaps.contains_key(&s) || self.peers.contains_key(&to) || id == 0 || self.used_ids.contains(&id) {
            return Ok(());
        }
        let imp = if self.sub.all_cur { Imp::Cur } else { imp };
        let snap = &self.snaps[&s];
        let cross = imp != snap.imp;
        let doc = if self.sub.load_as_fork && !cross {
            match guard(Call::Fork, || snap.saved.fork(id)) {
                Ok(d) => d,
                Err(_) => return Ok(()),
            }
        } else {
            let r = guard(Call::Decode, || Doc::decode(imp, id, &snap.bytes));
            let r = match r {
                Ok(r) => r,
                Err(c) => {
                    let mut v = self.crash(c, false);
                    if cross {
                        v.tags = vec!["C16"];
                    }
                    return Err(v);
                },
            };
            let (proto, _) = leb(&snap.bytes);
            match r {
                Ok(d) => {
                    if cross {
                        self.probes.hit("snapshot of the other build decoded");
                    }
                    d
                },
                Err(SnapErr::Protocol { encoded_on, decoding_on })
                    if cross && encoded_on != decoding_on && encoded_on == proto =>
                {
                    // An incompatible build, reported as such.
                    self.probes.hit("snapshot of an incompatible build refused");
                    return Ok(());
                },
                Err(e) => {
                    return Err(Self::bad(
                        if cross { &["C16"] } else { &["C09", "C01"] },
                        "decode",
                        format!("intact snapshot of a {:?} peer refused by a {imp:?} peer: {e:?}", snap.imp),
                    ))
                },
            }
        };
        let snap = &self.snaps[&s];
        let twin = if shadow && !cross {
            match guard(Call::Fork, || snap.saved.fork(id)) {
                Ok(d) => Some(Twin { doc: d, buf: snap.view.buf.clone(), tag: "C09" }),
                Err(_) => None,
            }
        } else {
            None
        };
        let view = snap.view.clone();
        if doc.id() != id {
            self.report(Self::bad(&["C09"], "id", format!("decode({id}) has id {}", doc.id())));
        }
        if view.pending() {
            self.probes.hit("start from a snapshot with edits pending");
        }
        if self.peers.values().any(|p| p.v.rid == view.rid && p.v.key != view.key) {
            self.probes.hit("start from a stale snapshot");
        }
        self.add_peer(to, doc, view, id, twin, true);
        self.after_local(to).map_err(|mut v| {
            v.tags.push(if cross { "C16" } else { "C09" });
            v
        })?;
        self.settled(to)
    }

    fn swap(&mut self, p: u16) -> R<()> {
        if !self.alive(p) {
            return Ok(());
        }
        let peer = self.peers.get_mut(&p).unwrap();
        let doc = peer.doc.as_ref().unwrap();
        let mut c = match guard(Call::Clone, || doc.clone()) {
            Ok(c) => c,
            Err(c) => return Err(self.crash(c, false)),
        };
        let peer = self.peers.get_mut(&p).unwrap();
        std::mem::swap(&mut c, peer.doc.as_mut().unwrap());
        // Writing to the abandoned original must not reach the clone.
        if peer.v.buf.len() > 1 {
            let scale = self.scale;
            let _ = guard(Call::Delete, || {
                let _ = c.deleted(Bound::Included(0), Bound::Excluded(scale));
                let _ = c.inserted(0, scale);
            });
        }
        self.after_local(p).map_err(|mut v| {
            v.tags.push("C10");
            v
        })
    }

    fn twin(&mut self, p: u16) -> R<()> {
        if !self.alive(p) {
            return Ok(());
        }
        let peer = self.peers.get_mut(&p).unwrap();
        if peer.twin.is_some() {
            return Ok(());
        }
        let doc = peer.doc.as_ref().unwrap();
        match guard(Call::Clone, || doc.clone()) {
            Ok(c) => {
                let buf = peer.v.buf.clone();
                peer.twin = Some(Twin { doc: c, buf, tag: "C10" });
                Ok(())
            },
            Err(c) => Err(self.crash(c, false)),
        }
    }

    fn bad_load(&mut self, s: u32, imp: Imp, d: &Damage) -> R<()> {
        let Some(snap) = self.snaps.get(&s) else { return Ok(()) };
        let imp = if self.sub.all_cur { Imp::Cur } else { imp };
        if self.sub.no_bad {
            return Ok(());
        }
        let other = match d {
            Damage::TornOld(_, o) => self.snaps.get(o).map(|s| s.bytes.clone()),
            _ => None,
        };
        let mut b = snap.bytes.clone();
        let (proto, plen) = leb(&b);
        match d {
            Damage::Proto(v) => {
                let mut x = enc_leb(*v & 0xFFFF_FFFF);
                x.extend_from_slice(&b[plen..]);
                b = x;
            },
            d => damage(&mut b, d, other.as_deref()),
        }
        if b == snap.bytes || self.snaps.values().any(|o| o.bytes == b) {
            return Ok(());
        }
        self.probes.hit(match d {
            Damage::Flip(_) => "damaged snapshot: bits flipped",
            Damage::Trunc(_) => "damaged snapshot: truncated",
            Damage::Append(..) => "damaged snapshot: garbage appended",
            Damage::Over(..) => "damaged snapshot: region overwritten",
            Damage::Torn(_) => "damaged snapshot: torn write (zeros)",
            Damage::TornOld(..) => "damaged snapshot: torn write (over an older one)",
            Damage::Replace(..) => "damaged snapshot: replaced by garbage",
            Damage::Proto(_) => "damaged snapshot: other protocol version",
            Damage::Swap(..) => "damaged snapshot: regions swapped",
        });
        let own = self.protocols[imp as usize];
        let r = guard(Call::DecodeDamaged, || Doc::decode(imp, 0xFEED_5EED, &b).map(|d| d.len()));
        match r {
            Err(c) => Err(self.crash(c, false)),
            Ok(Ok(len)) => Err(Self::bad(
                &["C11"],
                "accepted",
                format!("a damaged snapshot ({d:?}) was decoded into a replica of length {len}"),
            )),
            Ok(Err(e)) => {
                if let Damage::Proto(v) = d {
                    let v = *v & 0xFFFF_FFFF;
                    let ok = match &e {
                        SnapErr::Protocol { encoded_on, decoding_on } => {
                            *encoded_on == v && own.is_none_or(|o| o == *decoding_on)
                        },
                        // The reader's own version: the bytes differ only if
                        // the other build wrote them.
                        _ => own == Some(v) || v == proto,
                    };
                    if !ok {
                        return Err(Self::bad(
                            &["C11"],
                            "protocol",
                            format!("a snapshot declaring protocol {v} was refused with {e:?}"),
                        ));
                    }
                }
                Ok(())
            },
        }
    }

    fn bad_msg(&mut self, u: u32, w: Wire, what: What, inner: bool, d: &Damage) -> R<()> {
        let Some(&op) = self.by_uid.get(&u) else { return Ok(()) };
        let w = if w == Wire::Native { Wire::Bin } else { w };
        let o = &self.ops[op as usize];
        let e = o.edit.as_ref().unwrap();
        if !matches!(e, Edit::CurIns(_) | Edit::CurDel(_)) {
            return Ok(());
        }
        let whole = match what {
            What::Edit => guard(Call::Ser, || edit_bytes(w, e)),
            What::Text => match text_bytes(w, e) {
                Some(b) => Ok(b),
                None => return Ok(()),
            },
        };
        let whole = whole.map_err(|c| self.crash(c, false))?;
        let Some((b, cut)) = damaged_message(w, &whole, inner, d) else { return Ok(()) };
        let is_ins = matches!(e, Edit::CurIns(_));
        let r = guard(Call::DeDamaged, || match what {
            What::Edit => edit_from(Imp::Cur, is_ins, w, &b).map(|_| ()),
            What::Text => text_de(w, &b),
        });
        self.judge_damaged(r, cut, if is_ins { "insertion" } else { "deletion" })
    }

    fn bad_anc(&mut self, a: u32, w: Wire, inner: bool, d: &Damage) -> R<()> {
        let Some(rec) = self.ancs.get(&a) else { return Ok(()) };
        if rec.imp != Imp::Cur {
            return Ok(());
        }
        let w = if w == Wire::Native { Wire::Bin } else { w };
        let whole = guard(Call::Ser, || anc_bytes(w, &rec.anc)).map_err(|c| self.crash(c, false))?;
        let Some((b, cut)) = damaged_message(w, &whole, inner, d) else { return Ok(()) };
        let r = guard(Call::DeDamaged, || anc_from(Imp::Cur, w, &b).map(|_| ()));
        self.judge_damaged(r, cut, "anchor")
    }

    fn judge_damaged(&mut self, r: Result<Result<(), String>, (Call, String)>, cut: bool, what: &str) -> R<()> {
        self.probes.hit(if cut { "damaged message: truncated" } else { "damaged message: altered" });
        match r {
            Err(c) => {
                let v = self.crash(c, false);
                // Nothing but the decoder was involved.
                self.report(v);
                Ok(())
            },
            Ok(Ok(())) if cut => {
                self.report(Self::bad(&["C13"], "cut", format!("a truncated {what} was deserialized")));
                Ok(())
            },
            Ok(Ok(())) => {
                self.probes.hit("damaged message: still well-formed");
                Ok(())
            },
            Ok(Err(_)) => {
                self.probes.hit("damaged message: refused");
                Ok(())
            },
        }
    }

    fn anchor(&mut self, p: u16, a: u32, pos: u32, right: bool) -> R<()> {
        if !self.alive(p) || self.ancs.contains_key(&a) || self.ancs.len() > 400 {
            return Ok(());
        }
        let peer = &self.peers[&p];
        let len = peer.v.buf.len();
        let off = pos as usize % (len + 1);
        let ch = if right {
            peer.v.buf.get(off).copied().unwrap_or(NONE)
        } else if off > 0 {
            peer.v.buf[off - 1]
        } else {
            NONE
        };
        let doc = peer.doc.as_ref().unwrap();
        let at = off * self.scale;
        let anc = guard(Call::Anchor, || doc.create_anchor(at, right)).map_err(|c| self.crash(c, false))?;
        let imp = peer.imp;
        self.ancs.insert(a, AncRec { anc, imp, ch, right, created_by: p });
        self.resolve(p, a, Wire::Native)
    }

    fn resolve(&mut self, p: u16, a: u32, w: Wire) -> R<()> {
        let Some(rec) = self.ancs.get(&a) else { return Ok(()) };
        if !self.alive(p) {
            return Ok(());
        }
        let peer = &self.peers[&p];
        let doc = peer.doc.as_ref().unwrap();
        let w = if self.sub.native { Wire::Native } else { w };
        let anc = if w == Wire::Native && peer.imp == rec.imp {
            rec.anc.clone()
        } else {
            let w = if w == Wire::Native { Wire::Bin } else { w };
            let b = guard(Call::Ser, || anc_bytes(w, &rec.anc)).map_err(|c| self.crash(c, false))?;
            let r = guard(Call::De, || anc_from(peer.imp, w, &b)).map_err(|c| self.crash(c, false))?;
            match r {
                Ok(x) => {
                    if peer.imp == rec.imp && x != rec.anc {
                        return Err(Self::bad(&["C12"], "wire", format!("anchor {:?} became {x:?} on the {w:?} wire", rec.anc)));
                    }
                    x
                },
                Err(e) => {
                    return Err(Self::bad(&["C12", "C16"], "wire", format!("anchor {:?} cannot be deserialized: {e}", rec.anc)))
                },
            }
        };
        let got = guard(Call::Resolve, || doc.resolve_anchor(&anc)).map_err(|c| self.crash(c, false))?;
        if let Some(t) = &peer.twin {
            let tw = guard(Call::Resolve, || t.doc.resolve_anchor(&anc));
            if tw.as_ref().ok() != Some(&got) {
                let tag = t.tag;
                return Err(Self::bad(&[tag], "twin", format!("peer {p} resolves an anchor to {got:?}, its copy to {tw:?}")));
            }
        }
        let scale = self.scale;
        let (ch, right, by) = (rec.ch, rec.right, rec.created_by);
        let len = peer.v.buf.len();
        let desc = format!("anchor {a} (made by peer {by} at unit {ch:?}, {} bias)", if right { "right" } else { "left" });
        fold(&mut self.digest, got.map_or(u64::MAX, |x| x as u64));
        if ch == NONE {
            let want = if right { len * scale } else { 0 };
            if got != Some(want) {
                let tags: &[&'static str] = if got.is_none() { &["C14", "C15"] } else { &["C14"] };
                self.report(Self::bad(tags, "edge anchor", format!("peer {p}: document-{} anchor resolves to {got:?}, not {want}", if right { "end" } else { "start" })));
            }
            return Ok(());
        }
        let have = peer.v.applied(self.ch_op[ch as usize]) != NEVER;
        let Some(off) = got else {
            if have {
                self.report(Self::bad(&["C15", "C14"], "unresolved", format!("peer {p}: {desc} does not resolve although its text was integrated")));
            } else {
                self.probes.hit("anchor not resolvable yet");
                if peer_pending(&self.peers[&p].v, self.ch_op[ch as usize]) {
                    self.probes.hit("anchor not resolvable yet: its text is backlogged");
                }
            }
            return Ok(());
        };
        if !have {
            self.report(Self::bad(&["C15"], "early", format!("peer {p}: {desc} resolves to {off} although its text was not integrated")));
            return Ok(());
        }
        if off > len * scale {
            self.report(Self::bad(&["C14", "C15"], "beyond", format!("peer {p}: {desc} resolves to {off} in a buffer of {}", len * scale)));
            return Ok(());
        }
        let idx = peer.v.buf.iter().position(|&c| c == ch);
        if let Some(i) = idx {
            let want = (if right { i } else { i + 1 }) * scale;
            if off != want {
                self.report(Self::bad(&["C14"], "moved", format!("peer {p}: {desc} resolves to {off}, its character is at {want}")));
            } else if by != p {
                self.probes.hit("anchor resolved by another peer");
            }
        } else {
            if off % scale != 0 {
                self.report(Self::bad(&["C14"], "moved", format!("peer {p}: {desc} resolves to {off} inside a unit of {scale}")));
                return Ok(());
            }
            self.probes.hit("anchor on deleted text resolved");
            let off = off / scale;
            // Everything before the anchor precedes the deleted unit,
            // everything after it follows: checked with the global order.
            let (l, r) = (off.checked_sub(1).map(|i| peer.v.buf[i]), peer.v.buf.get(off).copied());
            if let Some(l) = l {
                self.edges.push((l, ch));
            }
            if let Some(r) = r {
                self.edges.push((ch, r));
            }
            self.anc_marks(off, p, ch, &desc);
        }
        Ok(())
    }

    /// Immediate check of an anchor on deleted text against what is known
    /// about the order: a unit of the same insertion tells its side.
    fn anc_marks(&mut self, off: usize, p: u16, ch: u32, desc: &str) {
        let peer = &self.peers[&p];
        let op = self.ch_op[ch as usize];
        let mut wrong = None;
        for (i, &c) in peer.v.buf.iter().enumerate() {
            if self.ch_op[c as usize] == op {
                let before = i < off;
                if before != (c < ch) {
                    wrong = Some(c);
                    break;
                }
            }
        }
        if let Some(c) = wrong {
            self.report(Self::bad(&["C14"], "flipped", format!("peer {p}: {desc} resolves to the wrong side of unit {c}")));
        }
    }

    fn bad_call(&mut self, p: u16, c: BadCall) -> R<()> {
        if !self.alive(p) || self.sub.no_bad {
            return Ok(());
        }
        let scale = self.scale;
        let peer = self.peers.get_mut(&p).unwrap();
        let len = peer.v.buf.len() * scale;
        let rid = peer.v.rid;
        let doc = peer.doc.as_mut().unwrap();
        let r = guard(Call::Bad, || match c {
            BadCall::InsertBeyond(k) => drop(doc.inserted(len + 1 + k as usize, 1 + k as usize % 3)),
            BadCall::InsertMax => drop(doc.inserted(usize::MAX, 1)),
            BadCall::DeleteBeyond(s, k) => {
                let s = s as usize % (len + 1);
                drop(doc.deleted(Bound::Included(s), Bound::Excluded(len + 1 + k as usize)))
            },
            BadCall::DeleteReversed(a, k) => {
                let e = a as usize % (len + 1);
                drop(doc.deleted(Bound::Included(e + 1 + k as usize), Bound::Excluded(e)))
            },
            BadCall::DeleteFromMax => drop(doc.deleted(Bound::Included(usize::MAX), Bound::Excluded(len))),
            BadCall::DeleteToMaxInclusive(s) => {
                let s = s as usize % (len + 1);
                drop(doc.deleted(Bound::Included(s), Bound::Included(usize::MAX)))
            },
            BadCall::AnchorBeyond(k, right) => drop(doc.create_anchor(len + 1 + k as usize, right)),
            BadCall::ForkZero => drop(doc.fork(0)),
            BadCall::ForkSame => drop(doc.fork(rid)),
            BadCall::DecodeZero => {
                let b = doc.encode();
                drop(Doc::decode(doc.imp(), 0, &b))
            },
            BadCall::NewZero => drop(Doc::new(doc.imp(), 0, len)),
        });
        self.probes.hit("rejected call made");
        if r.is_ok() {
            self.report(Self::bad(&["C18"], "accepted", format!("peer {p} (length {len}): {c:?} was not rejected")));
        }
        self.after_local(p).map_err(|mut v| {
            v.tags = vec!["C18"];
            v
        })
    }

    fn trip(&mut self, u: u32) -> R<()> {
        let Some(&op) = self.by_uid.get(&u) else { return Ok(()) };
        let imp = match self.ops[op as usize].edit.as_ref().unwrap() {
            Edit::CurIns(_) | Edit::CurDel(_) => Imp::Cur,
            _ => Imp::Base,
        };
        if self.sub.native {
            return Ok(());
        }
        for w in [Wire::Bin, Wire::Json] {
            self.receive(op, imp, w)?;
            let e = self.ops[op as usize].edit.as_ref().unwrap();
            let r = guard(Call::De, || text_round_trip(w, e)).map_err(|c| self.crash(c, false))?;
            match r {
                None | Some(Ok(true)) => {},
                Some(x) => {
                    self.report(Self::bad(&["C12"], "wire", format!("text of edit {u} does not survive the {w:?} wire: {x:?}")));
                },
            }
        }
        Ok(())
    }

    fn check(&mut self, p: u16) -> R<()> {
        if !self.alive(p) {
            return Ok(());
        }
        let doc = self.peers[&p].doc.as_ref().unwrap();
        guard(Call::Invariants, || doc.check()).map_err(|c| self.crash(c, false))?;
        if doc.id() != self.peers[&p].v.rid {
            self.report(Self::bad(&["C09", "C10", "C17"], "id", format!("peer {p}: id changed")));
        }
        self.after_local(p)?;
        self.interleaving(p);
        Ok(())
    }

    /// C07: between a unit and the unit typed directly after it there is only
    /// text of peers that had the former.
    fn interleaving(&mut self, p: u16) {
        let buf = &self.peers[&p].v.buf;
        let mut pos: HashMap<u32, usize> = HashMap::with_capacity(buf.len());
        for (i, &c) in buf.iter().enumerate() {
            pos.insert(c, i);
        }
        let mut found = None;
        'all: for (j, &y) in buf.iter().enumerate() {
            let yop = self.ch_op[y as usize];
            let OpKind::Ins { first, left, .. } = self.ops[yop as usize].kind else { continue };
            let x = if y > first { y - 1 } else { left };
            if x == NONE || (y == first && yop == 0) {
                continue;
            }
            let Some(&i) = pos.get(&x) else { continue };
            if i + 1 == j {
                continue;
            }
            if i > j {
                found = Some((x, y, y));
                break;
            }
            let xop = self.ch_op[x as usize];
            for &z in &buf[i + 1..j] {
                if self.c07_budget == 0 {
                    break 'all;
                }
                self.c07_budget -= 1;
                let zop = self.ch_op[z as usize];
                if zop == xop {
                    continue;
                }
                let o = &self.ops[zop as usize];
                if zop == 0 || self.peers[&o.author].v.applied(xop) > o.at {
                    found = Some((x, z, y));
                    break 'all;
                }
            }
        }
        if let Some((x, z, y)) = found {
            let msg = format!("peer {p}: unit {z}, whose author had not seen unit {x}, lies between {x} and {y}, which was typed directly after it");
            self.report(Self::bad(&["C07"], "interleaved", msg));
        }
    }

    /// End of the run: complete drains, whole-history checks.
    pub fn finish(&mut self, at: usize) {
        if self.poisoned {
            return;
        }
        self.now += 1;
        let before = self.violations.len();
        if let Err(v) = self.finish_inner() {
            self.report(v);
            self.poisoned = true;
        }
        if !self.poisoned {
            self.global_order();
        }
        for v in &mut self.violations[before..] {
            v.step = at;
        }
        let m = self.max_backlog as u64;
        self.probes.max("deepest backlog", m);
    }

    fn finish_inner(&mut self) -> R<()> {
        let live: Vec<u16> = self.peers.iter().filter(|(_, p)| p.doc.is_some()).map(|(&l, _)| l).collect();
        let n_ops = self.ops.len();
        for &p in &live {
            self.drain(p)?;
            self.compare(p)?;
            self.check(p)?;
            let v = &self.peers[&p].v;
            let all = (0..n_ops as u32).all(|o| matches!(self.ops[o as usize].kind, OpKind::Noop { .. }) || v.is_delivered(o));
            if all && !v.pending() {
                self.probes.hit("peer ended with every edit");
                let mut gone = vec![false; self.ch_op.len()];
                for o in &self.ops {
                    if let OpKind::Del { targets } = &o.kind {
                        for &t in targets {
                            gone[t as usize] = true;
                        }
                    }
                }
                let mut vis = vec![false; self.ch_op.len()];
                for &c in &v.buf {
                    vis[c as usize] = true;
                }
                if let Some(c) = (0..vis.len()).find(|&c| vis[c] == gone[c]) {
                    let what = if vis[c] { "deleted but visible" } else { "never deleted but missing" };
                    self.report(Self::bad(&["C05"], "survival", format!("peer {p} has every edit, yet unit {c} is {what}")));
                }
            }
            fold(&mut self.digest, buf_hash(&self.peers[&p].v.buf));
        }
        // Independence of copies: anchors and everything else were checked as
        // the run went.
        let ancs: Vec<u32> = {
            let mut a: Vec<u32> = self.ancs.keys().copied().collect();
            a.sort_unstable();
            a.truncate(40);
            a
        };
        for &p in &live {
            for &a in &ancs {
                self.resolve(p, a, Wire::Native)?;
            }
        }
        Ok(())
    }

    /// C04 (and C14 for deleted anchor targets): the observed neighbour
    /// relations of all buffers fit one total order.
    fn global_order(&mut self) {
        let n = self.ch_op.len();
        let mut head = vec![u32::MAX; n];
        let mut next = Vec::with_capacity(self.edges.len());
        let mut indeg = vec![0u32; n];
        let mut add = |a: u32, b: u32, head: &mut Vec<u32>, next: &mut Vec<(u32, u32)>| {
            next.push((b, head[a as usize]));
            head[a as usize] = next.len() as u32 - 1;
            indeg[b as usize] += 1;
        };
        for &(a, b) in &self.edges {
            add(a, b, &mut head, &mut next);
        }
        for o in &self.ops {
            if let OpKind::Ins { first, n, .. } = o.kind {
                for c in first..(first + n).saturating_sub(1) {
                    add(c, c + 1, &mut head, &mut next);
                }
            }
        }
        let mut stack: Vec<u32> = (0..n as u32).filter(|&c| indeg[c as usize] == 0).collect();
        let mut done = 0;
        while let Some(c) = stack.pop() {
            done += 1;
            let mut e = head[c as usize];
            while e != u32::MAX {
                let (b, nx) = next[e as usize];
                indeg[b as usize] -= 1;
                if indeg[b as usize] == 0 {
                    stack.push(b);
                }
                e = nx;
            }
        }
        if done < n {
            let stuck: Vec<u32> = (0..n as u32).filter(|&c| indeg[c as usize] > 0).take(12).collect();
            let anchored = stuck.iter().any(|&c| self.ancs.values().any(|a| a.ch == c));
            let tags: &[&'static str] = if anchored { &["C04", "C14"] } else { &["C04"] };
            self.report(Self::bad(
                tags,
                "order",
                format!("no single order fits what the peers showed: units {stuck:?} lie on a cycle"),
            ));
        }
    }

    // ----- what the scheduler may look at -----

    pub fn live(&self) -> Vec<u16> {
        self.peers.iter().filter(|(_, p)| p.doc.is_some()).map(|(&l, _)| l).collect()
    }

    pub fn has(&self, p: u16, uid: u32) -> bool {
        match (self.by_uid.get(&uid), self.peers.get(&p)) {
            (Some(&o), Some(p)) => p.v.is_delivered(o),
            _ => false,
        }
    }

    /// Position of the end of the unit range of insertion `uid` at `p`.
    pub fn end_of(&self, p: u16, uid: u32) -> Option<usize> {
        let &o = self.by_uid.get(&uid)?;
        let OpKind::Ins { first, n, .. } = self.ops[o as usize].kind else { return None };
        let last = first + n - 1;
        self.peers.get(&p)?.v.buf.iter().position(|&c| c == last).map(|i| i + 1)
    }

    /// Where the text of insertion `uid` begins and ends at `p`, as far as it
    /// is visible there.
    pub fn span_of(&self, p: u16, uid: u32) -> Option<(usize, usize)> {
        let &o = self.by_uid.get(&uid)?;
        let OpKind::Ins { first, n, .. } = self.ops[o as usize].kind else { return None };
        let buf = &self.peers.get(&p)?.v.buf;
        let mine = |c: &u32| (first..first + n).contains(c);
        let a = buf.iter().position(mine)?;
        let b = buf.iter().rposition(mine)?;
        Some((a, b + 1))
    }

    pub fn len(&self, p: u16) -> usize {
        self.peers[&p].v.buf.len()
    }

    pub fn units(&self) -> usize {
        self.ch_op.len()
    }
}

fn peer_pending(v: &View, op: u32) -> bool {
    v.pend_ins.contains(&op)
}

pub fn leb(b: &[u8]) -> (u64, usize) {
    let mut v = 0u64;
    for (i, &x) in b.iter().enumerate().take(10) {
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            return (v, i + 1);
        }
    }
    (v, 0)
}

pub fn enc_leb(mut v: u64) -> Vec<u8> {
    let mut out = Vec::new();
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return out;
        }
        out.push(b | 0x80);
    }
}

pub fn damage(b: &mut Vec<u8>, d: &Damage, other: Option<&[u8]>) {
    let n = b.len();
    let fill = |b: &mut [u8], seed: u64| {
        let mut r = Rng::new(seed);
        for x in b {
            *x = r.next() as u8;
        }
    };
    match d {
        Damage::Flip(fs) => {
            for (p, bit) in fs {
                if n > 0 {
                    b[*p as usize % n] ^= 1 << (bit & 7);
                }
            }
        },
        Damage::Trunc(k) => {
            if n > 0 {
                b.truncate(*k as usize % n);
            }
        },
        Damage::Append(k, s) => {
            let k = *k as usize;
            b.resize(n + k, 0);
            fill(&mut b[n..], *s);
        },
        Damage::Over(p, l, s) => {
            if n > 0 {
                let p = *p as usize % n;
                let e = (p + *l as usize).min(n);
                fill(&mut b[p..e], *s);
            }
        },
        Damage::Torn(k) => {
            if n > 0 {
                let k = *k as usize % n;
                b[k..].fill(0);
            }
        },
        Damage::TornOld(k, _) => {
            if n > 0 {
                let k = *k as usize % n;
                b.truncate(k);
                if let Some(o) = other {
                    if o.len() > k {
                        b.extend_from_slice(&o[k..]);
                    }
                }
            }
        },
        Damage::Replace(k, s) => {
            *b = vec![0; *k as usize];
            fill(b, *s);
        },
        Damage::Proto(_) => {},
        Damage::Swap(p, q, l) => {
            if n > 1 {
                for i in 0..*l as usize {
                    b.swap((*p as usize + i) % n, (*q as usize + i) % n);
                }
            }
        },
    }
}

/// The damaged message and whether it is merely cut short.
pub fn damaged_message(w: Wire, whole: &[u8], inner: bool, d: &Damage) -> Option<(Vec<u8>, bool)> {
    let orig = if inner { unwrap_container(w, whole) } else { whole.to_vec() };
    let mut b = orig.clone();
    damage(&mut b, d, None);
    if b == orig {
        return None;
    }
    let cut = b.len() < orig.len() && orig.starts_with(&b);
    let b = if inner { wrap_container(w, &b) } else { b };
    Some((b, cut))
}

//! Executes steps without judging what comes back: where only undefined
//! behaviour (inside Miri) or the work done is looked at.

use std::collections::BTreeMap;
use std::io::Read;
use std::ops::{Bound, Range};
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::arch::{self, Abroad, REFUSED};
use crate::cost::work;
use crate::exec::{damage, damaged_message, enc_leb, leb};
use crate::imp::*;
use crate::step::*;

struct Peer {
    doc: Doc,
    id: u64,
    twin: Option<Doc>,
}

pub struct Lite {
    imp: Imp,
    scale: usize,
    peers: BTreeMap<u16, Peer>,
    gone: Vec<u16>,
    ids: Vec<u64>,
    edits: BTreeMap<u32, Edit>,
    snaps: BTreeMap<u32, Vec<u8>>,
    ancs: BTreeMap<u32, Anc>,
    /// See `arch.rs`.
    pub abroad: Option<Abroad>,
}

/// The edit as it arrives over wire `w`.
fn travel(imp: Imp, e: &Edit, w: Wire) -> Edit {
    if w == Wire::Native {
        return e.clone();
    }
    edit_from(imp, is_ins(e), w, &edit_bytes(w, e)).unwrap_or_else(|_| e.clone())
}

fn is_ins(e: &Edit) -> bool {
    matches!(e, Edit::CurIns(_) | Edit::BaseIns(_))
}

fn integrate(d: &mut Doc, e: &Edit) -> Vec<Range<usize>> {
    if is_ins(e) {
        work(|| d.integrate_insertion(e)).map(|at| at..at).into_iter().collect()
    } else {
        work(|| d.integrate_deletion(e))
    }
}

impl Lite {
    pub fn new(c: &Config, imp: Imp) -> Self {
        let scale = c.scale as usize;
        let doc = Doc::new(imp, c.id, c.init as usize * scale);
        let mut peers = BTreeMap::new();
        peers.insert(0, Peer { doc, id: c.id, twin: None });
        Lite {
            imp,
            scale,
            peers,
            gone: vec![],
            ids: vec![c.id],
            edits: BTreeMap::new(),
            snaps: BTreeMap::new(),
            ancs: BTreeMap::new(),
            abroad: None,
        }
    }

    fn made(&mut self, u: u32, e: Edit) {
        if let Some(a) = &mut self.abroad {
            a.made(u, &e);
        }
        self.edits.insert(u, e);
    }

    fn answer(&mut self, a: impl FnOnce() -> Vec<u64>) {
        if let Some(x) = &mut self.abroad {
            x.answers.push(a());
        }
    }

    fn room(&self, to: u16, id: u64) -> bool {
        id != 0 && !self.ids.contains(&id) && !self.peers.contains_key(&to) && !self.gone.contains(&to)
    }

    fn join(&mut self, to: u16, id: u64, doc: Doc, twin: Option<Doc>) {
        self.ids.push(id);
        self.peers.insert(to, Peer { doc, id, twin });
    }

    pub fn edit(&self, u: u32) -> Option<&Edit> {
        self.edits.get(&u)
    }

    pub fn anc(&self, a: u32) -> Option<&Anc> {
        self.ancs.get(&a)
    }

    pub fn snap(&self, s: u32) -> Option<&[u8]> {
        self.snaps.get(&s).map(|b| &b[..])
    }

    pub fn runs(&self, p: u16) -> Option<usize> {
        Some(self.peers.get(&p)?.doc.runs())
    }

    pub fn docs(&self) -> impl Iterator<Item = &Doc> {
        self.peers.values().map(|p| &p.doc)
    }

    pub fn into_docs(self) -> impl Iterator<Item = Doc> {
        self.peers.into_values().map(|p| p.doc)
    }

    pub fn step(&mut self, s: &Step) {
        let (k, imp) = (self.scale, self.imp);
        // How much there will ever be was looked at, if it matters.
        let most = if self.abroad.is_some() { usize::MAX } else { usize::MAX / 4 };
        match s {
            Step::Ins { p, u, pos, n } => {
                let Some(peer) = self.peers.get_mut(p) else { return };
                let units = peer.doc.len() / k;
                if *n == 0 || self.edits.contains_key(u) || (units + *n as usize).checked_mul(k).is_none_or(|x| x > most) {
                    return;
                }
                let at = *pos as usize % (units + 1) * k;
                let e = work(|| peer.doc.inserted(at, *n as usize * k)).0;
                if let Some(t) = &mut peer.twin {
                    t.inserted(at, *n as usize * k);
                }
                self.made(*u, e);
            },
            Step::Del { p, u, pos, n, b } => {
                let Some(peer) = self.peers.get_mut(p) else { return };
                let units = peer.doc.len() / k;
                if *n == 0 || units == 0 || self.edits.contains_key(u) {
                    return;
                }
                let start = *pos as usize % units;
                let end = (start + *n as usize).min(units);
                let (s, e) = (Bound::Included(start * k), Bound::Excluded(end * k));
                let (s, e) = match b {
                    1 => (s, Bound::Included(end * k - 1)),
                    2 if start > 0 => (Bound::Excluded(start * k - 1), e),
                    3 if start == 0 => (Bound::Unbounded, e),
                    3 if end == units => (s, Bound::Unbounded),
                    _ => (s, e),
                };
                let d = work(|| peer.doc.deleted(s, e)).0;
                if let Some(t) = &mut peer.twin {
                    t.deleted(s, e);
                }
                self.made(*u, d);
            },
            Step::Noop { p, u, ins, pos } => {
                let Some(peer) = self.peers.get_mut(p) else { return };
                if self.edits.contains_key(u) {
                    return;
                }
                let at = *pos as usize % (peer.doc.len() / k + 1) * k;
                let e = if *ins {
                    peer.doc.inserted(at, 0).0
                } else {
                    peer.doc.deleted(Bound::Included(at), Bound::Excluded(at)).0
                };
                self.made(*u, e);
            },
            Step::Dlv { p, u, w } => {
                let (Some(peer), Some(e)) = (self.peers.get_mut(p), self.edits.get(u)) else { return };
                let theirs = self.abroad.as_ref().and_then(|a| a.theirs.as_ref()?.edits.get(u));
                let e = match theirs {
                    Some((ins, bin, json)) => {
                        let (w, b) = arch::pick(*w, bin, json);
                        let Ok(e) = edit_from(imp, *ins, w, b) else { return self.answer(|| vec![REFUSED]) };
                        e
                    },
                    None => travel(imp, e, *w),
                };
                let got = integrate(&mut peer.doc, &e);
                if let Some(t) = &mut peer.twin {
                    integrate(t, &e);
                }
                self.answer(|| {
                    // In how many pieces is up to the order authors come in
                    // when draining.
                    let mut v: Vec<u64> = vec![];
                    for r in got {
                        match v.last_mut() {
                            Some(end) if *end == r.start as u64 => *end = r.end as u64,
                            _ => v.extend([r.start as u64, r.end as u64]),
                        }
                    }
                    v
                });
            },
            Step::Drain { p } => {
                let Some(peer) = self.peers.get_mut(p) else { return };
                let mut got = None;
                for d in [Some(&mut peer.doc), peer.twin.as_mut()].into_iter().flatten() {
                    let mut ins = work(|| d.drain_ins(usize::MAX));
                    let mut del = work(|| d.drain_del(usize::MAX)).len();
                    // What one pass yields is up to it too.
                    while self.abroad.is_some() && ins.len() + del > 0 {
                        let more = d.drain_ins(usize::MAX);
                        del = d.drain_del(usize::MAX).len();
                        if more.len() + del == 0 {
                            break;
                        }
                        ins.extend(more);
                    }
                    got.get_or_insert((ins, d.len()));
                }
                let (ins, len) = got.unwrap();
                self.answer(|| {
                    // Authors may come in any order.
                    let mut v: Vec<_> = ins.iter().map(|(t, _)| (t.by, t.range.start as u64, t.range.end as u64)).collect();
                    v.sort();
                    v.iter().flat_map(|t| [t.0, t.1, t.2]).chain([len as u64]).collect()
                });
            },
            Step::Part { p, ins, del } => {
                let Some(peer) = self.peers.get_mut(p) else { return };
                peer.twin = None;
                peer.doc.drain_ins(*ins as usize);
                peer.doc.drain_del(*del as usize);
            },
            Step::Fork { p, to, id, shadow } => {
                let Some(peer) = self.peers.get(p) else { return };
                if !self.room(*to, *id) {
                    return;
                }
                let doc = work(|| peer.doc.fork(*id));
                let twin = shadow.then(|| Doc::decode(imp, *id, &peer.doc.encode()).ok()).flatten();
                self.join(*to, *id, doc, twin);
            },
            Step::Snap { p, s, w } => {
                let Some(peer) = self.peers.get(p) else { return };
                let mut b = work(|| peer.doc.encode());
                if *w != Wire::Native {
                    b = snap_from_wire(imp, *w, &peer.doc.encode_wire(*w)).unwrap_or(b);
                }
                if let Some(a) = &mut self.abroad {
                    a.ours.snaps.insert(*s, arch::Blob(b.clone()));
                }
                self.snaps.insert(*s, b);
            },
            Step::Load { s, to, id, shadow, .. } => {
                let Some(b) = self.snaps.get(s) else { return };
                if !self.room(*to, *id) {
                    return;
                }
                let theirs = self.abroad.as_ref().and_then(|a| a.theirs.as_ref()?.snaps.get(s));
                let b = theirs.map_or(b, |b| &b.0);
                let Ok(doc) = work(|| Doc::decode(imp, *id, b)) else { return self.answer(|| vec![REFUSED]) };
                let twin = shadow.then(|| doc.clone());
                self.join(*to, *id, doc, twin);
            },
            Step::BadLoad { s, d, .. } => {
                let Some(b) = self.snaps.get(s) else { return };
                let mut b = b.clone();
                match d {
                    Damage::Proto(v) => {
                        let n = leb(&b).1;
                        b.splice(..n, enc_leb(*v & 0xFFFF_FFFF));
                    },
                    Damage::TornOld(_, o) => {
                        let old = self.snaps.get(o).cloned();
                        damage(&mut b, d, old.as_deref());
                    },
                    _ => damage(&mut b, d, None),
                }
                let _ = Doc::decode(imp, 0xFEED_5EED, &b);
            },
            Step::BadMsg { u, w, what, inner, d } => {
                let Some(e) = self.edits.get(u) else { return };
                let w = if *w == Wire::Native { Wire::Bin } else { *w };
                let whole = match what {
                    What::Edit => edit_bytes(w, e),
                    What::Text => match text_bytes(w, e) {
                        Some(b) => b,
                        None => return,
                    },
                };
                let Some((b, _)) = damaged_message(w, &whole, *inner, d) else { return };
                match what {
                    What::Edit => drop(edit_from(imp, is_ins(e), w, &b)),
                    What::Text => drop(text_de(w, &b)),
                }
            },
            Step::BadAnc { a, w, inner, d } => {
                let Some(a) = self.ancs.get(a) else { return };
                let w = if *w == Wire::Native { Wire::Bin } else { *w };
                let Some((b, _)) = damaged_message(w, &anc_bytes(w, a), *inner, d) else { return };
                let _ = anc_from(imp, w, &b);
            },
            Step::Crash { p } => {
                if self.peers.remove(p).is_some() {
                    self.gone.push(*p);
                }
            },
            Step::Swap { p } => {
                let Some(peer) = self.peers.get_mut(p) else { return };
                let mut old = peer.doc.clone();
                std::mem::swap(&mut old, &mut peer.doc);
                if old.len() > k {
                    old.deleted(Bound::Included(0), Bound::Excluded(k));
                    old.inserted(0, k);
                }
            },
            Step::Twin { p } => {
                let Some(peer) = self.peers.get_mut(p) else { return };
                peer.twin.get_or_insert_with(|| peer.doc.clone());
            },
            Step::Untwin { p } => {
                if let Some(peer) = self.peers.get_mut(p) {
                    peer.twin = None;
                }
            },
            Step::Anc { p, a, pos, right } => {
                let Some(peer) = self.peers.get(p) else { return };
                let at = *pos as usize % (peer.doc.len() / k + 1) * k;
                let anc = work(|| peer.doc.create_anchor(at, *right));
                work(|| peer.doc.resolve_anchor(&anc));
                if let Some(x) = &mut self.abroad {
                    x.anchored(*a, &anc);
                }
                self.ancs.insert(*a, anc);
            },
            Step::Res { p, a, w } => {
                let (Some(peer), Some(anc)) = (self.peers.get(p), self.ancs.get(a)) else { return };
                if let Some(x) = &self.abroad {
                    let theirs = x.theirs.as_ref().and_then(|t| t.ancs.get(a));
                    let at = match theirs.map(|(bin, json)| arch::pick(*w, bin, json)) {
                        Some((w, b)) => anc_from(imp, w, b).map(|a| peer.doc.resolve_anchor(&a)),
                        None => Ok(peer.doc.resolve_anchor(anc)),
                    };
                    return self.answer(|| vec![at.map_or(REFUSED, |o| o.map_or(0, |o| o as u64 + 1))]);
                }
                let a = anc;
                if *w == Wire::Native {
                    work(|| peer.doc.resolve_anchor(a));
                } else if let Ok(a) = anc_from(imp, *w, &anc_bytes(*w, a)) {
                    peer.doc.resolve_anchor(&a);
                }
            },
            Step::Bad { p, c } => {
                let Some(peer) = self.peers.get_mut(p) else { return };
                bad(peer, *c, k);
            },
            Step::Trip { u } => {
                let Some(e) = self.edits.get(u) else { return };
                for w in [Wire::Bin, Wire::Json] {
                    travel(imp, e, w);
                    let _ = text_round_trip(w, e);
                }
            },
            Step::Check { p } => {
                if let Some(peer) = self.peers.get(p) {
                    peer.doc.check();
                }
            },
        }
    }
}

fn bad(peer: &mut Peer, c: BadCall, k: usize) {
    let (doc, id) = (&mut peer.doc, peer.id);
    let imp = doc.imp();
    let len = doc.len() / k * k;
    let _ = catch_unwind(AssertUnwindSafe(|| match c {
        BadCall::InsertBeyond(n) => drop(doc.inserted(len + 1 + n as usize, 1 + n as usize % 3)),
        BadCall::InsertMax => drop(doc.inserted(usize::MAX, 1)),
        BadCall::DeleteBeyond(s, n) => {
            let s = s as usize % (len + 1);
            drop(doc.deleted(Bound::Included(s), Bound::Excluded(len + 1 + n as usize)))
        },
        BadCall::DeleteReversed(a, n) => {
            let e = a as usize % (len + 1);
            drop(doc.deleted(Bound::Included(e + 1 + n as usize), Bound::Excluded(e)))
        },
        BadCall::DeleteFromMax => drop(doc.deleted(Bound::Included(usize::MAX), Bound::Excluded(len))),
        BadCall::DeleteToMaxInclusive(s) => {
            let s = s as usize % (len + 1);
            drop(doc.deleted(Bound::Included(s), Bound::Included(usize::MAX)))
        },
        BadCall::AnchorBeyond(n, right) => drop(doc.create_anchor(len + 1 + n as usize, right)),
        BadCall::ForkZero => drop(doc.fork(0)),
        BadCall::ForkSame => drop(doc.fork(id)),
        BadCall::DecodeZero => {
            let b = doc.encode();
            drop(Doc::decode(imp, 0, &b))
        },
        BadCall::NewZero => drop(Doc::new(imp, 0, len)),
    }));
}

/// One byte of progress: anything more takes longer to interpret than the step.
fn tell(b: u8) {
    unsafe { libc::write(1, (&raw const b).cast(), 1) };
}

/// Reads runs (number, length, configuration and steps as bincode) and executes
/// them, telling how far it got.
pub fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut stdin = std::io::stdin().lock();
    let mut head = [0; 16];
    while stdin.read_exact(&mut head).is_ok() {
        let len = u64::from_le_bytes(head[8..].try_into().unwrap());
        let mut body = vec![0; len as usize];
        stdin.read_exact(&mut body).expect("a run");
        let ((cfg, steps), _): ((Config, Vec<Step>), _) =
            bincode::serde::decode_from_slice(&body, bincode::config::standard()).expect("a run");
        let done = catch_unwind(AssertUnwindSafe(|| {
            let mut l = Lite::new(&cfg, Imp::Cur);
            for s in &steps {
                tell(b'.');
                l.step(s);
            }
        }));
        tell(if done.is_ok() { b'o' } else { b'p' });
    }
}

/// The same for sessions executed here as on a machine elsewhere, returning
/// what it made of them.
pub fn elsewhere() {
    crate::imp::install_hook();
    let mut stdin = std::io::stdin().lock();
    let mut head = [0; 8];
    while stdin.read_exact(&mut head).is_ok() {
        let len = u64::from_le_bytes(head);
        let mut body = vec![0; len as usize];
        stdin.read_exact(&mut body).expect("an order");
        let (order, _): (arch::Order, _) =
            bincode::serde::decode_from_slice(&body, bincode::config::standard()).expect("an order");
        let report = arch::serve(&order, &mut || tell(b'.'));
        let body = bincode::serde::encode_to_vec(&report, bincode::config::standard()).expect("bincode");
        let mut out = vec![b'o'];
        out.extend((body.len() as u64).to_le_bytes());
        out.extend(body);
        let mut at = 0;
        while at < out.len() {
            let n = unsafe { libc::write(1, out[at..].as_ptr().cast(), out.len() - at) };
            if n <= 0 {
                return;
            }
            at += n as usize;
        }
    }
}

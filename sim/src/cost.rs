//! Work done by cola, in basic blocks executed: a clock that runs the same way
//! every time. The `counted` build calls back at the start of every block.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::case::Found;
use crate::imp::{Doc, Imp};
use crate::lite::Lite;
use crate::step::*;

#[cfg(colasim_counted)]
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_pc_guard",
    "__sanitizer_cov_trace_pc_guard:",
    "inc qword ptr [rip + COLASIM_BLOCKS]",
    "ret",
    ".globl __sanitizer_cov_trace_pc_guard_init",
    "__sanitizer_cov_trace_pc_guard_init:",
    "ret",
    // Copies made by library calls, which are single blocks however long.
    ".globl memcpy",
    "memcpy:",
    "add qword ptr [rip + COLASIM_MOVED], rdx",
    "mov rcx, -1",
    "jmp __memcpy_chk@PLT",
    ".globl memmove",
    "memmove:",
    "add qword ptr [rip + COLASIM_MOVED], rdx",
    "mov rcx, -1",
    "jmp __memmove_chk@PLT",
);

#[no_mangle]
static mut COLASIM_MOVED: u64 = 0;

/// Bytes asked for since the process started, and not given back.
static mut ASKED: u64 = 0;
static mut LIVE: i64 = 0;

/// The simulations of one process run one after the other; another thread's
/// allocations would only disturb the count.
#[cfg(colasim_counted)]
mod scale {
    use std::alloc::{GlobalAlloc, Layout, System};

    struct Scale;

    #[global_allocator]
    static SCALE: Scale = Scale;

    /// Leaves the blocks and copies of the bookkeeping out of the count.
    fn off<T>(f: impl FnOnce() -> T) -> T {
        unsafe {
            let (b, m) = (super::COLASIM_BLOCKS, super::COLASIM_MOVED);
            let r = f();
            super::COLASIM_BLOCKS = b;
            super::COLASIM_MOVED = m;
            r
        }
    }

    unsafe impl GlobalAlloc for Scale {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            off(|| {
                super::ASKED += l.size() as u64;
                super::LIVE += l.size() as i64;
                System.alloc(l)
            })
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            off(|| {
                super::LIVE -= l.size() as i64;
                System.dealloc(p, l)
            })
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            off(|| {
                super::ASKED += l.size() as u64;
                super::LIVE += l.size() as i64;
                System.alloc_zeroed(l)
            })
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            off(|| {
                super::ASKED += n as u64;
                super::LIVE += n as i64 - l.size() as i64;
                System.realloc(p, l, n)
            })
        }
    }
}

pub fn live() -> i64 {
    unsafe { (&raw const LIVE).read_volatile() }
}

#[no_mangle]
static mut COLASIM_BLOCKS: u64 = 0;

/// Spent inside cola since the process started.
static mut INSIDE: Work = Work { blocks: 0, moved: 0, asked: 0 };

/// Basic blocks executed, bytes copied and bytes of memory asked for.
#[derive(Clone, Copy, Default)]
struct Work {
    blocks: u64,
    moved: u64,
    asked: u64,
}

impl std::ops::Sub for Work {
    type Output = Work;
    fn sub(self, o: Work) -> Work {
        Work { blocks: self.blocks - o.blocks, moved: self.moved - o.moved, asked: self.asked - o.asked }
    }
}

fn blocks() -> u64 {
    unsafe { (&raw const COLASIM_BLOCKS).read_volatile() }
}

fn now() -> Work {
    unsafe {
        Work {
            blocks: blocks(),
            moved: (&raw const COLASIM_MOVED).read_volatile(),
            asked: (&raw const ASKED).read_volatile(),
        }
    }
}

fn inside() -> Work {
    unsafe { (&raw const INSIDE).read_volatile() }
}

/// Runs one call into cola, adding the blocks it executes.
#[inline(always)]
pub fn work<T>(f: impl FnOnce() -> T) -> T {
    if cfg!(colasim_counted) {
        let t = now();
        let r = f();
        unsafe {
            let w = now() - t;
            INSIDE.blocks += w.blocks;
            INSIDE.moved += w.moved;
            INSIDE.asked += w.asked;
        }
        r
    } else {
        f()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Kind {
    /// An insertion right behind the same peer's previous one.
    Typing,
    Insert,
    /// A deletion that ends where the same peer's previous edit left off.
    Erasing,
    Delete,
    /// A remote insertion that continues the one the peer got just before.
    RemoteTyping,
    RemoteInsert,
    RemoteDelete,
    Drain,
    Anchor,
    Fork,
    Encode,
    Decode,
}

pub fn kinds(steps: &[Step]) -> Vec<Option<Kind>> {
    let mut ins: BTreeMap<u32, bool> = BTreeMap::new();
    // Where each peer's caret is, if its last step was this insertion.
    let mut caret: BTreeMap<u16, (u32, u32)> = BTreeMap::new();
    // The insertion each one goes on from, and the one each peer got last.
    let mut before: BTreeMap<u32, u32> = BTreeMap::new();
    let mut last: BTreeMap<u16, u32> = BTreeMap::new();
    let mut out = Vec::with_capacity(steps.len());
    for s in steps {
        out.push(match s {
            Step::Ins { p, u, pos, n } => {
                ins.insert(*u, true);
                last.remove(p);
                match caret.insert(*p, (pos + n, *u)) {
                    Some((end, prev)) if end == *pos => {
                        before.insert(*u, prev);
                        Some(Kind::Typing)
                    },
                    _ => Some(Kind::Insert),
                }
            },
            Step::Del { p, u, pos, n, .. } => {
                ins.insert(*u, false);
                last.remove(p);
                match caret.insert(*p, (*pos, u32::MAX)) {
                    Some((end, _)) if end == pos + n => Some(Kind::Erasing),
                    _ => Some(Kind::Delete),
                }
            },
            Step::Dlv { p, u, .. } => {
                caret.remove(p);
                if ins.get(u) == Some(&true) {
                    let prev = last.insert(*p, *u);
                    let goes_on = prev.is_some() && prev == before.get(u).copied();
                    Some(if goes_on { Kind::RemoteTyping } else { Kind::RemoteInsert })
                } else {
                    last.remove(p);
                    Some(Kind::RemoteDelete)
                }
            },
            Step::Drain { p } | Step::Part { p, .. } => {
                caret.remove(p);
                last.remove(p);
                Some(Kind::Drain)
            },
            Step::Anc { .. } | Step::Res { .. } => Some(Kind::Anchor),
            Step::Noop { u, .. } => {
                ins.insert(*u, false);
                None
            },
            s => {
                caret.clear();
                last.clear();
                match s {
                    Step::Fork { .. } => Some(Kind::Fork),
                    Step::Snap { .. } => Some(Kind::Encode),
                    Step::Load { .. } => Some(Kind::Decode),
                    _ => None,
                }
            },
        });
    }
    out
}

/// The work of every step, up to the first panic.
fn costs(imp: Imp, cfg: &Config, steps: &[Step], beat: &mut dyn FnMut()) -> Vec<Work> {
    let mut out = Vec::with_capacity(steps.len());
    // The first checksum of a process looks for the processor's features.
    let _ = Doc::decode(imp, 2, &Doc::new(imp, 1, 1).encode());
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let mut l = Lite::new(cfg, imp);
        for s in steps {
            beat();
            let t = inside();
            l.step(s);
            out.push(inside() - t);
        }
    }));
    out
}

pub struct Judged {
    pub found: Option<Found>,
    /// Steps measured and blocks executed, per kind.
    pub by: BTreeMap<&'static str, (u64, u64)>,
    pub panicked: bool,
    pub digest: u64,
}

fn name(k: Kind) -> &'static str {
    match k {
        Kind::Typing => "typing",
        Kind::Insert => "local insertion",
        Kind::Erasing => "erasing",
        Kind::Delete => "local deletion",
        Kind::RemoteTyping => "remote typing",
        Kind::RemoteInsert => "remote insertion",
        Kind::RemoteDelete => "remote deletion",
        Kind::Drain => "taking from the backlog",
        Kind::Anchor => "anchors",
        Kind::Fork => "forking",
        Kind::Encode => "encoding",
        Kind::Decode => "decoding",
    }
}

/// A step may cost this much more than in the pinned build.
const STEP: (u64, u64) = (8, 2000);
/// On average over at least `.0` steps of a kind: this many times plus this.
const MEAN: (u64, f64, f64) = (40, 3.0, 30.0);
/// The same for typing, which skips the search for its place.
const TYPING: (u64, f64, f64) = (20, 2.5, 8.0);
/// Bytes copied or allocated by all but a tenth of at least `.0` steps of a
/// kind: this many times plus this.
const BULK: (usize, u64, u64) = (40, 3, 2048);
/// The same for what goes through the whole replica.
const WHOLE: (u64, f64, f64) = (2, 3.0, 300.0);
/// Growth of the mean cost of a local insertion from the session's 64th to
/// 127th edit to its last ones, at least 1024 and up to 16000 edits in.
const GROWTH: (u64, f64, f64) = (40, 3.0, 50.0);

/// Typing, leaving out the first two keystrokes in a row, may grow that much
/// more from the first 64 edits on than in the pinned build.
const TYPING_GROWTH: (u64, f64, f64) = (20, 0.3, 5.0);

/// Executes the steps on the tree's code and on the pinned build and compares
/// the work done, with each other and with the size of the session.
pub fn judge(cfg: &Config, steps: &[Step], beat: &mut dyn FnMut()) -> Judged {
    let cur = costs(Imp::Cur, cfg, steps, beat);
    let base = costs(Imp::Base, cfg, steps, beat);
    let kinds = kinds(steps);
    let panicked = cur.len() < steps.len();
    let mut found: Option<Found> = None;
    let mut report = |class: String, message: String, step: usize| {
        found.get_or_insert(Found { class, message, step });
    };
    // Steps, blocks, blocks in the pinned build; by kind, and for local
    // insertions by the magnitude of the number of edits before.
    let mut sums: BTreeMap<Kind, (u64, u64, u64)> = BTreeMap::new();
    let mut grown: BTreeMap<u32, (u64, u64)> = BTreeMap::new();
    let mut typed: BTreeMap<u32, (u64, u64, u64)> = BTreeMap::new();
    let mut row: BTreeMap<u16, u32> = BTreeMap::new();
    let mut edits = 0u64;
    let mut digest = 0u64;
    let mut bulk: BTreeMap<Kind, Vec<[u64; 4]>> = BTreeMap::new();
    for (i, (cw, bw)) in cur.iter().zip(&base).enumerate() {
        let (c, b) = (&cw.blocks, &bw.blocks);
        digest = crate::rng::mix(digest ^ c);
        let Some(k) = kinds[i] else { continue };
        bulk.entry(k).or_default().push([cw.moved, bw.moved, cw.asked, bw.asked]);
        let e = sums.entry(k).or_default();
        *e = (e.0 + 1, e.1 + c, e.2 + b);
        if matches!(k, Kind::Typing | Kind::Insert | Kind::Erasing | Kind::Delete) {
            edits += 1;
        }
        if let Step::Ins { p, .. } | Step::Del { p, .. } | Step::Dlv { p, .. } = &steps[i] {
            let row = row.entry(*p).or_default();
            *row = if k == Kind::Typing { *row + 1 } else { 0 };
            if *row > 2 {
                let e = typed.entry(edits.ilog2().max(5)).or_default();
                *e = (e.0 + 1, e.1 + c, e.2 + b);
            }
        }
        if k == Kind::Insert {
            let e = grown.entry(edits.ilog2()).or_default();
            *e = (e.0 + 1, e.1 + c);
        }
        if *c > STEP.0 * b + STEP.1 {
            report(
                format!("cost:step:{}", name(k)),
                format!("step {i}, {}, takes {c} basic blocks after {edits} edits; the pinned build takes {b}", name(k)),
                i,
            );
        }
    }
    let mean = |n: u64, c: u64| c as f64 / n as f64;
    for (k, (n, c, b)) in &sums {
        let (least, times, plus) = match k {
            Kind::Typing => TYPING,
            Kind::Fork | Kind::Encode | Kind::Decode => WHOLE,
            _ => MEAN,
        };
        if *n >= least && mean(*n, *c) > times * mean(*n, *b) + plus {
            report(
                format!("cost:mean:{}", name(*k)),
                format!(
                    "{n} steps, {}, take {:.1} basic blocks on average; the pinned build takes {:.1}",
                    name(*k),
                    mean(*n, *c),
                    mean(*n, *b)
                ),
                steps.len(),
            );
        }
    }
    for (k, v) in &bulk {
        if v.len() < BULK.0 || matches!(k, Kind::Fork | Kind::Encode | Kind::Decode) {
            continue;
        }
        for (what, j) in [("copies", 0), ("allocates", 2)] {
            // The ninetieth in a hundred: what a call regularly does, not the
            // growing of a vector now and then.
            let at = |j: usize| {
                let mut x: Vec<u64> = v.iter().map(|e| e[j]).collect();
                let i = x.len() * 9 / 10;
                *x.select_nth_unstable(i).1
            };
            let (c, b) = (at(j), at(j + 1));
            if c > BULK.1 * b + BULK.2 {
                report(
                    format!("cost:{what}:{}", name(*k)),
                    format!(
                        "one in ten of {} steps, {}, {what} {c} bytes or more; in the pinned build {b}",
                        v.len(),
                        name(*k),
                    ),
                    steps.len(),
                );
            }
        }
    }
    if let Some((n0, c0)) = grown.get(&6).filter(|e| e.0 >= 20) {
        for (k, (n, c)) in grown.iter().filter(|(k, e)| **k >= 10 && e.0 >= GROWTH.0) {
            if mean(*n, *c) > GROWTH.1 * mean(*n0, *c0) + GROWTH.2 {
                report(
                    "cost:growth".into(),
                    format!(
                        "a local insertion takes {:.1} basic blocks on average after {} edits and {:.1} after 64",
                        mean(*n, *c),
                        1 << k,
                        mean(*n0, *c0)
                    ),
                    steps.len(),
                );
            }
        }
    }
    if let Some((n0, c0, b0)) = typed.get(&5).filter(|e| e.0 >= 8) {
        for (k, (n, c, b)) in typed.iter().filter(|(k, e)| **k >= 8 && e.0 >= TYPING_GROWTH.0) {
            let (c0, c, b0, b) = (mean(*n0, *c0), mean(*n, *c), mean(*n0, *b0), mean(*n, *b));
            if c - c0 > b - b0 + TYPING_GROWTH.1 * b + TYPING_GROWTH.2 {
                report(
                    "cost:growth:typing".into(),
                    format!(
                        "a keystroke takes {c:.1} basic blocks on average after {} edits and {c0:.1} at first; \
                         the pinned build takes {b:.1} and {b0:.1}",
                        1 << k,
                    ),
                    steps.len(),
                );
            }
        }
    }
    let by = sums.iter().map(|(k, (n, c, _))| (name(*k), (*n, *c))).collect();
    Judged { found, by, panicked, digest }
}

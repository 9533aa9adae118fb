//! Runs are pure functions of (`Config`, `Vec<Step>`): what is recorded,
//! minimised and replayed.

use serde::{Deserialize, Serialize};

use crate::imp::{Imp, Wire};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Config {
    /// Initial document length, in units.
    pub init: u32,
    /// Characters per unit: every length and offset is multiplied by this.
    pub scale: u64,
    /// Replica id and build of the session's creator.
    pub id: u64,
    pub imp: Imp,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    /// Flip bit `.1` of byte `.0` (positions modulo the length).
    Flip(Vec<(u32, u8)>),
    /// Keep only the first bytes.
    Trunc(u32),
    /// Append pseudo-random bytes.
    Append(u32, u64),
    /// Overwrite `.1` bytes at `.0` with pseudo-random bytes.
    Over(u32, u32, u64),
    /// Torn write: the first bytes are new, the rest is zeros.
    Torn(u32),
    /// Torn write over an older file: the rest is the older snapshot's bytes.
    TornOld(u32, u32),
    /// Pseudo-random bytes instead.
    Replace(u32, u64),
    /// Another protocol version, everything else intact.
    Proto(u64),
    /// Swap two regions of the given length.
    Swap(u32, u32, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum BadCall {
    InsertBeyond(u32),
    InsertMax,
    DeleteBeyond(u32, u32),
    DeleteReversed(u32, u32),
    DeleteFromMax,
    DeleteToMaxInclusive(u32),
    AnchorBeyond(u32, bool),
    ForkZero,
    ForkSame,
    DecodeZero,
    NewZero,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum What {
    Edit,
    Text,
}

/// Peers are named by labels, edits, anchors and snapshots by uids; steps that
/// name something that does not exist are skipped. Positions are reduced
/// modulo what is possible, so any subsequence of steps is a valid run.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    /// Peer inserts `n` units at `pos`.
    Ins { p: u16, u: u32, pos: u32, n: u32 },
    /// Peer deletes `n` units from `pos`; `b` picks the kind of range bounds.
    Del { p: u16, u: u32, pos: u32, n: u32, b: u8 },
    /// Edit `u` is delivered to peer `p` over wire `w`.
    Dlv { p: u16, u: u32, w: Wire },
    /// Peer takes everything its backlog yields (insertions, then deletions).
    Drain { p: u16 },
    /// Peer takes at most the given numbers of items from its backlog.
    Part { p: u16, ins: u16, del: u16 },
    /// Peer `to` starts as a fork.
    Fork { p: u16, to: u16, id: u64, shadow: bool },
    /// Snapshot `s` of peer `p` is written.
    Snap { p: u16, s: u32, w: Wire },
    /// Peer `to` starts from snapshot `s`.
    Load { s: u32, to: u16, id: u64, imp: Imp, shadow: bool },
    /// A damaged copy of snapshot `s` is decoded.
    BadLoad { s: u32, imp: Imp, d: Damage },
    /// A damaged copy of edit `u` is deserialized.
    BadMsg { u: u32, w: Wire, what: What, inner: bool, d: Damage },
    /// A damaged copy of anchor `a` is deserialized.
    BadAnc { a: u32, w: Wire, inner: bool, d: Damage },
    /// Peer loses its memory for good.
    Crash { p: u16 },
    /// Peer goes on with a clone of its replica; the original is dropped.
    Swap { p: u16 },
    /// A clone of the peer's replica starts to run in lock step with it.
    Twin { p: u16 },
    /// The lock-step copy is dropped.
    Untwin { p: u16 },
    /// Peer creates anchor `a`.
    Anc { p: u16, a: u32, pos: u32, right: bool },
    /// Peer resolves anchor `a`, received over wire `w`.
    Res { p: u16, a: u32, w: Wire },
    /// A call that must be rejected.
    Bad { p: u16, c: BadCall },
    /// Peer inserts or deletes nothing, producing edit `u`.
    Noop { p: u16, u: u32, ins: bool, pos: u32 },
    /// Serialization round trips of edit `u`.
    Trip { u: u32 },
    /// Full consistency check of one peer.
    Check { p: u16 },
}

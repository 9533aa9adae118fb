//! The system under test behind one face: replicas of the current tree
//! (`cola`) and of the pinned build (`cola_base`), and the wire formats.

use std::cell::RefCell;
use std::ops::{Bound, Range};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

/// Which library call was running: tells a panic, abort or hang apart.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
#[repr(u8)]
pub enum Call {
    None,
    New,
    Insert,
    Delete,
    IntIns,
    IntDel,
    DrainIns,
    DrainDel,
    Fork,
    Clone,
    Encode,
    Decode,
    DecodeDamaged,
    Anchor,
    Resolve,
    Ser,
    De,
    DeDamaged,
    Invariants,
    Bad,
}

pub const CALLS: [Call; 20] = [
    Call::None,
    Call::New,
    Call::Insert,
    Call::Delete,
    Call::IntIns,
    Call::IntDel,
    Call::DrainIns,
    Call::DrainDel,
    Call::Fork,
    Call::Clone,
    Call::Encode,
    Call::Decode,
    Call::DecodeDamaged,
    Call::Anchor,
    Call::Resolve,
    Call::Ser,
    Call::De,
    Call::DeDamaged,
    Call::Invariants,
    Call::Bad,
];

/// The call in progress, also visible to the supervising process.
pub static CURRENT: AtomicU64 = AtomicU64::new(0);
pub static mut STATUS: *mut u64 = std::ptr::null_mut();

pub fn status(slot: usize, v: u64) {
    unsafe {
        if !STATUS.is_null() {
            std::ptr::write_volatile(STATUS.add(slot), v);
        }
    }
}

thread_local! {
    pub static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit('/').next().unwrap_or(f);
                format!("{f}:{}", l.line())
            })
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} [{loc}]")));
    }));
}

/// Runs one library call; a panic becomes an error carrying its message.
pub fn guard<T>(call: Call, f: impl FnOnce() -> T) -> Result<T, (Call, String)> {
    CURRENT.store(call as u64, Ordering::Relaxed);
    status(2, call as u64);
    let r = catch_unwind(AssertUnwindSafe(f));
    CURRENT.store(0, Ordering::Relaxed);
    status(2, 0);
    r.map_err(|_| {
        let m = PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into());
        (call, m)
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Imp {
    Cur,
    Base,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Wire {
    Native,
    Bin,
    Json,
}

#[derive(Clone)]
pub enum Doc {
    Cur(cola::Replica),
    Base(cola_base::Replica),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Edit {
    CurIns(cola::Insertion),
    CurDel(cola::Deletion),
    BaseIns(cola_base::Insertion),
    BaseDel(cola_base::Deletion),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Anc {
    Cur(cola::Anchor),
    Base(cola_base::Anchor),
}

/// Author and temporal range of a text.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TextId {
    pub by: u64,
    pub range: Range<usize>,
}

/// How decoding a snapshot can fail.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SnapErr {
    Checksum,
    Protocol { encoded_on: u64, decoding_on: u64 },
    Invalid,
}

macro_rules! on {
    ($s:expr, $d:ident => $e:expr) => {
        match $s {
            Doc::Cur($d) => $e,
            Doc::Base($d) => $e,
        }
    };
}

macro_rules! text_id {
    ($t:expr) => {{
        let t = $t;
        TextId { by: t.inserted_by(), range: t.temporal_range() }
    }};
}

impl Doc {
    pub fn new(imp: Imp, id: u64, len: usize) -> Self {
        match imp {
            Imp::Cur => Doc::Cur(cola::Replica::new(id, len)),
            Imp::Base => Doc::Base(cola_base::Replica::new(id, len)),
        }
    }

    pub fn imp(&self) -> Imp {
        match self {
            Doc::Cur(_) => Imp::Cur,
            Doc::Base(_) => Imp::Base,
        }
    }

    pub fn id(&self) -> u64 {
        on!(self, d => d.id())
    }

    pub fn len(&self) -> usize {
        on!(self, d => d.len())
    }

    pub fn runs(&self) -> usize {
        on!(self, d => d.num_runs())
    }

    pub fn check(&self) {
        on!(self, d => d.assert_invariants())
    }

    pub fn inserted(&mut self, at: usize, n: usize) -> (Edit, TextId) {
        match self {
            Doc::Cur(d) => {
                let e = d.inserted(at, n);
                let t = text_id!(e.text());
                (Edit::CurIns(e), t)
            },
            Doc::Base(d) => {
                let e = d.inserted(at, n);
                let t = text_id!(e.text());
                (Edit::BaseIns(e), t)
            },
        }
    }

    pub fn deleted(&mut self, s: Bound<usize>, e: Bound<usize>) -> (Edit, u64) {
        match self {
            Doc::Cur(d) => {
                let e = d.deleted((s, e));
                let by = e.deleted_by();
                (Edit::CurDel(e), by)
            },
            Doc::Base(d) => {
                let e = d.deleted((s, e));
                let by = e.deleted_by();
                (Edit::BaseDel(e), by)
            },
        }
    }

    pub fn integrate_insertion(&mut self, e: &Edit) -> Option<usize> {
        match (self, e) {
            (Doc::Cur(d), Edit::CurIns(e)) => d.integrate_insertion(e),
            (Doc::Base(d), Edit::BaseIns(e)) => d.integrate_insertion(e),
            _ => unreachable!("edit of the other build"),
        }
    }

    pub fn integrate_deletion(&mut self, e: &Edit) -> Vec<Range<usize>> {
        match (self, e) {
            (Doc::Cur(d), Edit::CurDel(e)) => d.integrate_deletion(e),
            (Doc::Base(d), Edit::BaseDel(e)) => d.integrate_deletion(e),
            _ => unreachable!("edit of the other build"),
        }
    }

    /// Takes up to `max` items from the insertion backlog.
    pub fn drain_ins(&mut self, max: usize) -> Vec<(TextId, usize)> {
        on!(self, d => d
            .backlogged_insertions()
            .take(max)
            .map(|(t, o)| (text_id!(&t), o))
            .collect())
    }

    pub fn drain_del(&mut self, max: usize) -> Vec<Vec<Range<usize>>> {
        on!(self, d => d.backlogged_deletions().take(max).collect())
    }

    pub fn fork(&self, id: u64) -> Self {
        match self {
            Doc::Cur(d) => Doc::Cur(d.fork(id)),
            Doc::Base(d) => Doc::Base(d.fork(id)),
        }
    }

    pub fn encode(&self) -> Vec<u8> {
        on!(self, d => d.encode().as_bytes().to_vec())
    }

    /// Serializes the encoded replica with serde.
    pub fn encode_wire(&self, w: Wire) -> Vec<u8> {
        on!(self, d => ser(w, &d.encode()))
    }

    pub fn decode(imp: Imp, id: u64, bytes: &[u8]) -> Result<Self, SnapErr> {
        match imp {
            Imp::Cur => {
                let e = cola::EncodedReplica::from_bytes(bytes);
                cola::Replica::decode(id, &e).map(Doc::Cur).map_err(|e| match e {
                    cola::DecodeError::ChecksumFailed => SnapErr::Checksum,
                    cola::DecodeError::DifferentProtocol { encoded_on, decoding_on } => {
                        SnapErr::Protocol { encoded_on: encoded_on as u64, decoding_on: decoding_on as u64 }
                    },
                    cola::DecodeError::InvalidData => SnapErr::Invalid,
                })
            },
            Imp::Base => {
                let e = cola_base::EncodedReplica::from_bytes(bytes);
                cola_base::Replica::decode(id, &e).map(Doc::Base).map_err(|e| match e {
                    cola_base::DecodeError::ChecksumFailed => SnapErr::Checksum,
                    cola_base::DecodeError::DifferentProtocol { encoded_on, decoding_on } => {
                        SnapErr::Protocol { encoded_on: encoded_on as u64, decoding_on: decoding_on as u64 }
                    },
                    cola_base::DecodeError::InvalidData => SnapErr::Invalid,
                })
            },
        }
    }

    pub fn create_anchor(&self, at: usize, right: bool) -> Anc {
        match self {
            Doc::Cur(d) => Anc::Cur(d.create_anchor(
                at,
                if right { cola::AnchorBias::Right } else { cola::AnchorBias::Left },
            )),
            Doc::Base(d) => Anc::Base(d.create_anchor(
                at,
                if right { cola_base::AnchorBias::Right } else { cola_base::AnchorBias::Left },
            )),
        }
    }

    pub fn resolve_anchor(&self, a: &Anc) -> Option<usize> {
        match (self, a) {
            (Doc::Cur(d), Anc::Cur(a)) => d.resolve_anchor(*a),
            (Doc::Base(d), Anc::Base(a)) => d.resolve_anchor(*a),
            _ => unreachable!("anchor of the other build"),
        }
    }
}

pub fn ser<T: Serialize>(w: Wire, t: &T) -> Vec<u8> {
    match w {
        Wire::Json => serde_json::to_vec(t).expect("json"),
        _ => bincode::serde::encode_to_vec(t, bincode::config::standard()).expect("bincode"),
    }
}

pub fn de<T: DeserializeOwned>(w: Wire, b: &[u8]) -> Result<T, String> {
    match w {
        Wire::Json => serde_json::from_slice(b).map_err(|e| e.to_string()),
        // The limit keeps bincode itself from trusting a damaged length.
        _ => bincode::serde::decode_from_slice(
            b,
            bincode::config::standard().with_limit::<{ 256 << 20 }>(),
        )
            .map(|(t, _)| t)
            .map_err(|e| e.to_string()),
    }
}

/// The bytes cola itself produced, out of the container of the wire format.
pub fn unwrap_container(w: Wire, b: &[u8]) -> Vec<u8> {
    de::<Vec<u8>>(w, b).expect("container")
}

/// Damaged inner bytes in an intact container.
pub fn wrap_container(w: Wire, inner: &[u8]) -> Vec<u8> {
    ser(w, &inner.to_vec())
}

pub fn edit_bytes(w: Wire, e: &Edit) -> Vec<u8> {
    match e {
        Edit::CurIns(e) => ser(w, e),
        Edit::CurDel(e) => ser(w, e),
        Edit::BaseIns(e) => ser(w, e),
        Edit::BaseDel(e) => ser(w, e),
    }
}

pub fn edit_from(imp: Imp, is_ins: bool, w: Wire, b: &[u8]) -> Result<Edit, String> {
    match (imp, is_ins) {
        (Imp::Cur, true) => de(w, b).map(Edit::CurIns),
        (Imp::Cur, false) => de(w, b).map(Edit::CurDel),
        (Imp::Base, true) => de(w, b).map(Edit::BaseIns),
        (Imp::Base, false) => de(w, b).map(Edit::BaseDel),
    }
}

pub fn edit_text(e: &Edit) -> Option<TextId> {
    match e {
        Edit::CurIns(e) => Some(text_id!(e.text())),
        Edit::BaseIns(e) => Some(text_id!(e.text())),
        _ => None,
    }
}

pub fn edit_deleted_by(e: &Edit) -> Option<u64> {
    match e {
        Edit::CurDel(e) => Some(e.deleted_by()),
        Edit::BaseDel(e) => Some(e.deleted_by()),
        _ => None,
    }
}

/// Round trip of the `Text` of an insertion; `None` if it is no insertion.
pub fn text_round_trip(w: Wire, e: &Edit) -> Option<Result<bool, String>> {
    match e {
        Edit::CurIns(e) => {
            let b = ser(w, e.text());
            Some(de::<cola::Text>(w, &b).map(|t| &t == e.text()))
        },
        _ => None,
    }
}

pub fn text_de(w: Wire, b: &[u8]) -> Result<(), String> {
    de::<cola::Text>(w, b).map(|_| ())
}

pub fn text_bytes(w: Wire, e: &Edit) -> Option<Vec<u8>> {
    match e {
        Edit::CurIns(e) => Some(ser(w, e.text())),
        Edit::BaseIns(e) => Some(ser(w, e.text())),
        _ => None,
    }
}

pub fn anc_bytes(w: Wire, a: &Anc) -> Vec<u8> {
    match a {
        Anc::Cur(a) => ser(w, a),
        Anc::Base(a) => ser(w, a),
    }
}

pub fn anc_from(imp: Imp, w: Wire, b: &[u8]) -> Result<Anc, String> {
    match imp {
        Imp::Cur => de(w, b).map(Anc::Cur),
        Imp::Base => de(w, b).map(Anc::Base),
    }
}

/// Deserializes an encoded replica and returns its raw bytes.
pub fn snap_from_wire(imp: Imp, w: Wire, b: &[u8]) -> Result<Vec<u8>, String> {
    match imp {
        Imp::Cur => de::<cola::EncodedReplica<'static>>(w, b).map(|e| e.as_bytes().to_vec()),
        Imp::Base => de::<cola_base::EncodedReplica<'static>>(w, b).map(|e| e.as_bytes().to_vec()),
    }
}

//! A scenario is one simulated execution written out in full: initial trees,
//! client programs, armed faults and the schedule. Running it is a pure
//! function of the scenario and the code under test.
use crate::ctx::FaultSpec;
use crate::geom::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spec {
    pub key: u16,
    pub g: Geom,
}

/// A query point: absolute, or relative to an element of the tree.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum PtS {
    Abs(C),
    Elem(u32, u8, [i8; MAXD]),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum BoxS {
    Abs(C, C),
    Elem(u32, i8),
    Two(u32, u32),
    Nil,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum R2S {
    Val(i64),
    Max,
    ToElem(u32, i8),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct SelS {
    pub b: BoxS,
    /// 0: unpack parents meeting the box, 1: always, 2: never
    pub parent: u8,
    pub k: u8,
    pub r: u8,
    pub inside: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Q {
    All,
    AllRef,
    InEnv(BoxS),
    Isect(BoxS),
    At(PtS),
    Within(PtS, R2S),
    Sel(SelS),
    SelDef,
    NnIter(PtS),
    NnD(PtS),
    NnDep(PtS),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Target {
    Elem(u32),
    Spec(Spec),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    Drop,
    Exhaust,
    PastEnd,
    Forget,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum OneQ {
    At(PtS),
    AtInt(PtS),
    AtMut(PtS),
    AtIntMut(PtS),
    Contains(Target),
    Nn(PtS),
    NnD(PtS),
    Nns(PtS),
    NnsD(PtS),
    Size,
    Debug,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Codec {
    Json,
    Bincode,
    Cbor,
    JsonValue,
}

/// Faults of one file operation. Offsets are taken modulo the file length.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct IoPlan {
    /// 0: whole buffers, otherwise at most this many bytes per call
    pub chunk: u8,
    /// every n-th call fails with EINTR (0: never)
    pub intr: u8,
    /// hard error when this byte is reached: (offset, kind)
    pub fail: Option<(u32, u8)>,
    /// the final sync fails
    pub sync_fail: bool,
    /// write in place instead of to a temporary file that is renamed
    pub in_place: bool,
    /// how much of unsynced data survives (in 1/256)
    pub survive: u8,
    /// reader only: the file appears truncated at this offset
    pub cut: Option<u32>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    Flip(u32, u8),
    Set(u32, u8),
    Del(u32, u16),
    Dup(u32, u16),
    Big(u32),
    Zero(u32, u16),
    Swap(u32, u32, u16),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Insert { s: u8, e: Spec },
    Batch { s: u8, es: Vec<Spec> },
    Bulk { s: u8, es: Vec<Spec>, merge: bool },
    Remove { s: u8, t: Target },
    RemoveAt { s: u8, p: PtS },
    RemoveSel { s: u8, q: SelS },
    Pop { s: u8, p: PtS },
    Drain { s: u8, q: Q, take: u32, end: End, catch: bool },
    MutIter { s: u8, q: Q, take: u32, mask: u8, end: End },
    Visit { s: u8, q: Q, mutable: bool, stop: Option<u32>, nested: Option<Q>, mask: u8 },
    Session { s: u8, cursors: Vec<Q>, script: Vec<(u8, u16)>, ends: Vec<End> },
    One { s: u8, q: OneQ },
    Join { s: u8, o: u8, bulk: bool, sub: u8, take: u32 },
    SelfJoin { s: u8, take: u32 },
    CloneTo {
        a: u8,
        b: u8,
        /// clone_from() into the other tree
        #[serde(default)]
        from: bool,
    },
    Swap { a: u8, b: u8 },
    Take { s: u8 },
    Consume { s: u8, take: u32, end: End, rebuild: bool },
    Save { s: u8, f: u8, codec: Codec, io: IoPlan },
    Load { s: u8, f: u8, io: IoPlan },
    Restart { s: u8, f: u8 },
    Damage { f: u8, d: Vec<Damage> },
    Yield,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct OpF {
    pub op: Op,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fault: Option<FaultSpec>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Init {
    pub bulk: bool,
    pub es: Vec<Spec>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub profile: String,
    pub seed: u64,
    pub combo: u8,
    pub exact: bool,
    pub exp: i8,
    /// everything is moved this far away from the origin
    #[serde(default)]
    pub off: i64,
    pub range: i16,
    pub slots: Vec<Init>,
    pub clients: Vec<Vec<OpF>>,
    /// preemption decisions: (steps until the next switch, who runs next)
    pub sched: Vec<(u32, u8)>,
    /// 0: check at the end, 1: touched slots after every write, 2: every slot
    pub verify: u8,
    pub battery: u32,
    /// replicated-service scenarios (C13) use this instead of `clients`
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cluster: Option<crate::replica::Cluster>,
}

impl Op {
    /// (slots read, slots written) as bit masks, for a world of `n` slots.
    pub fn locks(&self, n: u8) -> (u32, u32) {
        use Op::*;
        let m = |s: &u8| 1u32 << (s % n);
        match self {
            Insert { s, .. }
            | Batch { s, .. }
            | Bulk { s, .. }
            | Remove { s, .. }
            | RemoveAt { s, .. }
            | RemoveSel { s, .. }
            | Pop { s, .. }
            | Drain { s, .. }
            | MutIter { s, .. }
            | Take { s }
            | Consume { s, .. }
            | Load { s, .. }
            | Restart { s, .. } => (0, m(s)),
            Visit { s, mutable, .. } => {
                if *mutable {
                    (0, m(s))
                } else {
                    (m(s), 0)
                }
            }
            Session { s, .. } | SelfJoin { s, .. } | Save { s, .. } => (m(s), 0),
            One { s, q } => match q {
                OneQ::AtMut(_) | OneQ::AtIntMut(_) => (0, m(s)),
                _ => (m(s), 0),
            },
            Join { s, o, .. } => (m(s) | m(o), 0),
            CloneTo { a, b, .. } => {
                if m(a) == m(b) {
                    (0, m(b))
                } else {
                    (m(a), m(b))
                }
            }
            Swap { a, b } => (0, m(a) | m(b)),
            Damage { .. } | Yield => (0, 0),
        }
    }
    /// What this operation exercises, as violation kinds.
    pub fn cat(&self) -> u32 {
        use crate::ctx::k::*;
        use Op::*;
        PROGRESS
            | match self {
                Insert { .. } | Batch { .. } | Bulk { .. } => CONTENT | STRUCT,
                Remove { .. } | RemoveAt { .. } | RemoveSel { .. } | Pop { .. } => {
                    CONTENT | STRUCT | REMOVE
                }
                Drain { end: End::Forget, .. } => CONTENT | STRUCT | LEAK,
                Drain { .. } => CONTENT | STRUCT | DRAIN,
                MutIter { .. } => MUT,
                Visit { .. } => VISIT,
                Session { cursors, .. } => {
                    if cursors.iter().any(|q| matches!(q, Q::NnIter(_) | Q::NnD(_) | Q::NnDep(_))) {
                        QUERY | NN
                    } else {
                        QUERY
                    }
                }
                One { q, .. } => match q {
                    OneQ::Nn(_) | OneQ::NnD(_) | OneQ::Nns(_) | OneQ::NnsD(_) => NN,
                    OneQ::AtMut(_) | OneQ::AtIntMut(_) => QUERY | MUT,
                    _ => QUERY,
                },
                Join { .. } | SelfJoin { .. } => JOIN,
                CloneTo { .. } => CLONE,
                Swap { .. } => 0,
                Take { .. } | Consume { .. } => CONTENT | OWN,
                Save { .. } | Load { .. } | Restart { .. } => SNAP,
                Damage { .. } => DAMAGE,
                Yield => 0,
            }
    }
    /// The tree it works on (0 when none).
    pub fn main_slot(&self) -> u8 {
        use Op::*;
        match self {
            Insert { s, .. }
            | Batch { s, .. }
            | Bulk { s, .. }
            | Remove { s, .. }
            | RemoveAt { s, .. }
            | RemoveSel { s, .. }
            | Pop { s, .. }
            | Drain { s, .. }
            | MutIter { s, .. }
            | Visit { s, .. }
            | Session { s, .. }
            | One { s, .. }
            | Join { s, .. }
            | SelfJoin { s, .. }
            | Take { s }
            | Consume { s, .. }
            | Save { s, .. }
            | Load { s, .. }
            | Restart { s, .. } => *s,
            CloneTo { a, .. } | Swap { a, .. } => *a,
            Damage { .. } | Yield => 0,
        }
    }
    pub fn name(&self) -> &'static str {
        use Op::*;
        match self {
            Insert { .. } => "insert",
            Batch { .. } => "batch_insert",
            Bulk { .. } => "bulk_load",
            Remove { .. } => "remove",
            RemoveAt { .. } => "remove_at_point",
            RemoveSel { .. } => "remove_with_selection_function",
            Pop { .. } => "pop_nearest_neighbor",
            Drain { end: End::Forget, .. } => "drain_leaked",
            Drain { .. } => "drain",
            MutIter { .. } => "iter_mut",
            Visit { .. } => "visit",
            Session { .. } => "cursor_session",
            One { .. } => "one_shot",
            Join { .. } => "join",
            SelfJoin { .. } => "self_join",
            CloneTo { .. } => "clone",
            Swap { .. } => "swap",
            Take { .. } => "take",
            Consume { .. } => "into_iter",
            Save { .. } => "save",
            Load { .. } => "load",
            Restart { .. } => "crash_restart",
            Damage { .. } => "damage",
            Yield => "yield",
        }
    }
}

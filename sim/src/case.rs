//! One simulated run of any property: what is stored in replay files and shrunk.
use crate::rt::{Cfg, Dec};
use crate::scn::{Expect, Scn};
use serde_json::Value;

/// A case without concurrent callers (storage, transport, memory, hostile input): a list of
/// simulated events, run in a child process.
pub trait Seq {
    fn to_json(&self) -> Value;
    fn run(&self) -> !;
    /// Smaller cases to try, most aggressive first.
    fn shrinks(&self) -> Vec<Box<dyn Seq>>;
    fn boxed(&self) -> Box<dyn Seq>;
    fn needs_base(&self) -> bool {
        true
    }
}
pub enum Case {
    Threads { scn: Scn, exps: Vec<Expect>, cfg: Cfg },
    Seq(Box<dyn Seq>),
}
impl Case {
    pub fn clone_case(&self) -> Case {
        match self {
            Case::Threads { scn, exps, cfg } => Case::Threads { scn: scn.clone(), exps: exps.clone(), cfg: cfg.clone() },
            Case::Seq(s) => Case::Seq(s.boxed()),
        }
    }
    pub fn to_json(&self) -> Value {
        match self {
            Case::Threads { scn, .. } => scn.to_json(),
            Case::Seq(s) => s.to_json(),
        }
    }
}
pub fn decs_json(d: &[Dec]) -> Value {
    Value::Array(
        d.iter()
            .map(|x| {
                serde_json::json!([
                    match x.kind {
                        0 => "preempt",
                        1 => "next",
                        _ => "wake-fault",
                    },
                    x.tid,
                    x.opno,
                    x.at,
                    x.to
                ])
            })
            .collect(),
    )
}
pub fn decs_from_json(v: &Value) -> Vec<Dec> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|x| Dec {
                    kind: match x[0].as_str() {
                        Some("preempt") => 0,
                        Some("next") => 1,
                        _ => 2,
                    },
                    tid: x[1].as_u64().unwrap_or(0) as u8,
                    opno: x[2].as_u64().unwrap_or(0) as u32,
                    at: x[3].as_u64().unwrap_or(0),
                    to: x[4].as_u64().unwrap_or(0) as u8,
                    pad: 0,
                })
                .collect()
        })
        .unwrap_or_default()
}

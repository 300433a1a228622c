//! A scenario of concurrent callers: which threads make which calls on which instances, with
//! which faults; how it is driven inside the simulator and checked.
use crate::ops::*;
use crate::rt::{self, Cfg, S, stat};
use rlibphonenumber::PhoneNumberUtil;
use serde_json::{Value, json};
use std::cell::{Cell, RefCell};
use std::sync::Arc;
use subject::Out;

/// What the call returned when made alone on a fresh instance.
#[derive(Clone, Debug, Default)]
pub struct Expect {
    pub res: String,
    pub steps: u64,
    pub logs: u32,
    pub strs: u32,
    pub edges: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    /// A call; `inst`: 0 the shared instance, 1 the global one, 2..10 extra shared instances,
    /// 10.. instances owned by this thread.
    Call { op: usize, inst: u8, faults: Vec<Fault> },
    /// A truncation of a number owned by the thread, checked for all-or-nothing.
    Trunc { op: usize, inst: u8, faults: Vec<Fault> },
    Open { slot: u8, cc: Option<i32>, inst: u8 },
    Next { slot: u8, n: u32 },
    Close { slot: u8 },
    New { inst: u8 },
    Drop { inst: u8 },
    /// An enumeration is gone through in another way than item by item.
    Walk { cc: Option<i32>, inst: u8, how: u8, n: u32 },
    /// An enumeration is dropped as it is.
    Abandon { slot: u8 },
    Jump { ns: u64 },
    /// The wall clock is set.
    Skew { ns: i64 },
    /// Two instances owned by the thread change places in memory.
    Swap { a: u8, b: u8 },
    /// The thread ends here; what follows is done by the destructor of one of the application's
    /// thread-locals, which was first used before (or else after) everything else the thread did.
    Leave { early: bool },
}
impl Step {
    pub fn op(&self) -> Option<usize> {
        match self {
            Step::Call { op, .. } | Step::Trunc { op, .. } => Some(*op),
            _ => None,
        }
    }
    pub fn inst(&self) -> u8 {
        match self {
            Step::Call { inst, .. } | Step::Trunc { inst, .. } | Step::Open { inst, .. } | Step::Walk { inst, .. } | Step::New { inst } | Step::Drop { inst } => *inst,
            _ => 0,
        }
    }
    pub fn faults(&self) -> &[Fault] {
        match self {
            Step::Call { faults, .. } | Step::Trunc { faults, .. } => faults,
            _ => &[],
        }
    }
    pub fn faults_mut(&mut self) -> Option<&mut Vec<Fault>> {
        match self {
            Step::Call { faults, .. } | Step::Trunc { faults, .. } => Some(faults),
            _ => None,
        }
    }
    fn to_json(&self) -> Value {
        let fj = |f: &Vec<Fault>| f.iter().map(|x| x.to_json()).collect::<Vec<_>>();
        match self {
            Step::Call { op, inst, faults } => json!({"call": op, "inst": inst, "faults": fj(faults)}),
            Step::Trunc { op, inst, faults } => json!({"truncate": op, "inst": inst, "faults": fj(faults)}),
            Step::Open { slot, cc, inst } => json!({"open": slot, "cc": cc, "inst": inst}),
            Step::Next { slot, n } => json!({"next": slot, "n": n}),
            Step::Close { slot } => json!({"close": slot}),
            Step::New { inst } => json!({"new": inst}),
            Step::Drop { inst } => json!({"drop": inst}),
            Step::Walk { cc, inst, how, n } => json!({"walk": how, "n": n, "cc": cc, "inst": inst}),
            Step::Abandon { slot } => json!({"abandon": slot}),
            Step::Jump { ns } => json!({"jump_clock_ns": ns}),
            Step::Skew { ns } => json!({"skew_wall_ns": ns}),
            Step::Swap { a, b } => json!({"swap": a, "with": b}),
            Step::Leave { early } => json!({"leave_registered_early": early}),
        }
    }
    fn from_json(v: &Value) -> Option<Step> {
        let u = |k: &str| v.get(k).and_then(|x| x.as_u64());
        let fs = || v["faults"].as_array().map(|a| a.iter().map(Fault::from_json).collect()).unwrap_or_default();
        let inst = u("inst").unwrap_or(0) as u8;
        Some(if let Some(op) = u("call") {
            Step::Call { op: op as usize, inst, faults: fs() }
        } else if let Some(op) = u("truncate") {
            Step::Trunc { op: op as usize, inst, faults: fs() }
        } else if let Some(s) = u("open") {
            Step::Open { slot: s as u8, cc: v["cc"].as_i64().map(|x| x as i32), inst }
        } else if let Some(s) = u("next") {
            Step::Next { slot: s as u8, n: u("n")? as u32 }
        } else if let Some(s) = u("close") {
            Step::Close { slot: s as u8 }
        } else if let Some(s) = u("new") {
            Step::New { inst: s as u8 }
        } else if let Some(s) = u("drop") {
            Step::Drop { inst: s as u8 }
        } else if let Some(a) = u("swap") {
            Step::Swap { a: a as u8, b: u("with")? as u8 }
        } else if v["walk"].is_u64() {
            Step::Walk { cc: v["cc"].as_i64().map(|c| c as i32), inst: u("inst")? as u8, how: u("walk")? as u8, n: u("n")? as u32 }
        } else if v["abandon"].is_u64() {
            Step::Abandon { slot: u("abandon")? as u8 }
        } else if let Some(early) = v["leave_registered_early"].as_bool() {
            Step::Leave { early }
        } else if let Some(ns) = v["skew_wall_ns"].as_i64() {
            Step::Skew { ns }
        } else {
            Step::Jump { ns: u("jump_clock_ns")? }
        })
    }
}

/// Where instance 0 comes from.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Inst0 {
    /// Built before the run, with nothing called on it yet.
    Base,
    /// The same after long use: hundreds of patterns are compiled already.
    Full,
    /// Built inside the run, under the run's environment, by a thread of its own.
    Fresh,
    /// There is none: only the global instance is used.
    None,
    /// The one built before the run is dropped before it starts: in the whole process there are
    /// only the instances that the run's own steps build.
    Gone,
}
#[derive(Clone)]
pub struct Scn {
    pub prop: String,
    pub inst0: Inst0,
    pub extra: u8,
    pub log_level: u8,
    pub ops: Vec<Op>,
    /// Calls made one after the other before the threads start (instance warm-up / history).
    pub warm: Vec<usize>,
    pub threads: Vec<Vec<Step>>,
    /// Calls made by a thread of its own after all others have finished.
    pub after: Vec<usize>,
    pub hash_seed: u64,
    pub cpus: u32,
    pub env_fuzz: u64,
    pub clock_base: u64,
    pub clock_quantum: u64,
    pub lifo: bool,
    pub shadow: u8,
    /// How deep application code and library calls nest, and whether the innermost is cut short.
    pub nest: u8,
    pub nest_panic: bool,
    /// Steps one construction takes alone (0: unknown), and the edges taken exactly once by it.
    pub build_steps: u64,
    pub once_edges: Vec<u32>,
}
impl Scn {
    pub fn new(prop: &str) -> Scn {
        Scn {
            prop: prop.into(),
            inst0: Inst0::Base,
            extra: 0,
            log_level: 5,
            ops: vec![],
            warm: vec![],
            threads: vec![],
            after: vec![],
            hash_seed: 7,
            cpus: 8,
            env_fuzz: 0,
            clock_base: 1_700_000_000_000_000_000,
            clock_quantum: 1,
            lifo: false,
            shadow: 0,
            nest: 1,
            nest_panic: false,
            build_steps: 0,
            once_edges: vec![],
        }
    }
    pub fn to_json(&self) -> Value {
        json!({
            "inst0": match self.inst0 { Inst0::Base => "base", Inst0::Full => "full", Inst0::Fresh => "fresh", Inst0::None => "none", Inst0::Gone => "gone" },
            "extra": self.extra, "log_level": self.log_level,
            "calls": self.ops.iter().map(|o| o.to_json()).collect::<Vec<_>>(),
            "warm": self.warm, "after": self.after,
            "threads": self.threads.iter().map(|t| t.iter().map(|s| s.to_json()).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "hash_seed": self.hash_seed, "cpus": self.cpus, "env_fuzz": self.env_fuzz, "clock_base": self.clock_base,
            "clock_quantum": self.clock_quantum, "lifo": self.lifo, "shadow": self.shadow,
            "nest": self.nest, "nest_panic": self.nest_panic,
        })
    }
    pub fn from_json(prop: &str, v: &Value) -> Option<Scn> {
        let us = |k: &str| v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as usize).collect::<Vec<_>>()).unwrap_or_default();
        Some(Scn {
            prop: prop.into(),
            inst0: match v["inst0"].as_str()? {
                "base" => Inst0::Base,
                "full" => Inst0::Full,
                "fresh" => Inst0::Fresh,
                "gone" => Inst0::Gone,
                _ => Inst0::None,
            },
            extra: v["extra"].as_u64()? as u8,
            log_level: v["log_level"].as_u64()? as u8,
            ops: v["calls"].as_array()?.iter().map(Op::from_json).collect::<Option<Vec<_>>>()?,
            warm: us("warm"),
            after: us("after"),
            threads: v["threads"]
                .as_array()?
                .iter()
                .map(|t| t.as_array().map(|a| a.iter().map(Step::from_json).collect::<Option<Vec<_>>>()).unwrap_or(None))
                .collect::<Option<Vec<_>>>()?,
            hash_seed: v["hash_seed"].as_u64()?,
            cpus: v["cpus"].as_u64()? as u32,
            env_fuzz: v["env_fuzz"].as_u64()?,
            clock_base: v["clock_base"].as_u64()?,
            clock_quantum: v["clock_quantum"].as_u64()?,
            lifo: v["lifo"].as_bool()?,
            shadow: v["shadow"].as_u64().unwrap_or(0) as u8,
            nest: v["nest"].as_u64().unwrap_or(1) as u8,
            nest_panic: v["nest_panic"].as_bool().unwrap_or(false),
            build_steps: 0,
            once_edges: vec![],
        })
    }
    pub fn used_ops(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.warm.iter().chain(self.after.iter()).copied().collect();
        for t in &self.threads {
            for s in t {
                v.extend(s.op());
                for f in s.faults() {
                    if let Act::Reenter(o, _) = f.act {
                        v.push(o);
                    }
                }
            }
        }
        v.sort();
        v.dedup();
        v
    }
    /// Drops calls that nothing uses any more and renumbers the rest.
    pub fn compact(&mut self, exps: &mut Vec<Expect>) {
        let used = self.used_ops();
        let map = |o: usize| used.binary_search(&o).unwrap();
        self.ops = used.iter().map(|&i| self.ops[i].clone()).collect();
        *exps = used.iter().map(|&i| exps[i].clone()).collect();
        for o in self.warm.iter_mut().chain(self.after.iter_mut()) {
            *o = map(*o);
        }
        for t in self.threads.iter_mut() {
            for s in t.iter_mut() {
                match s {
                    Step::Call { op, faults, .. } | Step::Trunc { op, faults, .. } => {
                        *op = map(*op);
                        for f in faults {
                            if let Act::Reenter(o, _) = &mut f.act {
                                *o = map(*o);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    pub fn size(&self) -> usize {
        self.warm.len() + self.after.len() + self.threads.iter().map(|t| t.iter().map(|s| 1 + s.faults().len()).sum::<usize>()).sum::<usize>()
    }
    pub fn apply_env(&self, c: &mut Cfg) {
        c.hash_seed = self.hash_seed;
        c.cpus = self.cpus;
        c.env_fuzz = self.env_fuzz;
        c.clock_base = self.clock_base;
        c.clock_quantum = self.clock_quantum;
        c.lifo = self.lifo;
        c.shadow = self.shadow;
    }
}

pub static mut BASE: *const PhoneNumberUtil = std::ptr::null();
pub fn base() -> &'static PhoneNumberUtil {
    unsafe {
        assert!(!BASE.is_null());
        &*BASE
    }
}
pub fn build_base() {
    // In a thread of its own, so that its hash seeds do not depend on what this process did before.
    let f = || unsafe {
        if BASE.is_null() {
            BASE = Box::into_raw(Box::new(subject::new_instance()));
        }
    };
    if unsafe { BASE.is_null() } {
        crate::alloc::at_base(|| std::thread::spawn(f).join().expect("building an instance failed"));
    }
}
pub static mut FULL: *const PhoneNumberUtil = std::ptr::null();
/// The long history of the `Full` instance.
fn long_use(u: &PhoneNumberUtil, all: bool) {
    let c = crate::pool::Corpus::load();
    let mut ctx = Ctx::plain();
    for g in c.regs.iter().step_by(if all { 1 } else { 3 }) {
        for e in c.exs.iter().filter(|e| e.region == g.code && (all || e.ty == "mobile" || e.ty == "fixedLine")) {
            let n = crate::pool::num_from_digits(e.cc, &e.digits);
            exec(u, &Op { k: 17, n: n.clone(), ..Default::default() }, &mut ctx, u64::MAX);
            exec(u, &Op { k: 2, n, i: 2, ..Default::default() }, &mut ctx, u64::MAX);
            if all {
                exec(u, &Op { k: 0, s1: e.digits.clone(), s2: e.region.clone(), ..Default::default() }, &mut ctx, u64::MAX);
            }
        }
    }
}
/// Builds the instance with a long history; first in a process of its own, to see whether it
/// comes back from that.
pub fn build_full(shm: &'static mut rt::Shm, all: bool) {
    if unsafe { !FULL.is_null() } {
        return;
    }
    log::set_max_level(log::LevelFilter::Off);
    let o = crate::engine::in_child(shm, || {
        rt::run(Cfg { step_cap: 4_000_000_000, ..Cfg::default() }, vec![Box::new(move || {
            rt::op_begin(u64::MAX);
            if guarded(|| long_use(base(), all)).is_err() {
                rt::violation("panic", "long use");
            }
            rt::op_end();
        })]);
        rt::finish_ok()
    });
    if o.verdict != "ok" {
        return;
    }
    let f = move || unsafe {
        let u = Box::into_raw(Box::new(subject::new_instance()));
        long_use(&*u, all);
        FULL = u;
    };
    crate::alloc::at_full(|| std::thread::spawn(f).join().expect("building an instance failed"));
}
pub fn level(l: u8) -> log::LevelFilter {
    match l {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Error,
        2 => log::LevelFilter::Warn,
        3 => log::LevelFilter::Info,
        4 => log::LevelFilter::Debug,
        _ => log::LevelFilter::Trace,
    }
}

struct Shared {
    scn: &'static Scn,
    exps: &'static [Expect],
    inst0: *const PhoneNumberUtil,
    slack: u64,
}
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

/// A place of the application's that holds instances: one after the other, at one address.
struct Own {
    mem: Box<std::mem::MaybeUninit<PhoneNumberUtil>>,
    live: bool,
}
impl Own {
    fn get(&self) -> Option<&PhoneNumberUtil> {
        if self.live { Some(unsafe { self.mem.assume_init_ref() }) } else { None }
    }
    fn clear(&mut self) -> bool {
        std::mem::replace(&mut self.live, false) && {
            unsafe { self.mem.assume_init_drop() };
            true
        }
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        self.clear();
    }
}
struct Local {
    sh: &'static Shared,
    extra: Vec<Option<Arc<PhoneNumberUtil>>>,
    own: Vec<Own>,
}
static mut GLOBAL_SEEN: *const PhoneNumberUtil = std::ptr::null();

impl Local {
    fn inst(&self, i: u8) -> Option<&PhoneNumberUtil> {
        match i {
            0 => {
                if self.sh.inst0.is_null() { None } else { Some(unsafe { &*self.sh.inst0 }) }
            }
            1 => {
                static TOUCHING: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
                let first = unsafe { GLOBAL_SEEN.is_null() };
                if first && TOUCHING.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 0 {
                    stat(S::contended_first_use, 1);
                }
                let g = subject::global();
                stat(S::global_first_touch, 1);
                unsafe {
                    if GLOBAL_SEEN.is_null() {
                        GLOBAL_SEEN = g;
                    } else if GLOBAL_SEEN != g as *const _ {
                        rt::violation("global-identity", "two callers of the global instance got different instances");
                    }
                }
                Some(g)
            }
            2..=9 => self.extra.get(i as usize - 2).and_then(|x| x.as_deref()),
            _ => self.own.get(i as usize - 10).and_then(|x| x.get()),
        }
    }
    fn limit(&self, op: usize, inst: u8) -> u64 {
        self.sh.exps[op].steps * 60 + 6_000_000 + self.sh.slack + if inst == 1 { 60_000_000 } else { 0 }
    }
}
fn who() -> String {
    match rt::current() {
        Some(t) => format!("thread {} call {}", t.id, t.opno),
        None => "main".into(),
    }
}
/// Compares an answer with the answer of the same call alone on a fresh instance.
pub fn check(op: &Op, exp: &Expect, a: Answer, fired_panics: bool, note: &str) {
    stat(S::checks, 1);
    match a {
        Answer::Lost => {
            rt::digest(0x1057);
            if !fired_panics {
                rt::violation("wrong-answer", "a call was lost although no panic was injected into it");
            }
        }
        Answer::Value(v) => {
            rt::digest_str(&v);
            if op.any {
                stat(S::bad_requests, 1);
                if v.starts_with("PANIC") {
                    rt::violation("panic", &format!("{}{}: {} did not return: {}", who(), note, op.describe(), v));
                }
                return;
            }
            if v != exp.res {
                let kind = if v.starts_with("PANIC") { "panic" } else { "wrong-answer" };
                rt::violation(kind, &format!("{}{}: {} answered {} but alone on a fresh instance it answers {}", who(), note, op.describe(), v, exp.res));
            }
        }
    }
}
/// Application code calls the library from inside a call of the library.
fn reenter(l: &Local, op: usize, inst: u8, depth: u8) {
    stat(S::reentrant_calls, 1);
    let Some(u) = l.inst(inst) else { return };
    let (o, e, scn) = (&l.sh.scn.ops[op], &l.sh.exps[op], l.sh.scn);
    let site = if scn.log_level > 0 && e.logs > 0 { Site::Log } else { Site::Str };
    let act = if depth < scn.nest { Act::Reenter(op, inst) } else { Act::Panic };
    let faults = if depth < scn.nest || scn.nest_panic { vec![Fault { site, nth: 1, act }] } else { vec![] };
    let re = |o2: usize, i2: u8| reenter(l, o2, i2, depth + 1);
    let mut c = Ctx { logs: 0, strs: 0, depth: depth as u32, busy: false, faults: &faults, fired: 0, reenter: Some(&re) };
    let a = exec(u, o, &mut c, u64::MAX);
    let lost = matches!(a, Answer::Lost);
    check(o, e, a, c.fired > 0 && scn.nest_panic, " (made from inside application code)");
    if lost {
        // and the application code that made it does not survive either
        std::panic::resume_unwind(Box::new(Injected));
    }
}
fn call(l: &Local, op: usize, inst: u8, faults: &[Fault], lent: Option<&mut Vec<(u8, usize, usize, String)>>) {
    let (o, e) = (&l.sh.scn.ops[op], &l.sh.exps[op]);
    let re = |o2: usize, i2: u8| reenter(l, o2, i2, 1);
    let mut c = Ctx { logs: 0, strs: 0, depth: 0, busy: false, faults, fired: 0, reenter: Some(&re) };
    if inst == 1 {
        // The first touch of the global instance belongs to the call.
        rt::op_begin(u64::MAX);
        let r = with_ctx(&mut c, || {
            l.inst(1);
        });
        rt::op_end();
        match r {
            Ok(()) => {}
            Err(Some(m)) => rt::violation("panic", &format!("{}: touching the global instance panicked: {m}", who())),
            // cut short by us
            Err(None) => return,
        }
    }
    let Some(u) = l.inst(inst) else { return };
    let mut lent_new = None;
    let a = exec_with(u, o, &mut c, l.limit(op, inst), &mut |out| {
        if matches!(o.k, 18 | 19) {
            if let Out::Str(std::borrow::Cow::Borrowed(s)) = out {
                lent_new = Some((inst, s.as_ptr() as usize, s.len(), s.to_string()));
            }
        }
    });
    let fired = c.fired > 0 && faults.iter().any(|f| f.act == Act::Panic || l.sh.scn.nest_panic && matches!(f.act, Act::Reenter(..)));
    check(o, e, a, fired, "");
    if let (Some(v), Some(x)) = (lent, lent_new) {
        v.push(x);
    }
}
fn trunc(l: &Local, op: usize, inst: u8, faults: &[Fault]) {
    let (o, e) = (&l.sh.scn.ops[op], &l.sh.exps[op]);
    let re = |o2: usize, i2: u8| reenter(l, o2, i2, 1);
    let Some(u) = l.inst(inst) else { return };
    let orig = o.n.to_pn();
    let mut p = orig.clone();
    let mut cur: &[Fault] = faults;
    for attempt in 0..3 {
        let before = dump(&p);
        let mut c = Ctx { logs: 0, strs: 0, depth: 0, busy: false, faults: cur, fired: 0, reenter: Some(&re) };
        let r = exec_truncate(u, &mut p, &mut c, l.limit(op, inst));
        stat(S::checks, 1);
        let now = dump(&p);
        rt::digest_str(&now);
        match r {
            Ok(ok) => {
                stat(if ok { S::trunc_success } else { S::trunc_noop }, 1);
                if !ok && now != before {
                    rt::violation("truncate-torn", &format!("{}: truncate reported failure for {} but left {}", who(), before, now));
                }
                if ok {
                    let (a, b) = (orig.national_number(), p.national_number());
                    let mut x = a;
                    while x > b {
                        x /= 10;
                    }
                    let mut q = p.clone();
                    q.national_number = orig.national_number;
                    if x != b || dump(&q) != dump(&orig) {
                        rt::violation("truncate-torn", &format!("{}: truncate turned {} into {}, which differs by more than trailing digits", who(), dump(&orig), now));
                    }
                    let vo = Op { k: 28, n: Num::from_pn(&p), ..Default::default() };
                    match exec(u, &vo, &mut Ctx::plain(), u64::MAX) {
                        Answer::Value(v) if v == "true" => {}
                        Answer::Value(v) => {
                            rt::violation("truncate-torn", &format!("{}: truncate reported success for {} but left {}, whose validity is {}", who(), dump(&orig), now, v))
                        }
                        _ => {}
                    }
                }
                let got = format!("{ok} {now}");
                // After an interrupted attempt that had completed, a repetition finds a valid number.
                if got != e.res && !(attempt > 0 && ok && e.res == format!("true {now}")) {
                    rt::violation("wrong-answer", &format!("{}: truncate of {} (attempt {}) gave {} but alone on a fresh instance it gives {}", who(), dump(&orig), attempt + 1, got, e.res));
                }
                return;
            }
            Err(None) => {
                stat(S::trunc_interrupted, 1);
                rt::digest(0x1057);
                if now != before && e.res != format!("true {now}") {
                    rt::violation("truncate-torn", &format!("{}: truncate of {} was cut short by a panic in application code and left {}", who(), before, now));
                }
                if attempt > 0 {
                    cur = &[];
                }
            }
            Err(Some(m)) => rt::violation("panic", &format!("{}: truncate of {} panicked: {m}", who(), before)),
        }
    }
    // The fault fires at every attempt: repeat once without it.
    let mut c = Ctx::plain();
    let r = exec_truncate(u, &mut p, &mut c, u64::MAX);
    let now = dump(&p);
    let got = match r {
        Ok(b) => format!("{b} {now}"),
        Err(_) => "panic".into(),
    };
    if got != e.res {
        rt::violation("wrong-answer", &format!("{}: truncate of {} repeated after interruptions gave {} instead of {}", who(), dump(&orig), got, e.res));
    }
}

struct Held<'a> {
    it: Box<dyn ExactSizeIterator<Item = &'a str> + 'a>,
    items: Vec<(&'a str, String)>,
    len0: usize,
    cc: Option<i32>,
    inst: u8,
}
fn body(l: &mut Local, steps: &'static [Step]) {
    let mut held: Vec<Option<Held<'static>>> = (0..8).map(|_| None).collect();
    let mut lent: Vec<(u8, usize, usize, String)> = vec![];
    for st in steps {
        match st {
            Step::Call { op, inst, faults } => {
                if held.iter().any(|h| h.is_some()) {
                    stat(S::iter_calls_while_open, 1);
                }
                call(l, *op, *inst, faults, if lent.len() < 64 { Some(&mut lent) } else { None })
            }
            Step::Trunc { op, inst, faults } => trunc(l, *op, *inst, faults),
            Step::Open { slot, cc, inst } => {
                let Some(u) = l.inst(*inst) else { continue };
                let u: &'static PhoneNumberUtil = unsafe { &*(u as *const _) };
                rt::op_begin(60_000_000);
                let no = rlibphonenumber::PhoneNumber::new();
                // The arguments are plain temporaries: only the enumeration itself is lent out.
                let no: &'static rlibphonenumber::PhoneNumber = unsafe { &*(&no as *const _) };
                let r = guarded(|| match cc {
                    Some(c) => subject::call(u, 20, no, no, "", "", *c, false),
                    None => subject::call(u, 21, no, no, "", "", 0, false),
                });
                rt::op_end();
                match r {
                    Ok(Out::Iter(Some(it))) => {
                        stat(S::iter_opened, 1);
                        let len0 = it.len();
                        held[*slot as usize] = Some(Held { it, items: vec![], len0, cc: *cc, inst: *inst });
                    }
                    Ok(_) => {}
                    Err(m) => rt::violation("panic", &format!("{}: opening an enumeration panicked: {m}", who())),
                }
            }
            Step::Next { slot, n } => {
                if let Some(h) = held[*slot as usize].as_mut() {
                    rt::op_begin(60_000_000);
                    for _ in 0..*n {
                        advance(h);
                    }
                    rt::op_end();
                }
            }
            Step::Close { slot } => {
                if let Some(mut h) = held[*slot as usize].take() {
                    close(&mut h);
                }
            }
            Step::New { inst } => {
                rt::op_begin(400_000_000);
                let r = guarded(subject::new_instance);
                rt::op_end();
                match r {
                    Ok(b) => {
                        stat(S::instances_built, 1);
                        let i = *inst as usize - 10;
                        while l.own.len() <= i {
                            l.own.push(Own { mem: Box::new_uninit(), live: false });
                        }
                        lent.retain(|x| x.0 != *inst);
                        l.own[i].clear();
                        l.own[i].mem.write(b);
                        l.own[i].live = true;
                    }
                    Err(m) => rt::violation("panic", &format!("{}: building an instance panicked: {m}", who())),
                }
            }
            Step::Drop { inst } => {
                lent.retain(|x| x.0 != *inst);
                for h in held.iter_mut() {
                    if h.as_ref().is_some_and(|h| h.inst == *inst) {
                        close(&mut h.take().unwrap());
                    }
                }
                rt::op_begin(60_000_000);
                let r = guarded(|| {
                    if *inst >= 10 {
                        if let Some(x) = l.own.get_mut(*inst as usize - 10) {
                            if x.clear() {
                                stat(S::instances_dropped, 1);
                            }
                        }
                    } else if *inst >= 2 {
                        if let Some(x) = l.extra.get_mut(*inst as usize - 2) {
                            if let Some(a) = x.take() {
                                if Arc::strong_count(&a) == 1 {
                                    stat(S::instances_dropped, 1);
                                }
                            }
                        }
                    }
                });
                rt::op_end();
                if let Err(m) = r {
                    rt::violation("panic", &format!("{}: dropping an instance panicked: {m}", who()));
                }
            }
            Step::Walk { cc, inst, how, n } => {
                let Some(u) = l.inst(*inst) else { continue };
                let u: &'static PhoneNumberUtil = unsafe { &*(u as *const _) };
                rt::op_begin(60_000_000);
                let r = guarded(|| subject::walk(u, *cc, *how, *n as usize));
                rt::op_end();
                stat(S::iter_walks, 1);
                match r {
                    Ok(None) => {}
                    Ok(Some((want, items))) => {
                        let mut v = items.clone();
                        v.sort();
                        v.dedup();
                        rt::digest(items.len() as u64);
                        if items.len() != want || v.len() != items.len() {
                            rt::violation("enumeration", &format!("{}: an enumeration (calling code {cc:?}) gone through in way {how} ({n}) yielded {} items, {} of them distinct, not {}", who(), items.len(), v.len(), want as isize));
                        }
                        let exp = unsafe { &*(&raw const ENUM_EXPECT) };
                        if let Some((_, w)) = exp.iter().find(|x| x.0 == *cc) {
                            let all = w.split(": ").nth(1).unwrap_or("");
                            if let Some(x) = v.iter().find(|x| !all.split(',').any(|y| y == **x)) {
                                rt::violation("enumeration", &format!("{}: an enumeration (calling code {cc:?}) gone through in way {how} ({n}) yielded {x}, which is not in it: {w}", who()));
                            }
                        }
                    }
                    Err(m) => rt::violation("panic", &format!("{}: going through an enumeration panicked: {m}", who())),
                }
            }
            Step::Abandon { slot } => {
                rt::op_begin(60_000_000);
                if let Err(m) = guarded(|| drop(held[*slot as usize].take())) {
                    rt::violation("panic", &format!("{}: dropping an enumeration panicked: {m}", who()));
                }
                rt::op_end();
            }
            Step::Jump { ns } => rt::jump_clock(*ns),
            Step::Skew { ns } => rt::skew_wall(*ns),
            Step::Leave { .. } => {}
            Step::Swap { a, b } => {
                // Two instances change places.
                lent.retain(|x| x.0 != *a && x.0 != *b);
                for h in held.iter_mut() {
                    if h.as_ref().is_some_and(|h| h.inst == *a || h.inst == *b) {
                        close(&mut h.take().unwrap());
                    }
                }
                let (a, b) = ((*a).min(*b) as usize - 10, (*a).max(*b) as usize - 10);
                if a < b && b < l.own.len() && l.own[a].live && l.own[b].live {
                    stat(S::instances_moved, 1);
                    let (x, y) = l.own.split_at_mut(b);
                    unsafe { std::mem::swap(x[a].mem.assume_init_mut(), y[0].mem.assume_init_mut()) };
                }
            }
        }
        recheck(&lent);
    }
    for h in held.iter_mut() {
        if let Some(mut h) = h.take() {
            close(&mut h);
        }
    }
    recheck(&lent);
}
fn recheck(lent: &[(u8, usize, usize, String)]) {
    for (_, p, n, s) in lent {
        stat(S::lent_answers_rechecked, 1);
        let now = unsafe { std::slice::from_raw_parts(*p as *const u8, *n) };
        if now != s.as_bytes() {
            rt::violation("lent-answer-changed", &format!("{}: an answer lent out as {:?} now reads {:?}", who(), s, String::from_utf8_lossy(now)));
        }
    }
}
fn advance(h: &mut Held<'static>) -> bool {
    let before = h.it.len();
    let r = guarded(|| h.it.next());
    let Ok(x) = r else { rt::violation("panic", &format!("{}: advancing an enumeration panicked: {}", who(), r.unwrap_err())) };
    stat(S::iter_items, 1);
    let bad = match (&x, before) {
        (Some(_), 0) => Some("yielded an item with no length left"),
        (None, b) if b > 0 => Some("ended before its length was used up"),
        (Some(_), b) if h.it.len() != b - 1 => Some("did not shorten by one"),
        _ => None,
    };
    if let Some(b) = bad {
        rt::violation("enumeration", &format!("{}: an open enumeration {b} (after {} of {} items)", who(), h.items.len(), h.len0));
    }
    match x {
        Some(s) => {
            rt::digest(s.len() as u64);
            h.items.push((s, s.to_string()));
            true
        }
        None => false,
    }
}
fn close(h: &mut Held<'static>) {
    rt::op_begin(60_000_000);
    let mut n = 0;
    while advance(h) {
        n += 1;
        if n > 100_000 {
            rt::violation("enumeration", "an open enumeration does not end");
        }
    }
    rt::op_end();
    stat(S::checks, 1);
    for (now, then) in &h.items {
        if now != then {
            rt::violation("lent-answer-changed", &format!("{}: an enumerated item lent out as {then:?} now reads {now:?}", who()));
        }
    }
    let mut v: Vec<&String> = h.items.iter().map(|x| &x.1).collect();
    let n = v.len();
    v.sort();
    v.dedup();
    if v.len() != n || n != h.len0 {
        rt::violation("enumeration", &format!("{}: an open enumeration yielded {} items, {} of them distinct, its length at opening was {}", who(), n, v.len(), h.len0));
    }
    let want = unsafe { &*(&raw const ENUM_EXPECT) };
    #[allow(static_mut_refs)]
    if let Some((_, w)) = want.iter().find(|x| x.0 == h.cc) {
        let got = canon_items(h.items.iter().map(|x| x.1.clone()).collect(), false);
        if &got != w {
            rt::violation("enumeration", &format!("{}: an open enumeration (calling code {:?}) yielded {} but alone on a fresh instance {}", who(), h.cc, got, w));
        }
    }
}
/// Expected enumerations, by calling code (None: supported regions).
pub static mut ENUM_EXPECT: Vec<(Option<i32>, String)> = vec![];

/// What a thread still does when it is ending.
struct Late(Cell<Option<(&'static Shared, &'static [Step])>>);
impl Drop for Late {
    fn drop(&mut self) {
        if let Some((sh, steps)) = self.0.take() {
            stat(S::calls_at_thread_end, steps.len() as u64);
            body(&mut Local { sh, extra: vec![], own: vec![] }, steps);
        }
    }
}
thread_local! { static LATE: Late = const { Late(Cell::new(None)) }; }
thread_local! { static DUMMY: RefCell<u8> = const { RefCell::new(0) }; }

/// Runs the scenario in this (child) process and reports through the shared area.
pub fn run_child(scn: Scn, exps: Vec<Expect>, cfg: Cfg) -> ! {
    DUMMY.with(|_| {});
    let scn: &'static Scn = Box::leak(Box::new(scn));
    let exps: &'static [Expect] = Box::leak(exps.into_boxed_slice());
    log::set_max_level(level(scn.log_level));
    stat(S::runs, 1);
    // Enumerations are expected to be what the solo calls 20/21 of the scenario answer.
    for (o, e) in scn.ops.iter().zip(exps.iter()) {
        match o.k {
            20 if e.res != "None" => unsafe { (*(&raw mut ENUM_EXPECT)).push((Some(o.i), e.res.clone())) },
            21 => unsafe { (*(&raw mut ENUM_EXPECT)).push((None, e.res.clone())) },
            _ => {}
        }
    }
    if scn.env_fuzz != 0 {
        stat(S::env_variants, 1);
        let mut r = crate::rng::Rng::new(scn.env_fuzz);
        for n in ["LANG", "LC_ALL", "LC_NUMERIC", "TZ", "HOME", "USER", "HOSTNAME", "RUST_LOG", "RUST_BACKTRACE", "COUNTRY", "REGION", "TMPDIR", "DEBUG", "PHONE_REGION"] {
            if r.chance(1, 2) {
                let v = *r.pick(&["C", "de_DE.UTF-8", "tr_TR", "en_US", "1", "0", "", "DE", "US", "ar_EG.UTF-8", "America/New_York", "trace", "/nonexistent"]);
                unsafe { std::env::set_var(n, v) };
            }
        }
        // Other addresses, other process.
        PLACE.store(scn.env_fuzz, std::sync::atomic::Ordering::Relaxed);
        std::mem::forget(vec![0u8; r.range(1, 200_000) as usize]);
        for _ in 0..r.n(50) {
            std::mem::forget(vec![0u8; r.range(1, 300) as usize]);
        }
        unsafe { rt::PID = r.range(2, 4_000_000) as i32 };
    }
    static mut SHARED: *const Shared = std::ptr::null();
    static mut EXTRA: Vec<Arc<PhoneNumberUtil>> = vec![];
    static mut FRESH: *const PhoneNumberUtil = std::ptr::null();
    let slack = scn.build_steps * 4;
    let mut one = Cfg { strat: rt::Strat::Serial, seed: cfg.seed, ..Cfg::default() };
    scn.apply_env(&mut one);
    if scn.inst0 == Inst0::Gone {
        unsafe {
            if !BASE.is_null() {
                drop(Box::from_raw(BASE as *mut PhoneNumberUtil));
                BASE = std::ptr::null();
            }
        }
    }
    if scn.inst0 == Inst0::Fresh || scn.extra > 0 {
        let n = scn.extra;
        let fresh = scn.inst0 == Inst0::Fresh;
        rt::run(one.clone(), vec![Box::new(move || {
            for i in 0..n + fresh as u8 {
                rt::op_begin(400_000_000);
                let r = guarded(subject::new_instance);
                rt::op_end();
                stat(S::instances_built, 1);
                match r {
                    Ok(u) => unsafe {
                        if fresh && i == n {
                            FRESH = Box::into_raw(Box::new(u));
                        } else {
                            (*(&raw mut EXTRA)).push(Arc::new(u));
                        }
                    },
                    Err(m) => rt::violation("panic", &format!("building an instance panicked: {m}")),
                }
            }
        })]);
    }
    let inst0 = match scn.inst0 {
        Inst0::Base => base() as *const _,
        // If long use broke it already, the runs that warm an instance up themselves tell.
        Inst0::Full => unsafe { if FULL.is_null() { base() } else { FULL } },
        Inst0::Fresh => unsafe { FRESH },
        Inst0::None | Inst0::Gone => std::ptr::null(),
    };
    unsafe { SHARED = Box::into_raw(Box::new(Shared { scn, exps, inst0, slack })) };
    let sh: &'static Shared = unsafe { &*SHARED };
    let target = if inst0.is_null() { 1 } else { 0 };
    if !scn.warm.is_empty() {
        rt::run(one.clone(), vec![Box::new(move || {
            let l = Local { sh, extra: vec![], own: vec![] };
            for &o in &scn.warm {
                call(&l, o, target, &[], None);
            }
        })]);
    }
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let mut names = crate::rng::Rng::new(scn.env_fuzz ^ 0x6e61);
    for steps in &scn.threads {
        // Threads are called what the application likes.
        let name = if scn.env_fuzz != 0 && names.chance(1, 2) { Some(*names.pick(&["main", "worker-1", "tokio-runtime-worker", "", "rayon-7", "\u{fc}"])) } else { None };
        let extra: Vec<Option<Arc<PhoneNumberUtil>>> = unsafe { (*(&raw const EXTRA)).iter().map(|a| Some(a.clone())).collect() };
        let work = move || {
            let mut l = Local { sh, extra, own: vec![] };
            let leave = steps.iter().position(|s| matches!(s, Step::Leave { .. }));
            if leave.is_some_and(|i| matches!(steps[i], Step::Leave { early: true })) {
                LATE.with(|_| {});
            }
            body(&mut l, &steps[..leave.unwrap_or(steps.len())]);
            if let Some(i) = leave {
                LATE.with(|c| c.0.set(Some((sh, &steps[i + 1..]))));
            }
            // Instances still held are dropped by this thread, in call context.
            rt::op_begin(60_000_000);
            l.own.clear();
            l.extra.clear();
            rt::op_end();
        };
        match name {
            None => bodies.push(Box::new(work)),
            Some(n) => bodies.push(Box::new(move || {
                let t = std::thread::Builder::new().name(n.to_string()).spawn(work).expect("spawning a thread");
                t.join().expect("the thread panicked");
            })),
        }
    }
    unsafe { (*(&raw mut EXTRA)).clear() };
    let mut cfg = cfg;
    scn.apply_env(&mut cfg);
    if !bodies.is_empty() {
        rt::run(cfg, bodies);
    }
    if !scn.after.is_empty() {
        rt::run(one, vec![Box::new(move || {
            let l = Local { sh, extra: vec![], own: vec![] };
            for &o in &scn.after {
                call(&l, o, target, &[], None);
            }
        })]);
    }
    // Built once: the steps that construction takes exactly once were taken exactly once.
    if !scn.once_edges.is_empty() {
        #[allow(static_mut_refs)]
        let mut twice = 0;
        for &e in &scn.once_edges {
            if unsafe { (*(&raw const rt::EDGE_CNT))[e as usize] } > 1 {
                twice += 1;
            }
        }
        let n = scn.once_edges.len();
        if twice * 4 > n {
            rt::violation("built-twice", &format!("the global instance was built more than once ({twice} of {n} once-only construction steps ran again)"));
        }
    }
    let st = |s: S| rt::shm().run_stats[s as usize];
    let enough = match scn.prop.as_str() {
        "C02" | "C03" => st(S::checks) >= 2,
        "C05" | "C06" => st(S::log_panic) + st(S::str_panic) + st(S::log_reenter) + st(S::str_reenter) + st(S::log_stall) + st(S::str_stall) + st(S::log_block) + st(S::str_block) > 0,
        "C08" => st(S::trunc_interrupted) > 0 || st(S::preempt_in_call) > 0,
        "C11" => st(S::bad_requests) > 0,
        "C12" => st(S::iter_calls_while_open) > 0 || st(S::lent_answers_rechecked) > 0,
        "C13" => st(S::instances_built) + st(S::instances_dropped) > 0,
        _ => false,
    };
    if enough {
        rt::shm().nontrivial = 1;
    }
    rt::finish_ok()
}

/// Makes one call alone on the pristine base instance and reports answer and profile.
pub fn reference_child(op: &Op) -> ! {
    let op: &'static Op = Box::leak(Box::new(op.clone()));
    log::set_max_level(log::LevelFilter::Trace);
    rt::run(Cfg { step_cap: 4_000_000_000, ..Cfg::default() }, vec![Box::new(move || {
        let mut c = Ctx::plain();
        let t0 = rt::current().unwrap().step;
        let a = exec(base(), op, &mut c, u64::MAX);
        let steps = rt::current().unwrap().step - t0;
        let res = match a {
            Answer::Value(s) => s,
            Answer::Lost => "LOST".into(),
        };
        let s = rt::shm();
        s.push_out(&steps.to_le_bytes());
        s.push_out(&c.logs.to_le_bytes());
        s.push_out(&c.strs.to_le_bytes());
        let n = unsafe { rt::NEDGES } as usize + 1;
        let mut bits = vec![0u8; n.div_ceil(8)];
        for i in 0..n {
            if unsafe { (*(&raw const rt::EDGE_CNT))[i] } != 0 {
                bits[i / 8] |= 1 << (i % 8);
            }
        }
        s.push_out(&(bits.len() as u32).to_le_bytes());
        s.push_out(&bits);
        s.push_out(res.as_bytes());
    })]);
    rt::finish_ok()
}

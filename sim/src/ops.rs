//! Operations, their arguments, canonical answers, and the application code the library calls
//! back into (logger, string conversion), through which faults are injected.
use crate::rt::{self, S, stat};
use protobuf::{EnumOrUnknown, MessageField as _Mf};
use rlibphonenumber::{CountryCodeSource, PhoneNumber, PhoneNumberUtil};
use serde_json::{Value, json};
use std::cell::Cell;
use std::fmt::Write as _;
use subject::Out;
#[allow(dead_code)]
type _Unused = _Mf<PhoneNumber>;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Num {
    pub cc: Option<i32>,
    pub nn: Option<u64>,
    pub ext: Option<String>,
    pub ilz: Option<bool>,
    pub nlz: Option<i32>,
    pub raw: Option<String>,
    pub ccs: Option<i32>,
    pub pcc: Option<String>,
}
impl Num {
    pub fn new(cc: i32, nn: u64) -> Num {
        Num { cc: Some(cc), nn: Some(nn), ..Default::default() }
    }
    pub fn to_pn(&self) -> PhoneNumber {
        let mut p = PhoneNumber::new();
        p.country_code = self.cc;
        p.national_number = self.nn;
        p.extension = self.ext.clone();
        p.italian_leading_zero = self.ilz;
        p.number_of_leading_zeros = self.nlz;
        p.raw_input = self.raw.clone();
        p.country_code_source = self.ccs.map(EnumOrUnknown::from_i32);
        p.preferred_domestic_carrier_code = self.pcc.clone();
        p
    }
    pub fn from_pn(p: &PhoneNumber) -> Num {
        Num {
            cc: p.country_code,
            nn: p.national_number,
            ext: p.extension.clone(),
            ilz: p.italian_leading_zero,
            nlz: p.number_of_leading_zeros,
            raw: p.raw_input.clone(),
            ccs: p.country_code_source.map(|e: EnumOrUnknown<CountryCodeSource>| e.value()),
            pcc: p.preferred_domestic_carrier_code.clone(),
        }
    }
    pub fn to_json(&self) -> Value {
        let mut m = serde_json::Map::new();
        macro_rules! f { ($($n:ident)*) => { $( if let Some(v) = &self.$n { m.insert(stringify!($n).into(), json!(v)); } )* } }
        f!(cc nn ext ilz nlz raw ccs pcc);
        Value::Object(m)
    }
    pub fn from_json(v: &Value) -> Num {
        let s = |k: &str| v.get(k).and_then(|x| x.as_str()).map(|x| x.to_string());
        let i = |k: &str| v.get(k).and_then(|x| x.as_i64()).map(|x| x as i32);
        Num {
            cc: i("cc"),
            nn: v.get("nn").and_then(|x| x.as_u64()),
            ext: s("ext"),
            ilz: v.get("ilz").and_then(|x| x.as_bool()),
            nlz: i("nlz"),
            raw: s("raw"),
            ccs: i("ccs"),
            pcc: s("pcc"),
        }
    }
}

pub const KINDS: [&str; 32] = [
    "parse", "parse_and_keep_raw_input", "format", "format_in_original_format", "format_national_number_with_carrier_code",
    "format_number_for_mobile_dialing", "format_out_of_country_calling_number", "format_out_of_country_keeping_alpha_chars",
    "can_be_internationally_dialled", "convert_alpha_characters_in_number", "get_country_code_for_region", "get_example_number",
    "get_example_number_for_type", "get_invalid_example_number", "get_length_of_geographical_area_code",
    "get_length_of_national_destination_code", "get_national_significant_number", "get_number_type",
    "get_region_code_for_country_code", "get_region_code_for_number", "get_region_codes_for_country_code",
    "get_supported_regions", "is_alpha_number", "is_nanpa_country", "is_number_geographical", "is_number_match",
    "is_possible_number", "is_possible_number_with_reason", "is_valid_number", "is_valid_number_for_region",
    "truncate_too_long_number", "parse_then_everything",
];
pub const TRUNCATE: u8 = 30;
/// Parse, keeping the raw input, then every operation on the parsed number.
pub const PARSE_THEN: u8 = 31;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Op {
    pub k: u8,
    pub n: Num,
    pub m: Num,
    pub s1: String,
    pub s2: String,
    pub i: i32,
    pub b: bool,
    /// If not empty, the number is what these bytes decode to (possibly nothing).
    pub rec: Vec<u8>,
    /// The call may answer anything, as long as it returns without a panic.
    pub any: bool,
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
/// Largest number of leading zeros the search feeds to the library; what larger ones do is a
/// recorded finding (see known_findings.txt) and is shown separately.
pub const NLZ_MAX: i32 = 4096;
impl Op {
    pub fn uses_num(&self) -> bool {
        matches!(self.k, 2..=8 | 14..=17 | 19 | 24..=30)
    }
    pub fn to_json(&self) -> Value {
        let mut m = serde_json::Map::new();
        m.insert("op".into(), json!(KINDS[self.k as usize]));
        if !self.rec.is_empty() {
            m.insert("record".into(), json!(hex(&self.rec)));
        } else if self.uses_num() {
            m.insert("number".into(), self.n.to_json());
        }
        if self.any {
            m.insert("any_answer".into(), json!(true));
        }
        if self.k == 25 {
            m.insert("number2".into(), self.m.to_json());
        }
        if !self.s1.is_empty() {
            m.insert("text".into(), json!(self.s1));
        }
        if !self.s2.is_empty() {
            m.insert("region".into(), json!(self.s2));
        }
        if self.i != 0 {
            m.insert("i".into(), json!(self.i));
        }
        if self.b {
            m.insert("flag".into(), json!(true));
        }
        Value::Object(m)
    }
    pub fn from_json(v: &Value) -> Option<Op> {
        let k = KINDS.iter().position(|n| Some(*n) == v["op"].as_str())? as u8;
        let s = |k: &str| v.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
        Some(Op {
            k,
            n: Num::from_json(&v["number"]),
            m: Num::from_json(&v["number2"]),
            s1: s("text"),
            s2: s("region"),
            i: v["i"].as_i64().unwrap_or(0) as i32,
            b: v["flag"].as_bool().unwrap_or(false),
            rec: unhex(&s("record")),
            any: v["any_answer"].as_bool().unwrap_or(false),
        })
    }
    pub fn describe(&self) -> String {
        self.to_json().to_string()
    }
}

// ---------------------------------------------------------------- faults in application code
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Site {
    Log,
    Str,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Panic,
    Stall(u64),
    BlockOthers,
    /// op index (into the scenario's table), instance code
    Reenter(usize, u8),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub site: Site,
    pub nth: u32,
    pub act: Act,
}
impl Fault {
    pub fn to_json(&self) -> Value {
        let s = if self.site == Site::Log { "logger" } else { "string conversion" };
        match &self.act {
            Act::Panic => json!({"site": s, "nth": self.nth, "act": "panic"}),
            Act::Stall(k) => json!({"site": s, "nth": self.nth, "act": "stall", "steps": k}),
            Act::BlockOthers => json!({"site": s, "nth": self.nth, "act": "block until the others are done"}),
            Act::Reenter(o, i) => json!({"site": s, "nth": self.nth, "act": "reenter", "call": o, "inst": i}),
        }
    }
    pub fn from_json(v: &Value) -> Fault {
        Fault {
            site: if v["site"] == "logger" { Site::Log } else { Site::Str },
            nth: v["nth"].as_u64().unwrap_or(0) as u32,
            act: match v["act"].as_str().unwrap_or("") {
                "panic" => Act::Panic,
                "stall" => Act::Stall(v["steps"].as_u64().unwrap_or(0)),
                "reenter" => Act::Reenter(v["call"].as_u64().unwrap_or(0) as usize, v["inst"].as_u64().unwrap_or(0) as u8),
                _ => Act::BlockOthers,
            },
        }
    }
}
/// Panic payload of an injected panic.
pub struct Injected;

pub struct Ctx<'a> {
    pub logs: u32,
    pub strs: u32,
    pub depth: u32,
    /// Application code of this call is running already.
    pub busy: bool,
    pub faults: &'a [Fault],
    pub fired: u32,
    pub reenter: Option<&'a dyn Fn(usize, u8)>,
}
impl Ctx<'_> {
    pub fn plain() -> Ctx<'static> {
        Ctx { logs: 0, strs: 0, depth: 0, busy: false, faults: &[], fired: 0, reenter: None }
    }
}
thread_local! {
    static PANIC_MSG: Cell<*mut String> = const { Cell::new(std::ptr::null_mut()) };
    /// Lets callbacks work on threads that are not simulated (main thread of a child).
    static CTX: Cell<*mut ()> = const { Cell::new(std::ptr::null_mut()) };
}
/// What the last panic of this thread said. (Usable while the thread's locals are being destroyed.)
fn panic_msg() -> String {
    let p = PANIC_MSG.with(|c| c.replace(std::ptr::null_mut()));
    if p.is_null() { String::new() } else { *unsafe { Box::from_raw(p) } }
}
fn callback(site: Site) {
    let p = CTX.with(|c| c.get()) as *mut Ctx;
    if p.is_null() {
        return;
    }
    let c = unsafe { &mut *p };
    if c.busy {
        return;
    }
    let n = match site {
        Site::Log => {
            c.logs += 1;
            c.logs
        }
        Site::Str => {
            c.strs += 1;
            c.strs
        }
    };
    let fs = c.faults;
    for f in fs {
        if f.site != site || f.nth != n {
            continue;
        }
        c.fired += 1;
        let log = site == Site::Log;
        match &f.act {
            Act::Panic => {
                stat(if log { S::log_panic } else { S::str_panic }, 1);
                rt::digest(0xfa01);
                std::panic::resume_unwind(Box::new(Injected));
            }
            Act::Stall(k) => {
                stat(if log { S::log_stall } else { S::str_stall }, 1);
                rt::digest(0xfa02);
                rt::op_unlimited();
                rt::stall_steps(*k);
            }
            Act::BlockOthers => {
                stat(if log { S::log_block } else { S::str_block }, 1);
                rt::digest(0xfa03);
                rt::op_unlimited();
                rt::stall_until_others_done();
            }
            Act::Reenter(op, inst) => {
                stat(if log { S::log_reenter } else { S::str_reenter }, 1);
                rt::digest(0xfa04);
                rt::op_unlimited();
                if let Some(r) = c.reenter {
                    c.busy = true;
                    r(*op, *inst);
                    c.busy = false;
                }
            }
        }
    }
}
/// A caller's string type whose conversion runs application code.
pub struct SimStr<'a>(pub &'a str);
impl AsRef<str> for SimStr<'_> {
    fn as_ref(&self) -> &str {
        callback(Site::Str);
        self.0
    }
}
struct Sink(u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}
struct SimLogger;
impl log::Log for SimLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let mut s = Sink(0xcbf29ce484222325);
        let _ = write!(s, "{}", r.args());
        stat(S::logs, 1);
        rt::digest(s.0);
        callback(Site::Log);
    }
    fn flush(&self) {}
}
static LOGGER: SimLogger = SimLogger;
pub fn install() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .map(|s| s.as_str())
            .or(i.payload().downcast_ref::<&str>().copied())
            .unwrap_or("?");
        let l = i.location().map(|l| format!("{}:{}", l.file().rsplit_once("/repo/").map_or(l.file().to_string(), |x| format!("repo/{}", x.1)), l.line())).unwrap_or_default();
        let s = format!("{m} at {l}");
        if rt::current().is_none() {
            eprintln!("panic in the simulator: {s} ({:?})", i.location());
        }
        PANIC_MSG.with(|c| c.set(Box::into_raw(Box::new(s))));
    }));
}

// ---------------------------------------------------------------- canonical answers
pub fn dump(p: &PhoneNumber) -> String {
    let n = Num::from_pn(p);
    let mut s = String::new();
    let _ = write!(s, "{{cc={:?} nn={:?} ext={:?} ilz={:?} nlz={:?} raw={:?} ccs={:?} pcc={:?}", n.cc, n.nn, n.ext, n.ilz, n.nlz, n.raw, n.ccs, n.pcc);
    let u = p.special_fields.unknown_fields().iter().count();
    if u > 0 {
        let _ = write!(s, " unknown={u}");
    }
    s.push('}');
    s
}
/// Drains an enumeration, checking that it keeps its own promises.
pub fn drain<'a>(mut it: Box<dyn ExactSizeIterator<Item = &'a str> + 'a>, items: &mut Vec<String>) -> Result<(), String> {
    loop {
        let left = it.len();
        match it.next() {
            Some(x) => {
                if left == 0 {
                    return Err("enumeration yields more items than its length says".into());
                }
                items.push(x.to_string())
            }
            None => {
                if left != 0 {
                    return Err(format!("enumeration ended with {left} items left by its length"));
                }
                return Ok(());
            }
        }
        if items.len() > 100_000 {
            return Err("enumeration does not end".into());
        }
    }
}
pub fn canon_items(mut v: Vec<String>, first_matters: bool) -> String {
    let first = v.first().cloned().unwrap_or_default();
    v.sort();
    let mut s = format!("{} items", v.len());
    if first_matters {
        let _ = write!(s, ", first {first}");
    }
    let _ = write!(s, ": {}", v.join(","));
    s
}
pub fn canon(o: Out) -> String {
    match o {
        Out::Bool(b) => b.to_string(),
        Out::Str(s) => format!("{s:?}"),
        Out::OptI32(x) => format!("{x:?}"),
        Out::Parse(r) => match r {
            Ok(p) => dump(&p),
            Err(e) => format!("Err({e:?}: {e})"),
        },
        Out::Example(r) => match r {
            Ok(p) => dump(&p),
            Err(e) => format!("Err({e:?}: {e})"),
        },
        Out::Usize(x) => x.to_string(),
        Out::Type(x) => format!("{x:?}"),
        Out::Match(x) => format!("{x:?}"),
        Out::Reason(x) => format!("{x:?}"),
        Out::Iter(None) => "None".into(),
        Out::Iter(Some(it)) => {
            let mut v = vec![];
            match drain(it, &mut v) {
                Ok(()) => canon_items(v, false),
                Err(e) => e,
            }
        }
    }
}

pub enum Answer {
    Value(String),
    /// The call was unwound by a panic we injected.
    Lost,
}

/// Where texts lie in memory: nowhere in particular, if this is not zero.
pub static PLACE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// The same text at another address, with other bytes before and after it.
fn placed<'a>(s: &'a str, b: &'a mut [u8; 320]) -> &'a str {
    let p = PLACE.load(std::sync::atomic::Ordering::Relaxed);
    if p == 0 || s.is_empty() || s.len() > 300 {
        return s;
    }
    let p = crate::rng::mix(p, 1);
    PLACE.store(p | 1, std::sync::atomic::Ordering::Relaxed);
    b.fill(b" 0+9x;\0\xff"[p as usize >> 8 & 7]);
    let at = (b.as_ptr() as usize).wrapping_neg() % 16 + p as usize % 16;
    let at = at.min(320 - s.len());
    b[at..at + s.len()].copy_from_slice(s.as_bytes());
    std::str::from_utf8(&b[at..at + s.len()]).unwrap()
}
/// Runs `op` on `u` and hands the raw answer to `f`; panics become answers.
pub fn exec_with(u: &PhoneNumberUtil, op: &Op, ctx: &mut Ctx, limit: u64, f: &mut dyn FnMut(&Out)) -> Answer {
    let mut pn = if op.uses_num() { op.n.to_pn() } else { PhoneNumber::new() };
    let pm = if op.k == 25 { op.m.to_pn() } else { PhoneNumber::new() };
    let (mut b1, mut b2) = ([0u8; 320], [0u8; 320]);
    let (s1, s2) = (placed(&op.s1, &mut b1), placed(&op.s2, &mut b2));
    let nested = ctx.depth > 0;
    let old = CTX.with(|c| c.replace(ctx as *mut Ctx as *mut ()));
    if !nested {
        rt::op_begin(limit);
    }
    stat(S::ops, 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if !op.rec.is_empty() {
            use protobuf::Message;
            match PhoneNumber::parse_from_bytes(&op.rec) {
                Ok(p) => {
                    stat(S::decode_ok, 1);
                    pn = p;
                    if pn.number_of_leading_zeros() > NLZ_MAX {
                        pn.set_number_of_leading_zeros(NLZ_MAX);
                    }
                }
                Err(_) => {
                    stat(S::decode_err, 1);
                    return "undecodable".to_string();
                }
            }
        }
        if op.k == TRUNCATE {
            let mut p = pn.clone();
            let ok = subject::truncate(u, &mut p);
            format!("{ok} {}", dump(&p))
        } else if op.k == PARSE_THEN {
            let Out::Parse(Ok(p)) = subject::call(u, 1, &pn, &pm, SimStr(s1), SimStr(s2), 0, false) else { return "no number".to_string() };
            let mut h = Sink(0xcbf29ce484222325);
            for k in (2..=8).chain(14..=17).chain([19]).chain(24..=29) {
                for i in 0..if k == 2 { 4 } else { 1 } {
                    let _ = write!(h, "{}", canon(subject::call(u, k, &p, &p, if k == 4 { "15" } else { &op.s2 }, &op.s2, i, op.b)));
                }
            }
            let mut q = p.clone();
            let _ = write!(h, "{} {}", subject::truncate(u, &mut q), dump(&q));
            format!("{} {:x}", dump(&p), h.0)
        } else {
            let o = subject::call(u, op.k, &pn, &pm, SimStr(s1), SimStr(s2), op.i, op.b);
            f(&o);
            canon(o)
        }
    }));
    if !nested {
        rt::op_end();
    }
    CTX.with(|c| c.set(old));
    match r {
        Ok(s) => Answer::Value(s),
        Err(e) => {
            if e.downcast_ref::<Injected>().is_some() {
                stat(S::calls_lost, 1);
                Answer::Lost
            } else {
                drop(e);
                Answer::Value(format!("PANIC: {}", panic_msg()))
            }
        }
    }
}
pub fn exec(u: &PhoneNumberUtil, op: &Op, ctx: &mut Ctx, limit: u64) -> Answer {
    exec_with(u, op, ctx, limit, &mut |_| {})
}
/// Truncation of the caller's own number; the number stays visible after an unwound call.
pub fn exec_truncate(u: &PhoneNumberUtil, p: &mut PhoneNumber, ctx: &mut Ctx, limit: u64) -> Result<bool, Option<String>> {
    let old = CTX.with(|c| c.replace(ctx as *mut Ctx as *mut ()));
    rt::op_begin(limit);
    stat(S::ops, 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| subject::truncate(u, p)));
    rt::op_end();
    CTX.with(|c| c.set(old));
    match r {
        Ok(b) => Ok(b),
        Err(e) => {
            if e.downcast_ref::<Injected>().is_some() {
                stat(S::calls_lost, 1);
                Err(None)
            } else {
                Err(Some(panic_msg()))
            }
        }
    }
}
/// Runs `f` as part of a call: application code it runs is ours. `Err(None)`: we cut it short.
pub fn with_ctx<T>(ctx: &mut Ctx, f: impl FnOnce() -> T) -> Result<T, Option<String>> {
    let old = CTX.with(|c| c.replace(ctx as *mut Ctx as *mut ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CTX.with(|c| c.set(old));
    r.map_err(|e| {
        if e.downcast_ref::<Injected>().is_some() {
            stat(S::calls_lost, 1);
            None
        } else {
            drop(e);
            Some(panic_msg())
        }
    })
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| panic_msg())
}

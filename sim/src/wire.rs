//! C10: a small system that stores numbers in a log file and exchanges them with peers, on a
//! simulated disk and network. One node runs the real library (generated message type, codec,
//! operations); the peers speak the published schema through a codec of their own, below.
use crate::case::{Case, Seq};
use crate::ops::*;
use crate::pool::{self, Corpus};
use crate::props::Gen;
use crate::rng::{Rng, mix};
use crate::rt::{self, Cfg, S, Strat, stat};
use crate::scn;
use protobuf::{CodedInputStream, CodedOutputStream, Message};
use rlibphonenumber::{PhoneNumber, PhoneNumberUtil};
use serde_json::{Value, json};
use std::io::{self, Read, Write};

// ---------------------------------------------------------------- the published schema, by hand
/// Field number, wire type of the published phonenumber.proto.
pub const FIELDS: [(u32, u8); 8] = [(1, 0), (2, 0), (3, 2), (4, 0), (8, 0), (5, 2), (6, 0), (7, 2)];

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Varint(u64),
    Fix64(u64),
    Bytes(Vec<u8>),
    Group(Vec<(u32, Val)>),
    Fix32(u32),
}
fn put_varint(o: &mut Vec<u8>, mut v: u64, pad: usize) {
    let mut n = 0;
    loop {
        n += 1;
        let more = v >> 7 != 0 || n <= pad.min(9);
        if !more || n == 10 {
            o.push((v & 0x7f) as u8);
            return;
        }
        o.push((v & 0x7f) as u8 | 0x80);
        v >>= 7;
    }
}
fn put_field(o: &mut Vec<u8>, f: u32, v: &Val, pad: usize) {
    let wt = match v {
        Val::Varint(_) => 0,
        Val::Fix64(_) => 1,
        Val::Bytes(_) => 2,
        Val::Group(_) => 3,
        Val::Fix32(_) => 5,
    };
    put_varint(o, (f as u64) << 3 | wt, 0);
    match v {
        Val::Varint(x) => put_varint(o, *x, pad),
        Val::Fix64(x) => o.extend_from_slice(&x.to_le_bytes()),
        Val::Fix32(x) => o.extend_from_slice(&x.to_le_bytes()),
        Val::Bytes(b) => {
            put_varint(o, b.len() as u64, 0);
            o.extend_from_slice(b);
        }
        Val::Group(g) => {
            for (f, v) in g {
                put_field(o, *f, v, pad);
            }
            put_varint(o, (f as u64) << 3 | 4, 0);
        }
    }
}
fn get_varint(b: &[u8], p: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for i in 0..10 {
        let x = *b.get(*p)?;
        *p += 1;
        v |= ((x & 0x7f) as u64).checked_shl(7 * i).unwrap_or(0);
        if x & 0x80 == 0 {
            return Some(v);
        }
    }
    None
}
fn get_fields(b: &[u8], p: &mut usize, group: Option<u32>, out: &mut Vec<(u32, Val)>) -> Option<()> {
    while *p < b.len() {
        let t = get_varint(b, p)?;
        let f = (t >> 3) as u32;
        if f == 0 {
            return None;
        }
        let v = match t & 7 {
            0 => Val::Varint(get_varint(b, p)?),
            1 => {
                let x = b.get(*p..*p + 8)?;
                *p += 8;
                Val::Fix64(u64::from_le_bytes(x.try_into().unwrap()))
            }
            2 => {
                let n = get_varint(b, p)? as usize;
                let x = b.get(*p..p.checked_add(n)?)?.to_vec();
                *p += n;
                Val::Bytes(x)
            }
            3 => {
                let mut g = vec![];
                get_fields(b, p, Some(f), &mut g)?;
                Val::Group(g)
            }
            4 => return if group == Some(f) { Some(()) } else { None },
            5 => {
                let x = b.get(*p..*p + 4)?;
                *p += 4;
                Val::Fix32(u32::from_le_bytes(x.try_into().unwrap()))
            }
            _ => return None,
        };
        out.push((f, v));
    }
    if group.is_some() { None } else { Some(()) }
}
/// All fields of a number, in the order of their numbers.
fn fields(n: &Num) -> Vec<(u32, Val)> {
    let mut v = vec![];
    let s = |x: &String| Val::Bytes(x.as_bytes().to_vec());
    n.cc.map(|x| v.push((1, Val::Varint(x as i64 as u64))));
    n.nn.map(|x| v.push((2, Val::Varint(x))));
    n.ext.as_ref().map(|x| v.push((3, s(x))));
    n.ilz.map(|x| v.push((4, Val::Varint(x as u64))));
    n.raw.as_ref().map(|x| v.push((5, s(x))));
    n.ccs.map(|x| v.push((6, Val::Varint(x as i64 as u64))));
    n.pcc.as_ref().map(|x| v.push((7, s(x))));
    n.nlz.map(|x| v.push((8, Val::Varint(x as i64 as u64))));
    v
}
pub fn encode(n: &Num) -> Vec<u8> {
    let mut o = vec![];
    for (f, v) in fields(n) {
        put_field(&mut o, f, &v, 0);
    }
    o
}
/// What a reader of the published schema makes of these bytes (None: not a number).
pub fn decode(b: &[u8]) -> Option<(Num, Vec<(u32, Val)>)> {
    let mut fs = vec![];
    get_fields(b, &mut 0, None, &mut fs)?;
    let mut n = Num::default();
    let mut unknown = vec![];
    for (f, v) in fs {
        match (f, &v) {
            (1, Val::Varint(x)) => n.cc = Some(*x as i32),
            (2, Val::Varint(x)) => n.nn = Some(*x),
            (3, Val::Bytes(x)) => n.ext = Some(String::from_utf8(x.clone()).ok()?),
            (4, Val::Varint(x)) => n.ilz = Some(*x != 0),
            (5, Val::Bytes(x)) => n.raw = Some(String::from_utf8(x.clone()).ok()?),
            (6, Val::Varint(x)) => n.ccs = Some(*x as i32),
            (7, Val::Bytes(x)) => n.pcc = Some(String::from_utf8(x.clone()).ok()?),
            (8, Val::Varint(x)) => n.nlz = Some(*x as i32),
            _ => unknown.push((f, v)),
        }
    }
    if n.cc.is_none() || n.nn.is_none() {
        return None;
    }
    Some((n, unknown))
}
fn unknown_field(r: &mut Rng) -> (u32, Val) {
    let f = *r.pick(&[9, 10, 15, 16, 31, 100, 2047, 2048, 536_870_911]);
    let v = match r.n(5) {
        0 => Val::Varint(r.u64() >> r.n(64)),
        1 => Val::Fix64(r.u64()),
        2 => Val::Bytes((0..r.n(40)).map(|_| r.u64() as u8).collect()),
        3 => Val::Fix32(r.u64() as u32),
        _ => Val::Group(vec![(1, Val::Varint(r.below(1000))), (*r.pick(&[2, 3, 9]), Val::Bytes(b"g".to_vec()))]),
    };
    (f, v)
}
/// How a newer peer with another implementation may legally write the same number.
pub fn encode_foreign(n: &Num, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut fs = fields(n);
    if r.chance(2, 3) {
        r.shuffle(&mut fs);
    }
    // Earlier occurrences of a field do not count.
    if r.chance(1, 3) {
        let k = r.n(fs.len());
        let old = match &fs[k].1 {
            Val::Varint(x) => Val::Varint(if fs[k].0 == 4 { 1 - (x & 1) } else { x.wrapping_add(r.range(1, 9)) & 0x7fff_ffff }),
            Val::Bytes(_) => Val::Bytes(b"77".to_vec()),
            v => v.clone(),
        };
        let at = r.n(k + 1);
        let f = fs[k].0;
        fs.insert(at, (f, old));
    }
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            let at = r.n(fs.len() + 1);
            fs.insert(at, unknown_field(&mut r));
            stat(S::unk_field, 1);
        }
    }
    let mut o = vec![];
    let pads = r.chance(1, 3);
    for (f, v) in fs {
        let v = match v {
            // any non-zero value means true
            Val::Varint(1) if f == 4 && pads => Val::Varint(*r.pick(&[1, 2, 255, u64::MAX])),
            v => v,
        };
        let pad = if pads && r.chance(1, 2) { r.n(10) } else { 0 };
        put_field(&mut o, f, &v, pad);
    }
    o
}
/// An older peer that knows only the first fields passes a record on, keeping what it does not know.
pub fn forward_old(b: &[u8], known: u32) -> Option<Vec<u8>> {
    let mut fs = vec![];
    get_fields(b, &mut 0, None, &mut fs)?;
    let mut o = vec![];
    for k in 1..=known {
        if let Some((f, v)) = fs.iter().rev().find(|x| x.0 == k) {
            put_field(&mut o, *f, v, 0);
        }
    }
    for (f, v) in fs.iter().filter(|x| x.0 > known) {
        put_field(&mut o, *f, v, 0);
    }
    Some(o)
}

// ---------------------------------------------------------------- simulated disk
#[derive(Clone, Debug, PartialEq)]
pub struct Io {
    pub seed: u64,
    pub short_pm: u64,
    pub eintr_pm: u64,
    /// The disk is full after this many more bytes (once).
    pub enospc: Option<u64>,
}
impl Io {
    fn json(&self) -> Value {
        json!({"seed": self.seed, "short_per_1000": self.short_pm, "eintr_per_1000": self.eintr_pm, "disk_full_after": self.enospc})
    }
    fn from(v: &Value) -> Io {
        Io {
            seed: v["seed"].as_u64().unwrap_or(0),
            short_pm: v["short_per_1000"].as_u64().unwrap_or(0),
            eintr_pm: v["eintr_per_1000"].as_u64().unwrap_or(0),
            enospc: v["disk_full_after"].as_u64(),
        }
    }
    fn plain(&self) -> bool {
        self.short_pm == 0 && self.eintr_pm == 0 && self.enospc.is_none()
    }
}
#[derive(Default)]
struct Disk {
    /// What a reader of the running system sees; the first `durable` bytes survive a crash.
    data: Vec<u8>,
    durable: usize,
}
struct FileW<'a> {
    d: &'a mut Disk,
    r: Rng,
    io: Io,
}
impl Write for FileW<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        stat(S::disk_writes, 1);
        if b.is_empty() {
            return Ok(0);
        }
        if self.r.chance(self.io.eintr_pm, 1000) {
            stat(S::disk_eintr, 1);
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len();
        if self.r.chance(self.io.short_pm, 1000) {
            stat(S::disk_short_write, 1);
            n = self.r.range(1, n as u64) as usize;
        }
        if let Some(left) = self.io.enospc {
            if left == 0 {
                stat(S::disk_enospc, 1);
                return Err(io::Error::from_raw_os_error(libc::ENOSPC));
            }
            n = n.min(left as usize);
            self.io.enospc = Some(left - n as u64);
        }
        self.d.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct FileR<'a> {
    b: &'a [u8],
    p: usize,
    r: Rng,
    io: Io,
    /// Repeat interrupted reads here, as applications do that use `read` directly.
    retry: bool,
}
impl Read for FileR<'_> {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        while self.r.chance(self.io.eintr_pm, 1000) {
            stat(S::disk_read_eintr, 1);
            if !self.retry {
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        let mut n = o.len().min(self.b.len() - self.p);
        if n > 1 && self.r.chance(self.io.short_pm, 1000) {
            stat(S::disk_short_read, 1);
            n = self.r.range(1, n as u64 - 1) as usize;
        }
        o[..n].copy_from_slice(&self.b[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}

// ---------------------------------------------------------------- events
/// Where a number comes from.
#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    Fields(Num),
    /// Parsed by the library from text, raw input kept.
    Parsed(String, String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// The node appends a number to its log; `api` selects the library call used.
    Store { src: Src, api: u8, io: Io },
    Sync,
    /// Power is lost: of what was not synced, `keep` of 1000 bytes were written; after a cut at a
    /// record boundary the file may continue with zeros. The node restarts and reads its log.
    Crash { keep: u64, zeros: u64, io: Io, ask: u64 },
    /// A number travels: 0 node to node, 1 newer peer to node, 2 node over an older peer to node,
    /// 3 node to peer.
    Send { src: Src, way: u8, seed: u64, api: u8, lost: bool, dup: bool, delay: u64, cut: Option<u64>, ask: u64 },
    /// Time passes; what is due arrives.
    Tick { n: u64 },
}
fn src_json(s: &Src) -> Value {
    match s {
        Src::Fields(n) => n.to_json(),
        Src::Parsed(t, r) => json!({"parsed_text": t, "region": r}),
    }
}
fn src_from(v: &Value) -> Src {
    match v["parsed_text"].as_str() {
        Some(t) => Src::Parsed(t.into(), v["region"].as_str().unwrap_or("").into()),
        None => Src::Fields(Num::from_json(v)),
    }
}
impl Ev {
    fn to_json(&self) -> Value {
        match self {
            Ev::Store { src, api, io } => json!({"ev": "store", "number": src_json(src), "api": api, "io": io.json()}),
            Ev::Sync => json!({"ev": "sync"}),
            Ev::Crash { keep, zeros, io, ask } => json!({"ev": "crash", "unsynced_kept_per_1000": keep, "zeros": zeros, "io": io.json(), "ask": ask}),
            Ev::Send { src, way, seed, api, lost, dup, delay, cut, ask } => json!({"ev": "send", "number": src_json(src), "way": way, "peer_seed": seed,
                "api": api, "lost": lost, "dup": dup, "delay": delay, "cut_per_1000": cut, "ask": ask}),
            Ev::Tick { n } => json!({"ev": "tick", "n": n}),
        }
    }
    fn from_json(v: &Value) -> Option<Ev> {
        let u = |k: &str| v[k].as_u64().unwrap_or(0);
        Some(match v["ev"].as_str()? {
            "store" => Ev::Store { src: src_from(&v["number"]), api: u("api") as u8, io: Io::from(&v["io"]) },
            "sync" => Ev::Sync,
            "crash" => Ev::Crash { keep: u("unsynced_kept_per_1000"), zeros: u("zeros"), io: Io::from(&v["io"]), ask: u("ask") },
            "send" => Ev::Send {
                src: src_from(&v["number"]),
                way: u("way") as u8,
                seed: u("peer_seed"),
                api: u("api") as u8,
                lost: v["lost"].as_bool()?,
                dup: v["dup"].as_bool()?,
                delay: u("delay"),
                cut: v["cut_per_1000"].as_u64(),
                ask: u("ask"),
            },
            _ => Ev::Tick { n: u("n") },
        })
    }
}
#[derive(Clone)]
pub struct Wire {
    pub events: Vec<Ev>,
    /// 0: length-delimited records, 1: the application frames records itself.
    pub framing: u8,
}

struct Entry {
    end: usize,
    n: PhoneNumber,
}
struct Msg {
    due: u64,
    seq: u64,
    bytes: Vec<u8>,
    want: PhoneNumber,
    /// Cut short on the way, of this full length.
    full: usize,
    way: u8,
    api: u8,
    ask: u64,
}
struct World {
    u: &'static PhoneNumberUtil,
    disk: Disk,
    log: Vec<Entry>,
    net: Vec<Msg>,
    now: u64,
    framing: u8,
}
fn bad(kind: &str, m: String) -> ! {
    rt::violation(kind, &m)
}
fn lib<T>(what: &str, f: impl FnOnce() -> T) -> T {
    rt::op_begin(200_000_000);
    let r = guarded(f);
    rt::op_end();
    match r {
        Ok(x) => x,
        Err(m) => bad("panic", format!("{what} panicked: {m}")),
    }
}
/// One answer of the library about a number, as text.
fn ask(u: &PhoneNumberUtil, p: &PhoneNumber, m: &PhoneNumber, k: u8, region: &str, i: i32) -> String {
    stat(S::ops, 1);
    rt::op_begin(200_000_000);
    let r = guarded(|| {
        if k == TRUNCATE {
            let mut q = p.clone();
            let ok = subject::truncate(u, &mut q);
            format!("{ok} {}", fields_text(&q))
        } else {
            canon(subject::call(u, k, p, m, if k == 4 { "15" } else { region }, region, i, i & 1 == 1))
        }
    });
    rt::op_end();
    r.unwrap_or_else(|m| format!("PANIC: {m}"))
}
fn fields_text(p: &PhoneNumber) -> String {
    Num::from_pn(p).to_json().to_string()
}
const NUM_OPS: [u8; 20] = [2, 3, 4, 5, 6, 7, 8, 14, 15, 16, 17, 19, 24, 25, 26, 27, 28, 29, 30, 2];
impl World {
    fn make(&self, s: &Src) -> Option<PhoneNumber> {
        match s {
            Src::Fields(n) => Some(n.to_pn()),
            Src::Parsed(t, r) => lib("parse", || self.u.parse_and_keep_raw_input(t.as_str(), r.as_str()).ok()),
        }
    }
    /// The number read back equals the one written, field by field and in everything the library
    /// says about it.
    fn same(&self, what: &str, want: &PhoneNumber, got: &PhoneNumber, foreign: bool, seed: u64) {
        stat(S::checks, 1);
        rt::digest_str(&fields_text(got));
        if fields_text(want) != fields_text(got) {
            bad("changed", format!("{what}: {} came back as {}", fields_text(want), fields_text(got)));
        }
        if !foreign && (want != got || dump(want) != dump(got)) {
            bad("changed", format!("{what}: {} came back as {}, which is not equal to it", dump(want), dump(got)));
        }
        self.meaning(what, got);
        let mut r = Rng::new(seed);
        for _ in 0..4 {
            let k = *r.pick(&NUM_OPS);
            let region = *r.pick(&["US", "GB", "DE", "IT", "AR", "MX", "BR", "RU", "JP", "SG", "ZZ"]);
            let i = if k == 2 { r.n(4) as i32 } else { r.n(2) as i32 };
            let a = ask(self.u, want, want, k, region, i);
            let b = ask(self.u, got, want, k, region, i);
            rt::digest_str(&b);
            if a != b {
                bad("treated-differently", format!("{what}: {} is answered {a} for {} but {b} for the number read back", KINDS[k as usize], dump(want)));
            }
            if k == 25 {
                let c = ask(self.u, want, got, k, region, i);
                if c != a {
                    bad("treated-differently", format!("{what}: a number and the same number read back match as {c}, a number and itself as {a}"));
                }
            }
        }
        // A number whose fields are all at the schema's defaults means the same as one without them.
        if r.chance(1, 2) {
            let mut d = got.clone();
            if d.italian_leading_zero != Some(true) {
                d.italian_leading_zero = if d.italian_leading_zero.is_none() { Some(false) } else { None };
                let m = ask(self.u, got, &d, 25, "US", 0);
                let n = ask(self.u, got, got, 25, "US", 0);
                if m != n {
                    bad("treated-differently", format!("{what}: a number matches itself as {n} but as {m} when a default is written out: {} and {}", dump(got), dump(&d)));
                }
            }
            if d.italian_leading_zero == Some(true) && d.number_of_leading_zeros.is_none_or(|x| x == 1) {
                d.number_of_leading_zeros = if d.number_of_leading_zeros.is_none() { Some(1) } else { None };
            }
            let k = *r.pick(&[2, 16, 17, 19, 24, 26, 27, 28]);
            let i = r.n(4) as i32;
            let (a, b) = (ask(self.u, got, got, k, "US", i), ask(self.u, &d, &d, k, "US", i));
            if a != b {
                bad("treated-differently", format!("{what}: {} is answered {a} for {} but {b} for {}, which differ only in a default written out", KINDS[k as usize], dump(got), dump(&d)));
            }
        }
    }
    /// What the library's users are told the fields mean, against the published schema: its names
    /// for sources and what an absent field stands for.
    fn meaning(&self, what: &str, p: &PhoneNumber) {
        use rlibphonenumber::CountryCodeSource as C;
        let n = Num::from_pn(p);
        let source = match n.ccs.unwrap_or(0) {
            1 => C::FROM_NUMBER_WITH_PLUS_SIGN,
            5 => C::FROM_NUMBER_WITH_IDD,
            10 => C::FROM_NUMBER_WITHOUT_PLUS_SIGN,
            20 => C::FROM_DEFAULT_COUNTRY,
            _ => C::UNSPECIFIED,
        };
        let s = |x: &Option<String>| x.clone().unwrap_or_default();
        let want = (n.cc.unwrap_or(0), n.nn.unwrap_or(0), s(&n.ext), n.ilz.unwrap_or(false), n.nlz.unwrap_or(1), s(&n.raw), source, s(&n.pcc));
        let has = (n.cc.is_some(), n.nn.is_some(), n.ext.is_some(), n.ilz.is_some(), n.nlz.is_some(), n.raw.is_some(), n.ccs.is_some(), n.pcc.is_some());
        let got = (
            p.country_code(),
            p.national_number(),
            p.extension().to_string(),
            p.italian_leading_zero(),
            p.number_of_leading_zeros(),
            p.raw_input().to_string(),
            p.country_code_source(),
            p.preferred_domestic_carrier_code().to_string(),
        );
        let told = (
            p.has_country_code(),
            p.has_national_number(),
            p.has_extension(),
            p.has_italian_leading_zero(),
            p.has_number_of_leading_zeros(),
            p.has_raw_input(),
            p.has_country_code_source(),
            p.has_preferred_domestic_carrier_code(),
        );
        if want != got || has != told {
            bad("schema", format!("{what}: {} means {want:?} {has:?} by the published schema, but its reader is told {got:?} {told:?}", n.to_json()));
        }
    }
    /// Serialises through one of the library's ways.
    fn bytes(&self, n: &PhoneNumber, api: u8) -> Vec<u8> {
        lib("serialising", || match api % 5 {
            0 => n.write_to_bytes().ok(),
            1 => {
                let mut v = vec![];
                n.write_to_vec(&mut v).ok().map(|_| v)
            }
            2 => {
                let mut v = vec![];
                n.write_to_writer(&mut v).ok().map(|_| v)
            }
            3 => {
                let mut v = vec![];
                let ok = {
                    let mut o = CodedOutputStream::vec(&mut v);
                    n.write_to(&mut o).is_ok() && o.flush().is_ok()
                };
                ok.then_some(v)
            }
            _ => {
                let mut v = vec![0u8; n.compute_size() as usize];
                let ok = {
                    let mut o = CodedOutputStream::bytes(&mut v);
                    n.write_to(&mut o).is_ok()
                };
                ok.then_some(v)
            }
        })
        .unwrap_or_else(|| bad("not-written", format!("serialising {} failed", dump(n))))
    }
    fn parse(&self, b: &[u8], api: u8, seed: u64) -> Option<PhoneNumber> {
        let r = lib("reading a record", || match api % 4 {
            0 => PhoneNumber::parse_from_bytes(b).ok(),
            1 => {
                let io = Io { seed, short_pm: 700, eintr_pm: 0, enospc: None };
                let mut f = FileR { b, p: 0, r: Rng::new(seed), io, retry: true };
                PhoneNumber::parse_from_reader(&mut f).ok()
            }
            2 => {
                // an object used before
                let mut n = Num::new(49, 301234567).to_pn();
                n.set_extension("12".into());
                n.set_italian_leading_zero(true);
                n.clear();
                n.merge_from_bytes(b).ok().filter(|_| n.is_initialized()).map(|_| n)
            }
            _ => {
                let mut i = CodedInputStream::from_bytes(b);
                let mut n = PhoneNumber::new();
                n.merge_from(&mut i).ok().filter(|_| n.is_initialized()).map(|_| n)
            }
        });
        stat(if r.is_some() { S::decode_ok } else { S::decode_err }, 1);
        r
    }
    fn append(&mut self, n: &PhoneNumber, api: u8, io: &Io) -> bool {
        let mut w = FileW { d: &mut self.disk, r: Rng::new(io.seed), io: io.clone() };
        let framing = self.framing;
        lib("storing", || {
            if framing == 0 {
                if api % 2 == 0 {
                    n.write_length_delimited_to_writer(&mut w).is_ok()
                } else {
                    let mut o = CodedOutputStream::new(&mut w);
                    n.write_length_delimited_to(&mut o).is_ok() && o.flush().is_ok()
                }
            } else {
                let Ok(b) = n.write_to_bytes() else { return false };
                w.write_all(&(b.len() as u32).to_le_bytes()).is_ok() && w.write_all(&b).is_ok()
            }
        })
    }
    /// `written` bytes of the file are what the log held, the rest is not from it.
    fn recover(&mut self, data: &[u8], written: usize, io: &Io, ask: u64) {
        let full: Vec<&Entry> = self.log.iter().take_while(|e| e.end <= written).collect();
        let good = full.last().map_or(0, |e| e.end);
        let mut got: Vec<PhoneNumber> = vec![];
        // false: the reader found a broken record
        let mut f = FileR { b: data, p: 0, r: Rng::new(io.seed), io: Io { enospc: None, ..io.clone() }, retry: true };
        let framing = self.framing;
        let limit = self.log.len() + 3;
        let stream = io.seed & 1 == 0;
        let clean = lib("reading the log", || {
            if framing == 0 {
                let mut all = vec![];
                if !stream && f.read_to_end(&mut all).is_err() {
                    return false;
                }
                let mut i = if stream { CodedInputStream::new(&mut f) } else { CodedInputStream::from_bytes(&all) };
                loop {
                    match i.eof() {
                        Ok(true) => return true,
                        Ok(false) => {}
                        Err(_) => return false,
                    }
                    match i.read_message::<PhoneNumber>() {
                        Ok(n) => got.push(n),
                        Err(_) => return false,
                    }
                    if got.len() > limit {
                        return true;
                    }
                }
            } else {
                f.retry = false;
                loop {
                    if f.p == f.b.len() {
                        return true;
                    }
                    let mut l = [0u8; 4];
                    if f.read_exact(&mut l).is_err() {
                        return false;
                    }
                    let l = u32::from_le_bytes(l) as usize;
                    if l > f.b.len() - f.p {
                        return false;
                    }
                    let mut b = vec![0; l];
                    if f.read_exact(&mut b).is_err() {
                        return false;
                    }
                    match PhoneNumber::parse_from_bytes(&b) {
                        Ok(n) => got.push(n),
                        Err(_) => return false,
                    }
                    if got.len() > limit {
                        return true;
                    }
                }
            }
        });
        for (k, (e, g)) in full.iter().zip(got.iter()).enumerate() {
            stat(S::records_recovered, 1);
            self.same(&format!("record {k} of the log after a crash"), &e.n, g, false, mix(ask, k as u64));
        }
        if got.len() < full.len() {
            bad("lost", format!("the log holds {} whole records after a crash but only {} can be read", full.len(), got.len()));
        }
        // The protobuf crate's reader does not compare the declared length with the end of its
        // input: a cut between two optional fields leaves a whole, shorter number.
        let rest = &data[good..];
        let mut p = 0;
        let short = if framing == 0 && get_varint(rest, &mut p).is_some() { rest.get(p..).and_then(decode) } else { None };
        if let (Some((n, _)), true) = (&short, got.len() == full.len() + 1) {
            if clean && Num::from_pn(&got[full.len()]) == *n {
                return;
            }
        }
        if got.len() > full.len() {
            bad("torn-accepted", format!("the log holds {} whole records after a crash and {} bytes of a torn one, but {} were read; the last as {}", full.len(), data.len() - good, got.len(), dump(&got[got.len() - 1])));
        }
        if clean != (good == data.len()) {
            bad("torn-accepted", format!("the log was cut {} bytes into a record, but its reader reports {}", data.len() - good, if clean { "no error" } else { "an error" }));
        }
        if !clean {
            stat(S::records_torn_detected, 1);
        }
    }
    fn deliver(&mut self, m: Msg) {
        stat(S::net_delivered, 1);
        rt::digest_str(&hex(&m.bytes));
        let what = ["a number sent to another node", "a number sent by a newer peer", "a number passed on by an older peer", "a number sent to a peer"][m.way as usize & 3];
        if m.way == 3 {
            stat(S::peer_decode, 1);
            match decode(&m.bytes) {
                None if m.bytes.len() < m.full => {}
                None => bad("schema", format!("{what} cannot be read by the published schema: {} as {}", dump(&m.want), hex(&m.bytes))),
                Some((n, unknown)) => {
                    if m.bytes.len() == m.full && (n != Num::from_pn(&m.want) || !unknown.is_empty()) {
                        bad("schema", format!("{what}: {} reads as {} with {} unknown fields by the published schema", dump(&m.want), n.to_json(), unknown.len()));
                    }
                }
            }
            stat(S::checks, 1);
            return;
        }
        let got = self.parse(&m.bytes, m.api, m.ask);
        if m.bytes.len() < m.full {
            // Without a length, a cut between two optional fields cannot be seen by anyone.
            let want = decode(&m.bytes);
            stat(S::checks, 1);
            match (&got, &want) {
                (Some(g), None) => bad("torn-accepted", format!("{what}: cut to {} of {} bytes ({}) it was accepted as {}", m.bytes.len(), m.full, hex(&m.bytes), dump(g))),
                (None, Some((n, _))) => bad("changed", format!("{what}: a complete record of {} was refused: {}", n.to_json(), hex(&m.bytes))),
                (Some(g), Some((n, _))) => {
                    if Num::from_pn(g) != *n {
                        bad("changed", format!("{what}: {} reads as {} instead of {}", hex(&m.bytes), dump(g), n.to_json()));
                    }
                }
                (None, None) => stat(S::records_torn_detected, 1),
            }
            return;
        }
        let Some(got) = got else { bad("changed", format!("{what}: {} was refused: {}", dump(&m.want), hex(&m.bytes))) };
        self.same(what, &m.want, &got, m.way == 1, m.ask);
        if m.way == 1 {
            // What this node does not know it passes on.
            let b = self.bytes(&got, m.api);
            let (x, y) = (decode(&m.bytes), decode(&b));
            let key = |v: &Option<(Num, Vec<(u32, Val)>)>| {
                v.as_ref().map(|(n, u)| {
                    // Groups are the one kind the codec of the library's runtime cannot keep.
                    let mut u: Vec<String> = u.iter().filter(|f| !matches!(f.1, Val::Group(_))).map(|f| format!("{f:?}")).collect();
                    u.sort();
                    (n.to_json().to_string(), u)
                })
            };
            if key(&x) != key(&y) {
                bad("changed", format!("{what}: {} is passed on as {}", hex(&m.bytes), hex(&b)));
            }
        }
    }
    fn step(&mut self, e: &Ev) {
        match e {
            Ev::Store { src, api, io } => {
                let Some(n) = self.make(src) else { return };
                let at = self.disk.data.len();
                let mut ok = self.append(&n, *api, io);
                if !ok {
                    if io.enospc.is_none() {
                        bad("not-written", format!("storing {} failed without any disk error", dump(&n)));
                    }
                    // The application cuts the file back, makes room and tries again.
                    self.disk.data.truncate(at);
                    ok = self.append(&n, *api, &Io { enospc: None, ..io.clone() });
                    if !ok {
                        bad("not-written", format!("storing {} again failed without any disk error", dump(&n)));
                    }
                }
                stat(S::records_stored, 1);
                let b = encode(&Num::from_pn(&n));
                let head = if self.framing == 1 {
                    4
                } else {
                    let mut v = vec![];
                    put_varint(&mut v, b.len() as u64, 0);
                    v.len()
                };
                let wrote = &self.disk.data[at..];
                rt::digest_str(&hex(wrote));
                match wrote.get(head..).and_then(decode) {
                    Some((x, unk)) if x == Num::from_pn(&n) && unk.is_empty() => {}
                    _ => bad("schema", format!("the stored form of {} does not follow the published schema: {}", dump(&n), hex(wrote))),
                }
                self.log.push(Entry { end: self.disk.data.len(), n });
            }
            Ev::Sync => self.disk.durable = self.disk.data.len(),
            Ev::Crash { keep, zeros, io, ask } => {
                stat(S::crash, 1);
                let loose = self.disk.data.len() - self.disk.durable;
                let mut keep = loose * (*keep).min(1000) as usize / 1000;
                if *zeros > 0 {
                    // to the last record boundary
                    let at = self.log.iter().map(|e| e.end).filter(|e| *e <= self.disk.durable + keep).max().unwrap_or(0);
                    keep = at.saturating_sub(self.disk.durable);
                }
                if keep < loose {
                    stat(if keep == 0 { S::disk_lost_write } else { S::disk_torn_write }, 1);
                }
                let mut data = self.disk.data[..self.disk.durable + keep].to_vec();
                data.extend(std::iter::repeat_n(0u8, *zeros as usize));
                // Memory is gone, messages on the way are not.
                self.recover(&data, self.disk.durable + keep, io, *ask);
                stat(S::restart, 1);
                let good = self.log.iter().map(|e| e.end).filter(|e| *e <= self.disk.durable + keep).max().unwrap_or(0);
                data.truncate(good);
                self.disk.durable = good;
                self.disk.data = data;
                self.log.retain(|e| e.end <= good);
            }
            Ev::Send { src, way, seed, api, lost, dup, delay, cut, ask } => {
                let Some(n) = self.make(src) else { return };
                stat(S::net_sent, 1);
                let mut want = n.clone();
                let bytes = match way {
                    1 => {
                        stat(S::peer_encode, 1);
                        let b = encode_foreign(&Num::from_pn(&n), *seed);
                        want = Num::from_pn(&n).to_pn();
                        b
                    }
                    2 => {
                        stat(S::peer_encode, 1);
                        let b = self.bytes(&n, *api);
                        match forward_old(&b, 2 + (*seed % 3) as u32) {
                            Some(b) => b,
                            None => bad("schema", format!("an older peer cannot read the stored form of {}: {}", dump(&n), hex(&b))),
                        }
                    }
                    _ => self.bytes(&n, *api),
                };
                if *lost {
                    stat(S::net_lost, 1);
                    return;
                }
                let full = bytes.len();
                let mut b = bytes;
                if let Some(c) = cut {
                    stat(S::net_truncate, 1);
                    b.truncate(full * (*c).min(999) as usize / 1000);
                }
                if *delay > 0 {
                    stat(S::net_delay, 1);
                }
                let seq = self.net.len() as u64;
                for k in 0..1 + *dup as u64 {
                    if k > 0 {
                        stat(S::net_dup, 1);
                    }
                    self.net.push(Msg { due: self.now + delay + k * 3, seq, bytes: b.clone(), want: want.clone(), full, way: *way, api: *api, ask: mix(*ask, k) });
                }
            }
            Ev::Tick { n } => {
                self.now += n;
                rt::jump_clock(*n * 1_000_000);
                self.arrivals(self.now);
            }
        }
    }
    fn arrivals(&mut self, now: u64) {
        let mut late = 0;
        loop {
            let Some(k) = (0..self.net.len()).filter(|&k| self.net[k].due <= now).min_by_key(|&k| (self.net[k].due, self.net[k].seq)) else { break };
            let m = self.net.remove(k);
            if m.seq < late {
                stat(S::net_reorder, 1);
            }
            late = late.max(m.seq);
            self.deliver(m);
        }
    }
}
impl Seq for Wire {
    fn to_json(&self) -> Value {
        json!({"framing": if self.framing == 0 { "length-delimited" } else { "by the application" }, "events": self.events.iter().map(|e| e.to_json()).collect::<Vec<_>>()})
    }
    fn run(&self) -> ! {
        let s: &'static Wire = Box::leak(Box::new(self.clone()));
        log::set_max_level(log::LevelFilter::Off);
        stat(S::runs, 1);
        let mut cfg = Cfg::default();
        cfg.strat = Strat::Serial;
        cfg.step_cap = 4_000_000_000;
        rt::run(cfg, vec![Box::new(move || {
            let mut w = World { u: scn::base(), disk: Disk::default(), log: vec![], net: vec![], now: 0, framing: s.framing };
            for e in &s.events {
                w.step(e);
            }
            // Faults stop: what is on the way arrives, the node restarts once more.
            w.arrivals(u64::MAX);
            w.step(&Ev::Sync);
            let data = w.disk.data.clone();
            w.recover(&data, data.len(), &Io { seed: 1, short_pm: 0, eintr_pm: 0, enospc: None }, 1);
        })]);
        let st = &rt::shm().run_stats;
        let f = [S::disk_short_write, S::disk_eintr, S::disk_enospc, S::disk_torn_write, S::disk_lost_write, S::disk_short_read, S::disk_read_eintr, S::crash, S::net_truncate, S::net_dup, S::net_reorder, S::unk_field];
        if f.iter().any(|x| st[*x as usize] > 0) {
            rt::shm().nontrivial = 1;
        }
        rt::finish_ok()
    }
    fn shrinks(&self) -> Vec<Box<dyn Seq>> {
        let mut v: Vec<Box<dyn Seq>> = vec![];
        let mut k = self.events.len();
        while k >= 1 {
            let mut i = 0;
            while i < self.events.len() {
                let mut c = self.clone();
                c.events.drain(i..(i + k).min(self.events.len()));
                v.push(Box::new(c));
                i += k;
            }
            k /= 2;
        }
        for i in 0..self.events.len() {
            let mut put = |e: Ev| {
                let mut c = self.clone();
                c.events[i] = e;
                v.push(Box::new(c));
            };
            let plain = |io: &Io| Io { seed: 0, short_pm: 0, eintr_pm: 0, enospc: None, ..io.clone() };
            match &self.events[i] {
                Ev::Store { src, api, io } => {
                    if !io.plain() {
                        put(Ev::Store { src: src.clone(), api: *api, io: plain(io) });
                    }
                    for s in smaller(src) {
                        put(Ev::Store { src: s, api: *api, io: io.clone() });
                    }
                }
                Ev::Crash { keep, zeros, io, ask } => {
                    if !io.plain() {
                        put(Ev::Crash { keep: *keep, zeros: *zeros, io: plain(io), ask: *ask });
                    }
                    if *zeros > 0 {
                        put(Ev::Crash { keep: *keep, zeros: 0, io: io.clone(), ask: *ask });
                    }
                }
                Ev::Send { src, way, seed, api, lost, dup, delay, cut, ask } => {
                    if *dup || *delay > 0 {
                        put(Ev::Send { src: src.clone(), way: *way, seed: *seed, api: *api, lost: *lost, dup: false, delay: 0, cut: *cut, ask: *ask });
                    }
                    for s in smaller(src) {
                        put(Ev::Send { src: s, way: *way, seed: *seed, api: *api, lost: *lost, dup: *dup, delay: *delay, cut: *cut, ask: *ask });
                    }
                }
                _ => {}
            }
        }
        v
    }
    fn boxed(&self) -> Box<dyn Seq> {
        Box::new(self.clone())
    }
}
fn smaller(s: &Src) -> Vec<Src> {
    let mut v = vec![];
    if let Src::Fields(n) = s {
        macro_rules! f { ($($x:ident)*) => { $( if n.$x.is_some() { let mut m = n.clone(); m.$x = None; v.push(Src::Fields(m)); } )* } }
        f!(ext ilz nlz raw ccs pcc);
    }
    v
}
pub fn load(v: &Value) -> Option<Box<dyn Seq>> {
    Some(Box::new(Wire {
        framing: (v["framing"] != "length-delimited") as u8,
        events: v["events"].as_array()?.iter().map(Ev::from_json).collect::<Option<Vec<_>>>()?,
    }))
}

// ---------------------------------------------------------------- generation
fn number(r: &mut Rng, c: &Corpus) -> Num {
    let e = r.pick(&c.exs);
    let mut n = pool::variant(r, c, &e.region, e.cc, &e.digits);
    if n.cc.is_none() {
        n.cc = Some(e.cc);
    }
    for _ in 0..r.n(4) {
        match r.n(9) {
            0 => n.ext = Some((*r.pick(&["", "0", "0034", "123", "доб", "\u{1f600}", "x\u{0}y"])).to_string()),
            1 => n.ilz = Some(r.chance(2, 3)),
            2 => n.nlz = Some(*r.pick(&[0, 1, 2, 3, 15, -1, 127, 128, 300])),
            3 => n.raw = Some(pool::text_for(r, c, &e.region, e.cc, &e.digits)),
            4 => n.ccs = Some(*r.pick(&[0, 1, 5, 10, 20])),
            5 => n.pcc = Some((*r.pick(&["", "15", "0", "1 2", "\u{661}\u{662}"])).to_string()),
            6 => n.cc = Some(*r.pick(&[0, 1, 7, 127, 128, 999, 16384, i32::MAX, -1, i32::MIN])),
            7 => n.nn = Some(*r.pick(&[0, 1, 127, 128, 1 << 31, u32::MAX as u64, 1 << 32, (1 << 53) + 1, 1 << 63, u64::MAX])),
            _ => n.raw = Some("7".repeat(*r.pick(&[0usize, 1, 126, 127, 128, 129, 300, 8191, 8192, 8200, 20_000]))),
        }
    }
    n
}
fn source(r: &mut Rng, c: &Corpus) -> Src {
    if r.chance(1, 4) {
        let e = r.pick(&c.exs);
        Src::Parsed(pool::text_for(r, c, &e.region, e.cc, &e.digits), e.region.clone())
    } else {
        Src::Fields(number(r, c))
    }
}
fn io(r: &mut Rng) -> Io {
    let on = r.chance(1, 2);
    Io {
        seed: r.u64(),
        short_pm: if on { *r.pick(&[0, 200, 800, 1000]) } else { 0 },
        eintr_pm: if on { *r.pick(&[0, 100, 500]) } else { 0 },
        enospc: if r.chance(1, 8) { Some(r.below(60)) } else { None },
    }
}
pub fn generate(g: &Gen, seed: u64) -> (Case, String) {
    let mut r = Rng::new(seed);
    let c = &g.corpus;
    let style = r.n(3);
    let mut events = vec![];
    for _ in 0..r.range(4, 40) {
        let any = r.below(1001);
        let k = match style {
            0 => r.n(12),
            1 => r.n(7),
            _ => 6 + r.n(7),
        };
        events.push(match k {
            0..=3 => Ev::Store { src: source(&mut r, c), api: r.n(4) as u8, io: io(&mut r) },
            4 => Ev::Sync,
            5 | 6 => Ev::Crash { keep: *r.pick(&[0, 1000, 500, 990, any, any]), zeros: if r.chance(1, 5) { r.range(1, 9) } else { 0 }, io: io(&mut r), ask: r.u64() },
            12 => Ev::Tick { n: r.range(1, 20) },
            _ => Ev::Send {
                src: source(&mut r, c),
                way: r.n(4) as u8,
                seed: r.u64(),
                api: r.n(20) as u8,
                lost: r.chance(1, 10),
                dup: r.chance(1, 5),
                delay: if r.chance(1, 2) { r.below(30) } else { 0 },
                cut: if r.chance(1, 4) { Some(r.below(1000)) } else { None },
                ask: r.u64(),
            },
        });
    }
    let w = Wire { events, framing: r.chance(1, 3) as u8 };
    (Case::Seq(Box::new(w)), ["mixed", "storage", "network"][style].into())
}

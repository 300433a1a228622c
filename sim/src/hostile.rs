//! C11: damaged and hostile requests, mixed with good ones, on serving threads.
use crate::alloc;
use crate::case::Case;
use crate::engine;
use crate::ops::*;
use crate::pool::{self, Corpus};
use crate::props::{self, Build, Gen};
use crate::rng::Rng;
use crate::rt::{self, Cfg, S, Shm};
use crate::scn::{self, Expect};
use crate::wire;

/// What is expected of a hostile call: that it comes back.
pub fn any_expect(o: &Op) -> Expect {
    let n = o.s1.len() + o.s2.len() + o.rec.len() * 4 + o.n.raw.as_ref().map_or(0, |x| x.len()) + o.n.nlz.unwrap_or(0).clamp(0, NLZ_MAX) as usize;
    Expect { steps: 300_000 + 3000 * n as u64, ..Default::default() }
}
const WEIRD: &[&str] = &[
    "é", "\u{0}", "\u{200b}", "\u{1f600}", "\u{fffd}", "\u{2068}", "\u{ff0b}", "\u{ff11}", "\u{0661}", "\u{06f5}", "\u{0967}", "\u{1d7d8}", "\u{104a1}", "\u{2460}", "\u{b2}",
    "\u{130}", "\u{df}", "\u{3a3}", "\u{301}", "\u{a0}", "\u{3000}", "\u{2010}", "\u{2014}", "\u{2212}", "\u{30fc}", "\u{ff0d}", "\u{ff0f}", "\u{ff08}", "\u{223c}", "\u{ff5e}", "\u{ad}", "\u{2060}",
    "\u{ff41}", "\u{ff3a}", "\u{430}", "\u{434}\u{43e}\u{431}", "\u{feff}", "\u{10ffff}", "\u{ff53}", "\u{ff58}", "\u{ff1b}", "\u{ff1d}",
];
const BITS: &[&str] = &[
    "+", "++", "＋", "tel:", "TEL:", ";ext=", ";phone-context=", ";isub=", ";phone-context=+", ";phone-context=+1", ";phone-context=example.com", "ext", "ext.", " x", "#", " #", "доб",
    "/", "\\", " \\x", "//", "/ x", "~", "*", "(", ")", "[", "]", "00", "011", "0", "1", "8", "9", "15", "tel:+", ";", "=", ",", ",,", ";;", "-", "--", ".", " ", "  ", "\n", "\t", "$1", "${1}", "\\1", "NP", "$FG",
    "anexo", "int", "extensión", "e.164", "ABC", "a", "www", ";x=y", "?", "+0", "+1", "+999", "+44", "+39", "+54", "+52",
];
/// Damages a text: every cut falls on a character boundary, as a Rust caller's must.
pub fn damage_text(r: &mut Rng, c: &Corpus, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        let n = v.len();
        let at = r.n(n + 1);
        match r.n(12) {
            0 => v.truncate(at),
            1 => {
                v.drain(..at.min(n));
            }
            2 if n > 0 => {
                v.remove(at.min(n - 1));
            }
            3 | 4 => {
                let w: Vec<char> = r.pick(WEIRD).chars().collect();
                v.splice(at..at, w);
            }
            5..=7 => {
                let w: Vec<char> = r.pick(BITS).chars().collect();
                v.splice(at..at, w);
            }
            8 if n > 0 => {
                // a piece appears twice
                let a = r.n(n);
                let b = (a + 1 + r.n(8)).min(n);
                let w = v[a..b].to_vec();
                v.splice(at..at, w);
            }
            9 => {
                // two texts run into one another
                let e = r.pick(&c.exs);
                let t: Vec<char> = pool::text_for(r, c, &e.region, e.cc, &e.digits).chars().collect();
                let k = r.n(t.len() + 1);
                v.truncate(at);
                v.extend_from_slice(&t[k..]);
            }
            10 if n > 0 => {
                let a = at.min(n - 1);
                v[a] = char::from_u32(v[a] as u32 ^ (1 << r.n(8))).unwrap_or('\u{fffd}');
            }
            11 if r.chance(1, 4) && n > 0 => {
                let x = v[at.min(n - 1)];
                let k = *r.pick(&[3usize, 17, 20, 60, 240, 251, 300, 2000]) * if r.chance(1, 40) { 50 } else { 1 };
                v.splice(at..at, std::iter::repeat_n(x, k));
            }
            _ => {}
        }
    }
    v.into_iter().collect()
}
/// A text with a very long run of one character somewhere.
fn long_run(r: &mut Rng, c: &Corpus) -> String {
    let e = r.pick(&c.exs);
    let mut v: Vec<char> = pool::text_for(r, c, &e.region, e.cc, &e.digits).chars().collect();
    let set = if r.chance(1, 2) { BITS } else { WEIRD };
    let w = *r.pick(set);
    let w: &str = if r.chance(1, 3) { *r.pick(&["0", "1", "9", " ", ".", "a", "Z", "(", "+", "x"]) } else { w };
    let k = *r.pick(&[3_000usize, 8_000, 16_000, 20_000]);
    let w: Vec<char> = w.chars().cycle().take(k).collect();
    let at = *r.pick(&[0, v.len(), v.len()]);
    let at = if r.chance(1, 3) { r.n(v.len() + 1) } else { at };
    v.splice(at..at, w);
    v.into_iter().collect()
}
pub fn text(r: &mut Rng, c: &Corpus) -> String {
    if r.chance(1, 100) {
        return long_run(r, c);
    }
    match r.n(10) {
        0 | 1 => pool::alphabet_text(r, 40),
        2 => {
            let mut s = String::new();
            for _ in 0..r.n(8) {
                s.push_str(if r.chance(1, 2) { r.pick(BITS) } else { r.pick(WEIRD) });
                if r.chance(1, 2) {
                    s.push_str(&r.below(100_000).to_string());
                }
            }
            s
        }
        _ => {
            let e = r.pick(&c.exs);
            let t = pool::text_for(r, c, &e.region, e.cc, &e.digits);
            if r.chance(1, 12) { t } else { damage_text(r, c, &t) }
        }
    }
}
pub fn region(r: &mut Rng, c: &Corpus) -> String {
    match r.n(8) {
        0 => text(r, c).chars().take(6).collect(),
        1 => {
            let s = r.pick(&c.regs).code.clone();
            damage_text(r, c, &s)
        }
        _ => c.region(r),
    }
}
pub fn num(r: &mut Rng, c: &Corpus) -> Num {
    let e = r.pick(&c.exs);
    let mut n = pool::variant(r, c, &e.region, e.cc, &e.digits);
    for _ in 0..r.n(4) {
        match r.n(9) {
            0 => n.cc = Some(*r.pick(&[0, -1, i32::MIN, i32::MAX, 999, 1000, -44, 1_000_000_000, 800, 979, 39, 54, 52, 55, 1])),
            1 => n.nn = Some(*r.pick(&[0, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, 9, 10, 99_999_999_999_999_999, 10_000_000_000_000_000_000, 112, 911])),
            2 => n.ext = Some(if r.chance(1, 3) { String::new() } else { text(r, c) }),
            3 => {
                n.ilz = Some(!r.chance(1, 4));
                n.nlz = Some(*r.pick(&[0, -1, i32::MIN, 1, 2, 3, 16, 17, 18, 40, 300, NLZ_MAX]));
            }
            4 => {
                n.raw = Some(text(r, c));
                n.ccs = Some(*r.pick(&[0, 1, 5, 10, 20, 2, -1, i32::MAX]));
            }
            5 => {
                let t = pool::text_for(r, c, &e.region, e.cc, &e.digits);
                n.raw = Some(damage_text(r, c, &t));
                n.ccs = Some(*r.pick(&[1, 5, 10, 20]));
            }
            6 => n.pcc = Some(text(r, c).chars().take(12).collect()),
            7 => n.raw = Some(String::new()),
            _ => n.nn = Some(r.u64() >> r.n(64)),
        }
    }
    n
}
/// A record damaged in storage or on the way.
pub fn damage(r: &mut Rng, c: &Corpus, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        let n = b.len();
        if n == 0 {
            return;
        }
        match r.n(8) {
            0 => {
                rt::gen_stat(S::rec_truncate, 1);
                b.truncate(r.n(n));
            }
            1..=3 => {
                rt::gen_stat(S::bit_flip, 1);
                let k = r.n(n);
                b[k] ^= 1 << r.n(8);
            }
            4 => {
                // the tail of another record
                rt::gen_stat(S::rec_splice, 1);
                let o = wire::encode(&num(r, c));
                let k = r.n(o.len() + 1);
                b.truncate(r.n(n + 1));
                b.extend_from_slice(&o[k..]);
            }
            5 => {
                rt::gen_stat(S::rec_dup_field, 1);
                let o = wire::encode(&num(r, c));
                b.extend_from_slice(&o);
            }
            6 => {
                rt::gen_stat(S::rec_reorder, 1);
                let k = r.n(n);
                b.rotate_left(k);
            }
            _ => {
                let k = r.n(n);
                b[k] = *r.pick(&[0, 0x7f, 0x80, 0xff, 0x08, 0x10, 0x1a, 0x20, 0x2a, 0x30, 0x3a, 0x40]);
            }
        }
    }
}
fn ops(r: &mut Rng, c: &Corpus, out: &mut Vec<Op>) {
    let mk = |k: u8| Op { k, any: true, ..Default::default() };
    match r.n(6) {
        0 | 1 => {
            let (s1, s2) = (text(r, c), region(r, c));
            let k = *r.pick(&[0, 0, 1, 1, 22, 9]);
            out.push(Op { s1: s1.clone(), s2: s2.clone(), ..mk(k) });
            if r.chance(1, 3) {
                for k in [0, 1, 9, 22] {
                    out.push(Op { s1: s1.clone(), s2: s2.clone(), ..mk(k) });
                }
            }
            if r.chance(1, 2) {
                // what it parses to, formatted again
                out.push(Op { s1, s2, ..mk(PARSE_THEN) });
            }
        }
        2 => {
            let k = *r.pick(&[10, 11, 12, 13, 18, 20, 21, 23]);
            let x = r.below(2000) as i32 - 500;
            let i = *r.pick(&[0, -1, 1, 7, 44, 999, 1000, i32::MIN, i32::MAX, x]);
            out.push(Op { s2: region(r, c), i, ..mk(k) });
        }
        w => {
            let n = num(r, c);
            let rec = if w < 5 {
                vec![]
            } else {
                let mut b = wire::encode(&n);
                damage(r, c, &mut b);
                b
            };
            let m = if r.chance(1, 2) { num(r, c) } else { n.clone() };
            let all = r.chance(1, 3);
            let kinds: Vec<u8> = (2..=8).chain(14..=17).chain([19]).chain(24..=30).collect();
            for k in kinds {
                if !all && !r.chance(1, 4) {
                    continue;
                }
                let mut o = Op { n: n.clone(), rec: rec.clone(), s2: region(r, c), b: r.chance(1, 2), ..mk(k) };
                match k {
                    2 => o.i = r.n(4) as i32,
                    4 => o.s1 = text(r, c).chars().take(10).collect(),
                    25 => o.m = m.clone(),
                    _ => {}
                }
                out.push(o);
            }
        }
    }
}
/// Texts refused for every reason there is.
fn refused(r: &mut Rng, c: &Corpus, out: &mut Vec<Op>) {
    let k = r.n(2) as u8;
    let x = r.pick(&c.regs);
    let e = r.pick(&c.exs);
    let long = "3".repeat(r.range(8, 14) as usize);
    let texts = [
        format!("+{}{}{long}", e.cc, e.digits),
        format!("{}{long}", e.digits),
        "2".repeat(260),
        format!("+{} 1", e.cc),
        format!("{}0123456", x.idd),
        format!("{}", x.idd),
        "+999 123 4567".into(),
        format!("{};phone-context=+", e.digits),
        text(r, c),
        "hello".into(),
        String::new(),
    ];
    for _ in 0..3 {
        let s2 = if r.chance(1, 4) { "ZZ".to_string() } else if r.chance(1, 2) { e.region.clone() } else { x.code.clone() };
        out.push(Op { k, s1: r.pick(&texts).clone(), s2, any: true, ..Default::default() });
    }
}
pub fn generate(g: &Gen, seed: u64) -> (Case, String) {
    let mut r = Rng::new(seed);
    let mut b = Build::new(g, "C11");
    let c = &g.corpus;
    let cand = props::pick_fams(g, &mut r, 2);
    let nt = if r.chance(1, 2) { 1 } else { r.range(2, 3) };
    for _ in 0..nt {
        let mut v = vec![];
        let mut bad = vec![];
        // The same bad requests over and over.
        if r.chance(1, 8) {
            if r.chance(1, 2) { refused(&mut r, c, &mut bad) } else { ops(&mut r, c, &mut bad) }
            bad.retain(|o| o.k != 12 && o.k != PARSE_THEN && any_expect(o).steps < 500_000);
            let few: Vec<usize> = (0..bad.len().min(3))
                .map(|i| {
                    let o = bad.swap_remove(r.n(bad.len()));
                    let e = any_expect(&o);
                    v.push(b.raw_step(o, e));
                    v[i].op().unwrap()
                })
                .collect();
            if !few.is_empty() {
                for _ in 0..*r.pick(&[70, 300, 300, 1100]) {
                    v.push(scn::Step::Call { op: *r.pick(&few), inst: 0, faults: vec![] });
                }
                for _ in 0..3 {
                    v.push(b.step(*r.pick(&cand), 0, vec![]));
                }
            }
        }
        for _ in 0..r.range(10, 60) {
            bad.clear();
            ops(&mut r, c, &mut bad);
            for o in bad.drain(..) {
                let e = any_expect(&o);
                v.push(b.raw_step(o, e));
            }
            if r.chance(1, 2) {
                v.push(b.step(*r.pick(&cand), 0, vec![]));
            }
        }
        b.scn.threads.push(v);
    }
    props::env_noise(&mut b.scn, &mut r);
    props::after(&mut b, &mut r, &cand, 3);
    let (cfg, note) = if nt == 1 { (Cfg { seed: r.u64(), step_cap: 0, ..Default::default() }, "one server".into()) } else { props::schedule(&b, &mut r) };
    b.finish(cfg, note)
}

/// The recorded finding: a record of a dozen bytes makes a call ask for gigabytes.
pub fn known(root: &str) -> Vec<String> {
    let list = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in list.lines() {
        let Some(rest) = l.strip_prefix("known: property=C11 record=") else { continue };
        let Some((rec, what)) = rest.split_once(' ') else { continue };
        let rec = unhex(rec);
        let p = Shm::new() as *mut Shm;
        unsafe {
            rt::setup_env(7, 8);
            let o = engine::in_child(&mut *p, || {
                let z = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(z, 2);
                let u = subject::new_instance();
                // The deployment: a process with 1 GB of memory left.
                alloc::FAIL_ABOVE.store(1 << 30, std::sync::atomic::Ordering::Relaxed);
                let u = &u;
                use protobuf::Message;
                if let Ok(n) = rlibphonenumber::PhoneNumber::parse_from_bytes(&rec) {
                    alloc::LARGEST.store(0, std::sync::atomic::Ordering::Relaxed);
                    let _ = u.format(&n, rlibphonenumber::PhoneNumberFormat::E164);
                }
                rt::finish_ok()
            });
            if o.verdict != "ok" {
                out.push(format!("record {} {what} ({})", hex(&rec), o.msg));
            }
        }
    }
    out
}

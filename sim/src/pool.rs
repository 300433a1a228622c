//! Workload material: families of numbers, texts and calls that nearly collide.
use crate::ops::{Num, Op, TRUNCATE};
use crate::rng::Rng;

pub struct Reg {
    pub code: String,
    pub cc: i32,
    pub ndd: String,
    pub idd: String,
}
pub struct Ex {
    pub region: String,
    pub cc: i32,
    pub ty: String,
    pub digits: String,
}
pub struct Corpus {
    pub regs: Vec<Reg>,
    pub exs: Vec<Ex>,
}
impl Corpus {
    pub fn load() -> Corpus {
        let mut c = Corpus { regs: vec![], exs: vec![] };
        for l in include_str!("../corpus.txt").lines() {
            let f: Vec<&str> = l.split(' ').collect();
            let dash = |s: &str| if s == "-" { String::new() } else { s.to_string() };
            if f[0] == "R" {
                c.regs.push(Reg { code: f[1].into(), cc: f[2].parse().unwrap(), ndd: dash(f[3]), idd: dash(f[4]) });
            } else {
                c.exs.push(Ex { region: f[1].into(), cc: f[2].parse().unwrap(), ty: f[3].into(), digits: f[4].into() });
            }
        }
        c
    }
    pub fn reg(&self, code: &str) -> Option<&Reg> {
        self.regs.iter().find(|r| r.code == code)
    }
    pub fn region(&self, r: &mut Rng) -> String {
        match r.n(24) {
            0 => "ZZ".into(),
            1 => "001".into(),
            2 => "".into(),
            3 => r.pick(&self.regs).code.to_lowercase(),
            4 => (*r.pick(&["USA", "U", "us", "Us", "00", "1", "é", "EU", "XX", "\u{130}R"])).to_string(),
            5..=12 => (*r.pick(&["US", "GB", "DE", "FR", "IT", "AR", "MX", "BR", "AU", "JP", "CN", "IN", "RU", "CA", "NZ", "KR"])).to_string(),
            _ => r.pick(&self.regs).code.clone(),
        }
    }
}
pub fn num_from_digits(cc: i32, d: &str) -> Num {
    let mut n = Num::new(cc, d.parse::<u64>().unwrap_or(0));
    let z = d.len() - d.trim_start_matches('0').len();
    let z = z.min(d.len().saturating_sub(1));
    if z > 0 {
        n.ilz = Some(true);
        if z > 1 {
            n.nlz = Some(z as i32);
        }
    }
    n
}
const WIDE: [char; 10] = ['０', '１', '２', '３', '４', '５', '６', '７', '８', '９'];
const ARAB: [char; 10] = ['٠', '١', '٢', '٣', '٤', '٥', '٦', '٧', '٨', '٩'];
/// Other digits in the same places of the number and of the texts (the country code and the first digits stay).
pub fn fresh_digits(r: &mut Rng, o: &mut Op) {
    let mut fresh = |t: &str| -> String {
        let mut seen = 0;
        t.chars()
            .map(|c| {
                if c.is_ascii_digit() {
                    seen += 1;
                    if seen > 4 {
                        return (b'0' + r.below(10) as u8) as char;
                    }
                }
                c
            })
            .collect()
    };
    o.s1 = fresh(&o.s1);
    o.s2 = fresh(&o.s2);
    if let Some(x) = o.n.nn {
        o.n.nn = fresh(&x.to_string()).parse().ok().or(Some(x));
    }
}
pub fn punct(r: &mut Rng, d: &str) -> String {
    let mut s = String::new();
    let p = r.n(5);
    for (i, c) in d.chars().enumerate() {
        if i > 0 && p > 0 && r.chance(1, 4) {
            s.push_str([" ", "-", ".", "/", " ", "(", ") ", "\u{a0}", "–"][r.n(if p == 4 { 9 } else { 3 })]);
        }
        s.push(c);
    }
    s
}
pub fn script(r: &mut Rng, d: &str) -> String {
    match r.n(9) {
        3 => {
            // the digits of other scripts, up to four bytes each
            let zero = *r.pick(&[0x06f0, 0x0966, 0x09e6, 0x0a66, 0x0e50, 0x07c0, 0x17e0, 0x1810, 0x104a0, 0x1d7ce, 0x1d7f6]);
            d.chars().map(|c| c.to_digit(10).and_then(|x| char::from_u32(zero + x)).unwrap_or(c)).collect()
        }
        0 => d.chars().map(|c| c.to_digit(10).map_or(c, |x| WIDE[x as usize])).collect(),
        1 => d.chars().map(|c| c.to_digit(10).map_or(c, |x| ARAB[x as usize])).collect(),
        2 => d
            .chars()
            .enumerate()
            .map(|(i, c)| match c.to_digit(10) {
                Some(x) if x >= 2 && i >= 3 => ["", "", "A", "d", "G", "J", "m", "P", "T", "W"][x as usize].chars().next().unwrap(),
                _ => c,
            })
            .collect(),
        _ => d.to_string(),
    }
}
/// Surplus digits: anything, or the extremes.
pub fn tail(r: &mut Rng, n: usize) -> String {
    match r.n(6) {
        0 => "9".repeat(n),
        1 => "0".repeat(n),
        2 => format!("{}{}", "0".repeat(n.saturating_sub(1)), &"1"[..n.min(1)]),
        _ => (0..n).map(|_| char::from(b'0' + r.n(10) as u8)).collect(),
    }
}
/// The number with up to `n` surplus digits, as far as they fit.
pub fn lengthened(r: &mut Rng, nn: u64, n: usize) -> u64 {
    let mut t = tail(r, n);
    loop {
        if let Ok(v) = format!("{nn}{t}").parse() {
            return v;
        }
        t.pop();
    }
}
pub fn ext_suffix(r: &mut Rng) -> String {
    let n = match r.n(9) {
        0 | 1 => "1".to_string(),
        2 | 3 => "0034".into(),
        4 | 5 => r.below(100_000).to_string(),
        6 => {
            // up to, and beyond, the longest that is taken
            let k = *r.pick(&[6, 7, 8, 9, 10, 15, 19, 20, 20, 20, 21, 30]);
            tail(r, k)
        }
        _ => r.below(1_000_000_000).to_string(),
    };
    let f = *r.pick(&[" ext ", " x", ";ext=", " extn. ", "#", " доб. ", " int ", ",,", " x. ", "ext:", " anexo ", " #"]);
    format!("{f}{n}{}", if r.chance(1, 6) { "#" } else { "" })
}
pub fn alphabet_text(r: &mut Rng, max: usize) -> String {
    const A: &[char] = &[
        '+', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '０', '١', '٣', 'x', 'X', ';', '=', ',', '.', '-', '(', ')', '/', '~', '#', '*', 'é',
        ' ', '＋', 'e', 't', 'A', 'z', '\u{0}', '\u{200b}', '\u{1f600}', '?', '[', ']', '\n', '\u{fffd}', '–', '\u{2068}',
    ];
    let mut s = String::new();
    if r.chance(1, 4) {
        s.push_str(*r.pick(&["tel:", "+", "＋", "++", "tel:+", "TEL:"]));
    }
    for _ in 0..r.n(max) {
        if r.chance(1, 3) {
            s.push(*r.pick(A))
        } else {
            s.push(char::from(b'0' + r.n(10) as u8))
        }
    }
    if r.chance(1, 5) {
        s.push_str(*r.pick(&[";phone-context=", ";ext=", ";isub=", ";phone-context=+", ";phone-context=a.b-c", ";phone-context=+1", "tel:", ";x=y", ";phone-context=;", ";isub=12;phone-context=+44"]));
        for _ in 0..r.n(6) {
            s.push(*r.pick(A));
        }
    }
    if r.chance(1, 25) {
        s.push_str("tel:");
        s.push_str(&r.below(1000).to_string());
    }
    s
}
/// A text for the number with national digits `d`.
pub fn text_for(r: &mut Rng, c: &Corpus, region: &str, cc: i32, d: &str) -> String {
    let long;
    let d = if r.chance(1, 20) {
        // next to nothing
        &d[..d.len().min(r.n(5))]
    } else if r.chance(1, 16) {
        // too long, more or less
        let k = *r.pick(&[1, 2, 3, 5, 7, 9, 12, 20]);
        long = format!("{d}{}", tail(r, k));
        &long
    } else {
        d
    };
    let ndd = c.reg(region).map(|x| x.ndd.clone()).unwrap_or_default();
    let base = match r.n(13) {
        // an international prefix, and what follows is not always a calling code
        11 => format!("{}{}{}", r.pick(&c.regs).idd, if r.chance(1, 2) { "0" } else { "" }, punct(r, d)),
        0 | 1 => format!("+{}", punct(r, &format!("{cc}{d}"))),
        2 => format!("+{cc} {}", punct(r, d)),
        3 | 4 => punct(r, d),
        5 | 6 => format!("{ndd}{}", punct(r, d)),
        7 => {
            let o = r.pick(&c.regs);
            format!("{} {cc} {}", o.idd, punct(r, d))
        }
        8 => format!("tel:+{cc}-{}", punct(r, d)),
        9 => format!("tel:{d};phone-context=+{cc}"),
        10 => format!("{cc}{d}"),
        _ => format!("({}) {}", &d[..d.len().min(3)], &d[d.len().min(3)..]),
    };
    let mut s = script(r, &base);
    if r.chance(1, 5) {
        s.push_str(&ext_suffix(r));
    }
    if r.chance(1, 12) {
        s = format!("{}{s}{}", ["Tel ", "", "call: "][r.n(3)], [" / +1 2", "", "!!", "\u{200e}"][r.n(4)]);
    }
    s
}
/// Variants of a base number that agree with it in all but one respect.
pub fn variant(r: &mut Rng, c: &Corpus, region: &str, cc: i32, d: &str) -> Num {
    let mut n = num_from_digits(cc, d);
    let nn = n.nn.unwrap();
    match r.n(25) {
        0..=3 => {}
        22 => {
            // as long as the real one, but not a number of the plan
            let s = nn.to_string();
            let f = *r.pick(&['0', '1', '2', '9']);
            n = num_from_digits(cc, &format!("{f}{}", &s[1..]));
        }
        23 => {
            let s = nn.to_string();
            n.nn = s.replace(|_: char| true, r.pick(&["1", "2", "9", "5"])).parse().ok();
        }
        24 => {
            n.nn = Some(r.below(10u64.pow(nn.to_string().len().min(15) as u32)));
        }
        4 => n.cc = Some(r.pick(&c.regs).cc),
        5 => n.nn = Some(nn / 10 * 10 + r.below(10)),
        6 => {
            n.ilz = Some(true);
            if r.chance(1, 2) {
                n.nlz = Some(r.range(1, 4) as i32);
            }
        }
        7 => n.ext = Some(r.below(10000).to_string()),
        8 => {
            n.raw = Some(text_for(r, c, region, cc, d));
            n.ccs = Some(*r.pick(&[0, 1, 5, 10, 20]));
        }
        9 => n.nn = Some(nn.wrapping_add(1 << 32) % 100_000_000_000_000_000),
        10 => n.nn = Some(nn / 10),
        11 => n.nn = Some((nn.wrapping_mul(10) + r.below(10)) % 1_000_000_000_000_000_000),
        12 => n.nn = Some(nn.to_string().chars().rev().collect::<String>().parse().unwrap_or(1)),
        13 => n.pcc = Some((*r.pick(&["", "12", "15", "0", "1 2", "31"])).to_string()),
        14 => {
            let e: Vec<&Ex> = c.exs.iter().filter(|e| e.cc == cc).collect();
            if !e.is_empty() {
                let e = *r.pick(&e);
                n = num_from_digits(cc, &e.digits);
            }
        }
        15 => n.nn = Some(nn ^ (1 << r.n(33))),
        16 => {
            let s = nn.to_string();
            let k = s.len().min(3);
            n.nn = Some(format!("{}{:0w$}", &s[..k], r.below(10_000_000) % 10u64.pow((s.len() - k).min(7) as u32), w = s.len() - k).parse().unwrap_or(nn));
        }
        17 => {
            n.ilz = Some(r.chance(1, 2));
            n.ext = Some("".into());
        }
        18 => n.nn = Some(nn % 10_000_000),
        19 => n.nn = Some((nn % 10_000_000_000) * 1000 + r.below(1000)),
        20 => {
            n.raw = Some(format!("{}", script(r, &format!("+{cc}{d}"))));
            n.ccs = Some(1);
            n.ext = Some("12".into());
        }
        _ => n.cc = None,
    }
    n
}
/// Changes one field of a number.
pub fn one_field(r: &mut Rng, c: &Corpus, n: &mut Num) {
    let nn = n.nn.unwrap_or(0);
    match r.n(12) {
        0 => n.cc = Some(r.pick(&c.regs).cc),
        1 => n.nn = Some(nn / 10 * 10 + (nn + 1) % 10),
        2 => {
            // the same digits, some of them leading zeros
            let z = n.nlz.unwrap_or(1);
            n.ilz = Some(!n.ilz.unwrap_or(false));
            n.nlz = if r.chance(1, 2) { None } else { Some(z) };
        }
        3 => n.nlz = Some(n.nlz.unwrap_or(1) + 1),
        4 => n.ext = if n.ext.is_some() && r.chance(1, 2) { None } else { Some(r.below(100).to_string()) },
        5 => n.raw = if n.raw.is_some() { None } else { Some(format!("+{} {nn}", n.cc.unwrap_or(0))) },
        6 => n.raw = Some(format!("0{nn}")),
        7 => n.ccs = if n.ccs.is_some() && r.chance(1, 3) { None } else { Some(*r.pick(&[1, 5, 10, 20])) },
        8 => n.pcc = Some((*r.pick(&["", "12", "15", "31"])).to_string()),
        9 => n.nn = Some(nn % 1_000_000_000_000_000_000 * 10 + r.below(10)),
        10 => n.nn = Some(nn / 10),
        _ => {
            // as long, with the same ends
            let mut s = nn.to_string().into_bytes();
            let k = s.len() / 2;
            s[k] = b'0' + (s[k] - b'0' + 1 + r.n(8) as u8) % 10;
            n.nn = String::from_utf8(s).unwrap().parse().ok();
        }
    }
}
/// One text, read as dialled in several regions: often fine in one and not in another.
fn across_regions(r: &mut Rng, c: &Corpus, v: &mut Vec<Op>) {
    let e = r.pick(&c.exs);
    let x = r.pick(&c.regs);
    let text = match r.n(4) {
        // an international prefix followed by no calling code, or a wrong one
        0 => format!("{}0{}", x.idd, e.digits),
        1 => format!("{}{}", x.idd, r.below(1_000_000_000)),
        2 => format!("{}{}", x.ndd, e.digits),
        _ => text_for(r, c, &e.region, e.cc, &e.digits),
    };
    let other = r.pick(&c.regs);
    let mut regions = vec![x.code.clone(), e.region.clone(), other.code.clone(), c.region(r), "ZZ".into()];
    // with the same prefixes
    regions.extend(c.regs.iter().filter(|y| y.idd == x.idd).take(2).map(|y| y.code.clone()));
    let k = r.n(2) as u8;
    for _ in 0..8 {
        v.push(Op { k: if r.chance(1, 6) { 1 - k } else { k }, s1: text.clone(), s2: r.pick(&regions).clone(), ..Default::default() });
    }
}
/// Numbers of all kinds of a calling code that several regions share.
fn shared_code(r: &mut Rng, c: &Corpus, v: &mut Vec<Op>) {
    let shared: Vec<&Reg> = c.regs.iter().filter(|x| c.regs.iter().any(|y| y.cc == x.cc && y.code != x.code)).collect();
    let cc = if r.chance(1, 3) { *r.pick(&[1, 7, 44, 61, 39]) } else { r.pick(&shared).cc };
    let e: Vec<&Ex> = c.exs.iter().filter(|e| e.cc == cc).collect();
    let same: Vec<&Reg> = c.regs.iter().filter(|x| x.cc == cc).collect();
    if e.is_empty() || same.is_empty() {
        return;
    }
    let k = *r.pick(&[19, 19, 17, 17, 27, 28, 8, 24, 26, 14, 15, 2, 5, 30]);
    for _ in 0..10 {
        let x = *r.pick(&e);
        let mut n = num_from_digits(cc, &x.digits);
        if r.chance(1, 4) {
            let nn = n.nn.unwrap_or(0);
            n.nn = Some(nn / 1000 * 1000 + r.below(1000));
        }
        let mut o = Op { k: if r.chance(1, 5) { *r.pick(&[19, 17, 27, 28, 2]) } else { k }, n, s2: r.pick(&same).code.clone(), ..Default::default() };
        if o.k == 2 {
            o.i = r.n(4) as i32;
        }
        v.push(o);
    }
}
/// Calls that differ from one another in one argument only.
pub fn neighbours(r: &mut Rng, c: &Corpus, size: usize) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    while v.len() < size {
        match r.n(12) {
            0..=3 => {
                across_regions(r, c, &mut v);
                continue;
            }
            4 | 5 => {
                shared_code(r, c, &mut v);
                continue;
            }
            _ => {}
        }
        one_apart(r, c, &mut v, 7);
    }
    v.truncate(size);
    v
}
/// Few calls that are closely related, as a memo or a shortcut would confuse them.
pub fn close_calls(r: &mut Rng, c: &Corpus) -> Vec<Op> {
    let mut v = vec![];
    while v.len() < 8 {
        match r.n(8) {
            0..=3 => across_regions(r, c, &mut v),
            4 => shared_code(r, c, &mut v),
            _ => one_apart(r, c, &mut v, 7),
        }
    }
    v.truncate(10);
    v
}
/// A call and `n` that differ from it in one argument.
fn one_apart(r: &mut Rng, c: &Corpus, v: &mut Vec<Op>, n: usize) {
    {
        let base = family(r, c, 1).pop().unwrap();
        v.push(base.clone());
        let e = r.pick(&c.exs);
        let regions = [e.region.clone(), c.region(r), c.region(r), c.regs.iter().find(|x| x.cc == base.n.cc.unwrap_or(1)).map_or("ZZ".into(), |x| x.code.clone())];
        for _ in 0..n {
            let mut o = base.clone();
            match r.n(6) {
                0 | 1 if !o.s2.is_empty() => o.s2 = r.pick(&regions).clone(),
                2 if !o.s1.is_empty() => match r.n(4) {
                    0 => o.s1.push_str(&ext_suffix(r)),
                    1 => o.s1.push(char::from(b'0' + r.n(10) as u8)),
                    2 => {
                        o.s1.pop();
                    }
                    _ => o.s1 = script(r, &o.s1.clone()),
                },
                3 => {
                    // another question with the same arguments
                    o.k = match o.k {
                        0 => 1,
                        1 => 0,
                        2 | 16 | 17 | 19 | 24 | 26 | 27 | 28 => *r.pick(&[2, 8, 14, 15, 16, 17, 19, 24, 26, 27, 28]),
                        3 | 5 | 6 | 7 | 29 => *r.pick(&[3, 5, 6, 7, 29]),
                        10 | 11 | 13 | 23 => *r.pick(&[10, 11, 13, 23]),
                        18 | 20 => *r.pick(&[18, 20]),
                        k => k,
                    };
                    o.i = if o.k == 2 { r.n(4) as i32 } else { o.i };
                }
                4 if o.k == 25 => std::mem::swap(&mut o.n, &mut o.m),
                5 if o.k == 2 => o.i = r.n(4) as i32,
                _ if o.uses_num() => one_field(r, c, &mut o.n),
                _ if !o.s2.is_empty() => o.s2 = r.pick(&regions).clone(),
                _ if o.k == 12 => o.i = r.n(12) as i32,
                _ => o.i = r.pick(&c.regs).cc,
            }
            v.push(o);
        }
    }
}
/// One family of related calls.
pub fn family(r: &mut Rng, c: &Corpus, size: usize) -> Vec<Op> {
    let e = r.pick(&c.exs);
    let (region, cc, d) = (e.region.clone(), e.cc, e.digits.clone());
    let mut nums: Vec<Num> = (0..7).map(|_| variant(r, c, &region, cc, &d)).collect();
    nums.push(num_from_digits(cc, &d));
    let same: Vec<String> = c.regs.iter().filter(|x| x.cc == cc).map(|x| x.code.clone()).collect();
    let mut regions = vec![region.clone(), region.clone(), c.region(r), c.region(r)];
    regions.push(r.pick(&same).clone());
    let texts: Vec<String> = (0..6)
        .map(|i| {
            if i == 5 {
                alphabet_text(r, 16)
            } else {
                let dd = if r.chance(1, 3) { variant(r, c, &region, cc, &d).nn.unwrap_or(0).to_string() } else { d.clone() };
                text_for(r, c, &region, cc, &dd)
            }
        })
        .collect();
    (0..size).map(|_| random_op(r, &nums, &texts, &regions, cc)).collect()
}
pub fn random_op(r: &mut Rng, nums: &[Num], texts: &[String], regions: &[String], cc: i32) -> Op {
    const W: &[u8] = &[
        0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 8, 9, 10, 11, 12, 13, 13, 14, 15, 16, 17, 17, 17, 18, 19, 19, 19,
        20, 21, 22, 22, 23, 24, 25, 25, 25, 26, 27, 28, 28, 28, 29, 29, 30, 30, 30, 30,
    ];
    let k = *r.pick(W);
    let mut o = Op { k, ..Default::default() };
    if o.uses_num() {
        o.n = r.pick(nums).clone();
    }
    if matches!(k, 3 | 7) && o.n.raw.is_none() && r.chance(1, 2) {
        // there is something to keep
        o.n.raw = Some(r.pick(texts).clone());
        o.n.ccs = Some(*r.pick(&[1, 1, 5, 10, 20, 20]));
    }
    match k {
        0 | 1 => {
            o.s1 = r.pick(texts).clone();
            o.s2 = r.pick(regions).clone();
        }
        2 => o.i = r.n(4) as i32,
        4 => o.s1 = (*r.pick(&["15", "12", "", "31", "14", "$1"])).to_string(),
        9 | 22 => o.s1 = r.pick(texts).clone(),
        3 | 5..=7 | 10 | 11 | 13 | 23 | 29 => o.s2 = r.pick(regions).clone(),
        12 => o.i = r.n(12) as i32,
        18 | 20 => o.i = if r.chance(1, 4) { r.below(1000) as i32 } else { cc },
        25 => o.m = r.pick(nums).clone(),
        TRUNCATE => {
            // mostly a number that really is too long
            if let Some(nn) = o.n.nn {
                let k = if r.chance(1, 4) { r.n(12) } else { r.n(6) };
                o.n.nn = Some(lengthened(r, nn, k));
            }
        }
        _ => {}
    }
    if k == 5 {
        o.b = r.chance(1, 2);
    }
    o
}

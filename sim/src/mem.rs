//! C09: memory retained by a long-lived instance under ever new inputs.
use crate::alloc;
use crate::case::{Case, Seq};
use crate::ops::*;
use crate::pool::{self, Corpus};
use crate::props::Gen;
use crate::rng::{Rng, mix};
use crate::rt::{self, Cfg, S, Strat, stat};
use crate::scn;
use rlibphonenumber::PhoneNumberUtil;
use serde_json::{Value, json};
use std::sync::atomic::Ordering::Relaxed;

/// What a long-lived process does between two looks at its memory.
#[derive(Clone, Debug)]
pub struct Mem {
    pub seed: u64,
    /// Indices into the corpus: the only real numbers used, so that the patterns needed are few.
    pub exs: Vec<usize>,
    /// Operations used.
    pub kinds: Vec<u8>,
    pub threads: usize,
    /// Of 1000 calls, how many are cut short by a panic in application code.
    pub panics: u64,
    /// "serve": calls on one instance; "rebuild": instances created, used and dropped.
    pub rebuild: bool,
    /// The serving thread lives as long as the process (otherwise there are new ones for every phase).
    pub keep: bool,
    /// Every few requests are served by a thread of their own.
    pub churn: bool,
    pub log: bool,
    /// Inputs are drawn this way: 0 sane, 1 hostile texts, 2 mixed.
    pub flavour: u8,
    /// Calls before the first look, and calls between the looks.
    pub warm: u64,
    pub count: u64,
}
const LOOKS: usize = 6;
const WARM: u64 = 10;
const FEW: u64 = 3;
const ROUNDS: u64 = 6;

impl Mem {
    pub fn from_json(v: &Value) -> Option<Mem> {
        let u = |k: &str| v[k].as_u64();
        let l = |k: &str| v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect::<Vec<_>>());
        Some(Mem {
            seed: u("seed")?,
            exs: l("corpus")?.iter().map(|x| *x as usize).collect(),
            kinds: v["kinds"].as_array()?.iter().filter_map(|k| KINDS.iter().position(|n| Some(*n) == k.as_str()).map(|x| x as u8)).collect(),
            threads: u("threads")? as usize,
            panics: u("panics_per_1000")?,
            rebuild: v["rebuild"].as_bool()?,
            keep: v["long_lived_thread"].as_bool().unwrap_or(false),
            churn: v["thread_per_few_requests"].as_bool().unwrap_or(false),
            log: v["log"].as_bool()?,
            flavour: u("flavour")? as u8,
            warm: u("warm_calls")?,
            count: u("calls_per_phase")?,
        })
    }
    /// The i-th request of a phase: nothing in it is shared with any other request.
    fn op(&self, c: &Corpus, r: &mut Rng) -> Op {
        let e = &c.exs[*r.pick(&self.exs)];
        let mut d: Vec<u8> = e.digits.bytes().collect();
        let keep = d.len().saturating_sub(r.range(3, 7) as usize).max(1);
        for x in d[keep..].iter_mut() {
            *x = b'0' + r.n(10) as u8;
        }
        let d = String::from_utf8(d).unwrap();
        let junk = |r: &mut Rng| -> String {
            let n = r.range(3, 9);
            (0..n).map(|_| *r.pick(&['q', 'Q', 'w', '7', '1', 'é', '\u{200b}'])).collect()
        };
        let mut o = Op { k: *r.pick(&self.kinds), ..Default::default() };
        let hostile = self.flavour == 1 || (self.flavour == 2 && r.chance(1, 3));
        let num = |r: &mut Rng| -> Num {
            let mut n = pool::num_from_digits(e.cc, &d);
            match r.n(8) {
                0 => n.ext = Some(r.below(10_000_000).to_string()),
                1 => {
                    n.raw = Some(format!("+{}{d}", e.cc));
                    n.ccs = Some(*r.pick(&[0, 1, 5, 10, 20]));
                }
                2 => n.pcc = Some(r.below(100_000).to_string()),
                3 => n.nn = Some(n.nn.unwrap_or(0) / 100),
                4 => n.nn = Some(n.nn.unwrap_or(0).wrapping_mul(1000).wrapping_add(r.below(1000))),
                5 if hostile => n.cc = Some(1000 + r.below(1 << 30) as i32),
                6 if hostile => {
                    n.ilz = Some(true);
                    n.nlz = Some(r.range(0, 20) as i32);
                    n.nn = Some(r.u64());
                }
                7 if hostile => {
                    n.raw = Some(pool::alphabet_text(r, 40));
                    n.ccs = Some(r.below(30) as i32);
                    n.ext = Some(junk(r));
                }
                _ => {}
            }
            n
        };
        if o.uses_num() {
            o.n = num(r);
        }
        let region = |r: &mut Rng| if hostile && r.chance(1, 2) { junk(r) } else { e.region.clone() };
        match o.k {
            0 | 1 => {
                o.s1 = if hostile {
                    // refused for every reason there is
                    match r.n(10) {
                        0 => format!("+{}{d}{}", e.cc, r.below(1 << 40)),
                        1 => format!("{d}{}{}", "2".repeat(240), r.below(1 << 30)),
                        2 => format!("{d};phone-context={}", junk(r)),
                        3 => format!("+{}{d}", 210 + r.below(2) * 4),
                        4 => format!("{}0{d}", c.reg(&e.region).map_or("00", |x| &x.idd)),
                        5 => format!("{d} / {}{}", r.below(1 << 30), junk(r)),
                        6 => format!("{d};isub={};{}", r.below(1 << 30), junk(r)),
                        _ => pool::alphabet_text(r, 40),
                    }
                } else {
                    match r.n(6) {
                        0 => format!("+{}{d}", e.cc),
                        1 => format!("+{} {}", e.cc, pool::punct(r, &d)),
                        2 => d.clone(),
                        3 => format!("{d} ext {}", r.below(100_000)),
                        4 => format!("tel:{d};phone-context=+{}", e.cc),
                        _ => pool::script(r, &d),
                    }
                };
                o.s2 = region(r);
            }
            2 => o.i = r.n(4) as i32,
            4 => o.s1 = r.below(1_000_000).to_string(),
            9 | 22 => o.s1 = if hostile { pool::alphabet_text(r, 40) } else { pool::script(r, &d) },
            3 | 5..=7 | 10 | 11 | 13 | 23 | 29 => o.s2 = region(r),
            12 => o.i = r.n(12) as i32,
            18 | 20 => o.i = if r.chance(1, 2) { e.cc } else { 1000 + r.below(1 << 30) as i32 },
            25 => o.m = num(r),
            _ => {}
        }
        o.b = o.k == 5 && r.chance(1, 2);
        o
    }
    fn serve(&self, u: &PhoneNumberUtil, c: &Corpus, seed: u64, n: u64) {
        let mut r = Rng::new(seed);
        let mut f = vec![];
        for _ in 0..n {
            let o = self.op(c, &mut r);
            f.clear();
            if self.panics > 0 && r.chance(self.panics, 1000) {
                let site = if r.chance(1, 2) { Site::Log } else { Site::Str };
                f.push(Fault { site, nth: 1 + r.exp(3) as u32, act: Act::Panic });
            }
            let mut x = Ctx { logs: 0, strs: 0, depth: 0, busy: false, faults: &f, fired: 0, reenter: None };
            let _ = exec(u, &o, &mut x, 2_000_000_000);
            stat(S::mem_ops, 1);
        }
    }
    /// Looks at the live heap after phases of serving; `fixed` is what the simulator keeps per phase.
    fn judge(&self, fixed: &dyn Fn(u64) -> [i64; 3], serve: &dyn Fn(u64, u64)) {
        let me = self;
        let show = std::env::var_os("SIM_MEMCURVE").is_some();
        let mut n = me.count;
        let mut last = live();
        let (mut all, mut calls_all, mut bytes_all) = (vec![], 0u64, 0i64);
        for round in 0..ROUNDS {
            let mut d: Vec<[i64; 3]> = vec![];
            for k in 0..LOOKS {
                serve(mix(me.seed, 10 + round * 100 + k as u64), n);
                stat(S::mem_phases, 1);
                let l = live();
                let fixed = fixed(n);
                d.push(std::array::from_fn(|i| l[i] - last[i] - fixed[i]));
                last = l;
            }
            if show {
                eprintln!("{:?} flavour {} panics {} nt {} keep {} rebuild {}: {n} {d:?}", me.kinds.iter().map(|k| KINDS[*k as usize]).collect::<Vec<_>>(), me.flavour, me.panics, me.threads, me.keep, me.rebuild);
            }
            let calls = n * LOOKS as u64;
            let sum = |i: usize| d.iter().map(|x| x[i]).sum::<i64>();
            rt::digest(mix(sum(0) as u64, sum(1) as u64));
            stat(S::checks, 1);
            calls_all += calls;
            bytes_all += sum(1);
            // Growth in proportion to the calls, and not just now and then.
            let (per, bytes) = if me.rebuild { (0.5, 64.0) } else { (0.01, 4.0) };
            let often = |i: usize| d.iter().filter(|x| x[i] > 0).count() >= LOOKS - 1;
            let blocks = sum(0) as f64 > calls as f64 * per && often(0);
            let size = sum(1) as f64 > calls as f64 * bytes && bytes_all as f64 > calls_all as f64 * bytes;
            let regex = sum(2) as f64 > calls as f64 * if me.rebuild { 50.0 } else { 5.0 } && often(2);
            all.push((n, d));
            if !(blocks || size || regex) {
                break;
            }
            if round + 1 == ROUNDS {
                rt::violation("memory-grows", &format!(
                    "memory retained keeps growing in proportion to the requests: {} {} in all, growth per phase (live blocks, bytes, blocks of compiled patterns) {:?}",
                    calls_all, if me.rebuild { "instances built, used and dropped" } else { "requests with new inputs" }, all));
            }
            // Tables filled on demand may still be filling: look again, over more calls.
            n *= 2;
        }
    }
}
fn live() -> [i64; 3] {
    [alloc::BLOCKS.load(Relaxed), alloc::BYTES.load(Relaxed), alloc::REGEX_BLOCKS.load(Relaxed)]
}
impl Seq for Mem {
    fn to_json(&self) -> Value {
        json!({
            "seed": self.seed, "corpus": self.exs, "kinds": self.kinds.iter().map(|k| KINDS[*k as usize]).collect::<Vec<_>>(),
            "threads": self.threads, "panics_per_1000": self.panics, "rebuild": self.rebuild, "long_lived_thread": self.keep, "thread_per_few_requests": self.churn, "log": self.log,
            "flavour": self.flavour, "warm_calls": self.warm, "calls_per_phase": self.count,
            "phases": LOOKS,
        })
    }
    fn boxed(&self) -> Box<dyn Seq> {
        Box::new(self.clone())
    }
    fn shrinks(&self) -> Vec<Box<dyn Seq>> {
        let mut v: Vec<Mem> = vec![];
        if self.threads > 1 {
            v.push(Mem { threads: 1, ..self.clone() });
        }
        if self.churn {
            v.push(Mem { churn: false, ..self.clone() });
        }
        if self.keep {
            v.push(Mem { keep: false, ..self.clone() });
        }
        if self.panics > 0 {
            v.push(Mem { panics: 0, ..self.clone() });
        }
        if self.log && self.panics == 0 {
            v.push(Mem { log: false, ..self.clone() });
        }
        if self.flavour != 0 {
            v.push(Mem { flavour: 0, ..self.clone() });
        }
        if self.kinds.len() > 1 {
            let h = self.kinds.len() / 2;
            v.push(Mem { kinds: self.kinds[..h].to_vec(), ..self.clone() });
            v.push(Mem { kinds: self.kinds[h..].to_vec(), ..self.clone() });
        }
        if self.exs.len() > 1 {
            v.push(Mem { exs: self.exs[..1].to_vec(), ..self.clone() });
        }
        v.into_iter().map(|m| Box::new(m) as Box<dyn Seq>).collect()
    }
    fn run(&self) -> ! {
        let me: &'static Mem = Box::leak(Box::new(self.clone()));
        let c: &'static Corpus = Box::leak(Box::new(Corpus::load()));
        log::set_max_level(if self.log { log::LevelFilter::Trace } else { log::LevelFilter::Off });
        stat(S::runs, 1);
        if alloc::load_ranges() == 0 {
            rt::harness_error("no symbols of the regex automata found");
        }
        alloc::TRACK.store(true, Relaxed);
        let nt = self.threads;
        let batch = |seed: u64, n: u64| {
            let cfg = Cfg {
                seed,
                strat: if nt > 1 { Strat::Gap { mean: 40_000 } } else { Strat::Serial },
                boundary_pm: 200,
                max_switches: 2000,
                step_cap: u64::MAX / 4,
                ..Cfg::default()
            };
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
            for t in 0..nt {
                bodies.push(Box::new(move || {
                    if me.rebuild {
                        for k in 0..n {
                            rt::op_begin(2_000_000_000);
                            let u = Box::new(subject::new_instance());
                            rt::op_end();
                            stat(S::instances_built, 1);
                            me.serve(&u, c, mix(mix(seed, t as u64), k), 12);
                            rt::op_begin(2_000_000_000);
                            drop(u);
                            rt::op_end();
                            stat(S::instances_dropped, 1);
                        }
                    } else {
                        me.serve(scn::base(), c, mix(seed, t as u64), n);
                    }
                }));
            }
            rt::run(cfg, bodies);
        };
        if me.keep {
            // One thread serves, and looks at its memory in between.
            let cfg = Cfg { seed: me.seed, strat: Strat::Serial, step_cap: u64::MAX / 4, ..Cfg::default() };
            rt::run(cfg, vec![Box::new(move || {
                let serve = |seed: u64, n: u64| me.serve(scn::base(), c, seed, n);
                for k in 0..WARM {
                    serve(mix(me.seed, 1000 + k), (me.warm / WARM).max(1));
                }
                me.judge(&|_| [0; 3], &serve);
            })]);
        } else {
            // What the simulator itself keeps per batch of threads.
            batch(mix(me.seed, 1), 0);
            let a = live();
            batch(mix(me.seed, 2), 0);
            let b = live();
            // The regex crate keeps scratch space per pattern for up to eight threads.
            for k in 0..WARM {
                batch(mix(me.seed, 1000 + k), (me.warm / nt as u64 / WARM).max(1));
            }
            if me.churn {
                me.judge(&|n| std::array::from_fn(|i| (b[i] - a[i]) * (n / FEW) as i64), &|s, n| {
                    for k in 0..n / FEW {
                        batch(mix(s, k), FEW);
                    }
                });
            } else {
                me.judge(&|_| std::array::from_fn(|i| b[i] - a[i]), &|s, n| batch(s, n / nt as u64));
            }
        }
        rt::shm().nontrivial = 1;
        rt::digest(me.seed);
        rt::finish_ok()
    }
}
pub fn generate(g: &Gen, seed: u64) -> (Case, String) {
    let mut r = Rng::new(seed);
    let e = r.n(g.corpus.exs.len());
    let cc = g.corpus.exs[e].cc;
    let same: Vec<usize> = (0..g.corpus.exs.len()).filter(|&i| g.corpus.exs[i].cc == cc && g.corpus.exs[i].region == g.corpus.exs[e].region).collect();
    let exs = if r.chance(1, 2) { vec![e] } else { same };
    let kinds: Vec<u8> = match r.n(4) {
        0 | 1 => vec![r.n(31) as u8],
        2 => (0..3).map(|_| r.n(31) as u8).collect(),
        _ => (0..31).collect(),
    };
    let rebuild = r.chance(1, 10);
    let threads = if r.chance(1, 4) { 2 + r.n(2) } else { 1 };
    let mode = if threads == 1 && !rebuild { r.n(3) } else { 0 };
    let panics = if r.chance(1, 3) { *r.pick(&[20, 200, 600]) } else { 0 };
    let m = Mem {
        seed: r.u64(),
        exs,
        kinds,
        threads,
        panics,
        rebuild,
        keep: mode == 1,
        churn: mode == 2,
        log: panics > 0 || r.chance(1, 4),
        flavour: r.n(3) as u8,
        warm: if rebuild { 10 } else if g.quick { 1500 } else { 6000 },
        count: if rebuild { 2 } else if g.quick { 300 } else { 1500 },
    };
    let note = format!("{}{}{}", if rebuild { "rebuild" } else if m.keep { "serve, one lasting thread" } else if m.churn { "serve, ever new threads" } else { "serve" }, if threads > 1 { ", threads" } else { "" }, if panics > 0 { ", interrupted calls" } else { "" });
    (Case::Seq(Box::new(m)), note)
}
pub fn load(v: &Value) -> Option<Box<dyn Seq>> {
    Some(Box::new(Mem::from_json(v)?))
}

//! The properties: how the runs of each are generated from a seed.
use crate::case::{Case, Seq};
use crate::engine;
use crate::ops::*;
use crate::pool::{self, Corpus};
use crate::rng::{Rng, mix};
use crate::rt::{Cfg, PlanItem, S, Strat};
use crate::scn::{Expect, Inst0, Scn, Step};
use serde_json::Value;

pub struct Gen {
    pub corpus: Corpus,
    pub pool: Vec<Op>,
    pub refs: Vec<Expect>,
    /// Ranges of the pool that form a family of related calls.
    pub fams: Vec<(usize, usize)>,
    pub build_steps: u64,
    pub once_edges: Vec<u32>,
    pub quick: bool,
}
pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    /// Workers build the shared instance before the runs (false: the run decides).
    pub prebuild: bool,
    pub families: (usize, usize),
    pub quick_runs: u64,
    pub quick_wall: f64,
    pub thorough_runs: u64,
    pub thorough_wall: f64,
    pub prepare: fn(&Prop, Corpus, u64, bool) -> Gen,
    pub generate: fn(&Gen, u64) -> (Case, String),
    pub load_seq: fn(&Value) -> Option<Box<dyn Seq>>,
    pub known: fn(&str) -> Vec<String>,
    pub rule: &'static str,
    pub probes: &'static [S],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}
pub fn no_seq(_: &Value) -> Option<Box<dyn Seq>> {
    None
}
pub fn no_known(_: &str) -> Vec<String> {
    vec![]
}
const FAM: usize = 24;
pub fn make_pool(c: &Corpus, r: &mut Rng, n: usize) -> (Vec<Op>, Vec<(usize, usize)>) {
    let mut pool = vec![];
    let mut fams = vec![];
    for _ in 0..n {
        let v = if r.chance(1, 3) { pool::neighbours(r, c, FAM) } else { pool::family(r, c, FAM) };
        fams.push((pool.len(), pool.len() + v.len()));
        pool.extend(v);
    }
    (pool, fams)
}
pub fn prepare(p: &Prop, c: Corpus, seed: u64, quick: bool) -> Gen {
    let mut r = Rng::new(mix(mix(seed, engine::prop_hash(p.id)), 0xb001));
    let n = if quick { p.families.0 } else { p.families.1 };
    let (mut pool, mut fams) = make_pool(&c, &mut r, n);
    if p.id == "C12" {
        // Answers that are lent out, of many numbers and calling codes.
        let a = pool.len();
        for _ in 0..150 {
            let cc = *r.pick(&[1, 1, 44, 44, 7, 39, 61, 47, 212, 262, 358, 590, 599]);
            let e: Vec<&pool::Ex> = c.exs.iter().filter(|e| e.cc == cc).collect();
            if !e.is_empty() {
                let e = *r.pick(&e);
                let mut n = pool::num_from_digits(cc, &e.digits);
                n.nn = n.nn.map(|x| x / 100 * 100 + r.below(100));
                pool.push(Op { k: 19, n, ..Default::default() });
            }
        }
        for x in &c.regs {
            if r.chance(1, 2) {
                pool.push(Op { k: 18, i: x.cc, ..Default::default() });
            }
        }
        fams.push((a, pool.len()));
        add_enums(&c, &mut pool);
    }
    if p.id == "C02" {
        // the grand tour
        for e in &c.exs {
            let n = pool::num_from_digits(e.cc, &e.digits);
            pool.push(Op { k: 17, n: n.clone(), ..Default::default() });
            pool.push(Op { k: 2, n, i: r.n(3) as i32, ..Default::default() });
            pool.push(Op { k: 0, s1: e.digits.clone(), s2: e.region.clone(), ..Default::default() });
        }
    }
    if p.id == "C03" {
        // every kind of example, and the enumerations, are always in the pool
        for t in 0..12 {
            pool.push(Op { k: 12, i: t, ..Default::default() });
        }
        add_enums(&c, &mut pool);
        for g in c.regs.iter() {
            for k in [10, 11, 13, 23] {
                if r.chance(1, 3) {
                    pool.push(Op { k, s2: g.code.clone(), ..Default::default() });
                }
            }
            if r.chance(1, 2) {
                pool.push(Op { k: 18, i: g.cc, ..Default::default() });
            }
        }
    }
    let refs = engine::references(&pool);
    let (build_steps, mut once) = engine::build_profile();
    once.retain(|&e| !refs.iter().any(|x| x.edges.get(e as usize / 8).is_some_and(|b| b >> (e % 8) & 1 == 1)));
    Gen { corpus: c, pool, refs, fams, build_steps, once_edges: once, quick }
}
/// For properties whose runs carry their own oracle: only a few good calls to compare with.
pub fn prepare_light(p: &Prop, c: Corpus, seed: u64, quick: bool) -> Gen {
    let mut r = Rng::new(mix(mix(seed, engine::prop_hash(p.id)), 0xb001));
    let (pool, fams) = make_pool(&c, &mut r, 12);
    let refs = engine::references(&pool);
    Gen { corpus: c, pool, refs, fams, build_steps: 0, once_edges: vec![], quick }
}
fn add_enums(c: &Corpus, pool: &mut Vec<Op>) {
    pool.push(Op { k: 21, ..Default::default() });
    let mut ccs: Vec<i32> = c.regs.iter().map(|r| r.cc).collect();
    ccs.sort();
    ccs.dedup();
    for cc in ccs {
        pool.push(Op { k: 20, i: cc, ..Default::default() });
    }
}
/// For a replay: construction profile restricted to steps no call of the scenario takes.
pub fn add_build_profile(scn: &mut Scn, exps: &[Expect]) {
    let (b, mut once) = engine::build_profile();
    once.retain(|&e| !exps.iter().any(|x| x.edges.get(e as usize / 8).is_some_and(|b| b >> (e % 8) & 1 == 1)));
    scn.build_steps = b;
    scn.once_edges = once;
}

/// Collects the calls of one scenario, with their reference answers.
pub struct Build<'a> {
    pub g: &'a Gen,
    pub scn: Scn,
    pub exps: Vec<Expect>,
    /// Calls of this run alone; they are numbered behind the pool.
    fresh: Vec<(Op, Expect)>,
    map: std::collections::HashMap<usize, usize>,
}
impl<'a> Build<'a> {
    pub fn new(g: &'a Gen, id: &str) -> Self {
        let mut scn = Scn::new(id);
        scn.build_steps = g.build_steps;
        Build { g, scn, exps: vec![], fresh: vec![], map: Default::default() }
    }
    pub fn o(&self, pool: usize) -> &Op {
        self.g.pool.get(pool).unwrap_or_else(|| &self.fresh[pool - self.g.pool.len()].0)
    }
    pub fn e(&self, pool: usize) -> &Expect {
        self.g.refs.get(pool).unwrap_or_else(|| &self.fresh[pool - self.g.pool.len()].1)
    }
    /// Calls nobody has thought of before, with reference answers computed now.
    pub fn thought_up(&mut self, v: Vec<Op>) -> Vec<usize> {
        let a = self.g.pool.len() + self.fresh.len();
        for o in v {
            let e = engine::reference_now(&o);
            self.fresh.push((o, e));
        }
        (a..self.g.pool.len() + self.fresh.len()).collect()
    }
    pub fn op(&mut self, pool: usize) -> usize {
        if let Some(&i) = self.map.get(&pool) {
            return i;
        }
        let i = self.exps.len();
        let (o, e) = (self.o(pool).clone(), self.e(pool).clone());
        self.scn.ops.push(o);
        self.exps.push(e);
        self.map.insert(pool, i);
        i
    }
    /// A call that is not in the pool.
    pub fn raw_step(&mut self, o: Op, e: Expect) -> Step {
        self.scn.ops.push(o);
        self.exps.push(e);
        Step::Call { op: self.exps.len() - 1, inst: 0, faults: vec![] }
    }
    /// A call (truncations become checked truncations of the thread's own number).
    pub fn step(&mut self, pool: usize, inst: u8, faults: Vec<Fault>) -> Step {
        let op = self.op(pool);
        if self.o(pool).k == TRUNCATE { Step::Trunc { op, inst, faults } } else { Step::Call { op, inst, faults } }
    }
    pub fn thread_steps(&self) -> Vec<u64> {
        self.scn
            .threads
            .iter()
            .map(|t| {
                t.iter()
                    .map(|s| match s {
                        Step::New { .. } => self.g.build_steps,
                        s => s.op().map_or(300, |o| self.exps[o].steps),
                    })
                    .sum::<u64>()
                    .max(1)
            })
            .collect()
    }
    pub fn total(&self) -> u64 {
        self.thread_steps().iter().sum::<u64>().max(1)
    }
    pub fn finish(mut self, mut cfg: Cfg, note: String) -> (Case, String) {
        // Time passes between calls, and the wall clock is set now and then.
        let mut r = Rng::new(cfg.seed ^ 0x71e5);
        let p = self.scn.prop.as_str();
        if p != "C02" && p != "C03" && p != "C09" && (matches!(cfg.strat, Strat::Hot { .. }) || r.chance(1, 4)) {
            self.scn.shadow = r.range(1, 2) as u8;
        }
        if self.scn.prop != "C02" && self.scn.prop != "C07" && r.chance(1, 12) {
            for v in self.scn.threads.iter_mut() {
                for _ in 0..r.n(3) {
                    let at = r.n(v.len() + 1);
                    v.insert(at, if r.chance(1, 2) { Step::Skew { ns: *r.pick(&SKEWS) } } else { Step::Jump { ns: *r.pick(&JUMPS) } });
                }
            }
        }
        let warm: u64 = self.scn.warm.iter().chain(self.scn.after.iter()).map(|&o| self.exps[o].steps).sum();
        if cfg.step_cap == 0 {
            cfg.step_cap = (self.total() + warm) * 60 + 60_000_000 + self.g.build_steps * 60;
        }
        (Case::Threads { scn: self.scn, exps: self.exps, cfg }, note)
    }
}
const JUMPS: [u64; 6] = [1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000 * 50, 86_400_000_000_000 * 400];
const SKEWS: [i64; 6] = [-1_000_000, 3_600_000_000_000, -3_600_000_000_000, 86_400_000_000_000 * 30, -86_400_000_000_000 * 30, -1_500_000_000_000_000_000];
pub fn pick_fams(g: &Gen, r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![];
    for _ in 0..n {
        let f = *r.pick(&g.fams);
        v.extend(f.0..f.1);
    }
    v
}
/// A schedule strategy for the scenario (swarm style: each run uses one mix).
pub fn schedule(b: &Build, r: &mut Rng) -> (Cfg, String) {
    let mut c = Cfg { seed: r.u64(), step_cap: 0, max_switches: 3000, ..Default::default() };
    let total = b.total();
    let per = b.thread_steps();
    let mut note;
    match r.n(25) {
        20..=24 => {
            let mean = *r.pick(&[1, 2, 3, 6, 12, 40, 200]);
            c.strat = Strat::Hot { mean };
            note = format!("shared memory {mean}");
        }
        0..=4 => {
            let mean = *r.pick(&[3, 10, 30, 100, 300, 1000, 3000, 10_000, 50_000]);
            c.strat = Strat::Gap { mean };
            note = format!("gap {mean}");
        }
        5 | 6 => {
            let mean = *r.pick(&[2, 5, 20, 100, 500]);
            c.strat = Strat::Store { mean };
            note = "stores".to_string();
        }
        7..=9 => {
            let k = r.range(1, 6);
            let mut p: Vec<u64> = (0..k).map(|_| r.below(total)).collect();
            p.sort();
            c.strat = Strat::Pct { points: p };
            note = "priorities".to_string();
        }
        10..=14 => {
            c.plan = plan(b, r, &per);
            note = "planned stalls".to_string();
        }
        15..=18 => {
            c.traps = traps(b, r, total);
            if r.chance(1, 3) {
                c.strat = Strat::Gap { mean: *r.pick(&[1000, 10_000]) };
            }
            note = "edge traps".to_string();
        }
        _ => {
            c.plan = plan(b, r, &per);
            c.traps = traps(b, r, total);
            note = "stalls+traps".to_string();
        }
    }
    c.boundary_pm = *r.pick(&[0, 0, 100, 500]);
    if r.chance(1, 6) || matches!(c.strat, Strat::Hot { .. }) && r.chance(1, 2) {
        c.stall_pm = 100;
        c.stall_len = total / 4 + 1;
        note.push_str("+long");
    }
    (c, note)
}
fn plan(b: &Build, r: &mut Rng, per: &[u64]) -> Vec<PlanItem> {
    let mut v = vec![];
    let total: u64 = per.iter().sum();
    for _ in 0..r.range(1, 4) {
        let tid = r.n(b.scn.threads.len());
        let t = &b.scn.threads[tid];
        if t.is_empty() {
            continue;
        }
        let k = r.n(t.len());
        let steps = match &t[k] {
            Step::New { .. } => b.g.build_steps,
            s => s.op().map_or(50, |o| b.exps[o].steps),
        };
        let stall = *r.pick(&[0, 50, 500, 5000, steps, total, total, total]);
        v.push(PlanItem { tid: tid as u8, opno: k as u32 + 1, at: 1 + r.below(steps), stall });
    }
    v
}
fn traps(b: &Build, r: &mut Rng, total: u64) -> Vec<(u32, u32, u64)> {
    let n = b.exps.iter().map(|e| e.edges.len()).max().unwrap_or(0);
    let mut count = vec![0u32; n * 8];
    for e in &b.exps {
        for (i, x) in e.edges.iter().enumerate() {
            for k in 0..8 {
                count[i * 8 + k] += (x >> k & 1) as u32;
            }
        }
    }
    let all: Vec<u32> = (1..count.len() as u32).filter(|&i| count[i as usize] > 0).collect();
    if all.is_empty() {
        return vec![];
    }
    (0..r.range(1, 4))
        .map(|_| {
            let nth = if r.chance(1, 2) { 1 } else { 1 + r.exp(3) as u32 };
            (*r.pick(&all), nth, *r.pick(&[100, 2000, 20_000, total, total]))
        })
        .collect()
}
pub fn env_noise(s: &mut Scn, r: &mut Rng) {
    s.lifo = r.chance(1, 2);
    s.log_level = if r.chance(1, 4) { 0 } else { 5 };
    s.clock_quantum = *r.pick(&[1, 1, 3, 1000]);
    if s.inst0 == Inst0::Base && engine::FULL_PROPS.contains(&s.prop.as_str()) && r.chance(1, 4) {
        s.inst0 = Inst0::Full;
    }
}

/// Threads that call related operations at the same time.
fn concurrent(b: &mut Build, r: &mut Rng, max_threads: usize, max_ops: usize, insts: &[u8]) -> Vec<usize> {
    let nf = 1 + r.n(2);
    let mut cand = pick_fams(b.g, r, nf);
    if b.scn.prop == "C01" && r.chance(1, 10) {
        let v = pool::close_calls(r, &b.g.corpus);
        cand = b.thought_up(v);
    }
    let nt = match r.n(6) {
        0..=2 => 2,
        3 | 4 => 3,
        _ => r.range(4, max_threads.max(4) as u64) as usize,
    };
    // now and then a crowd with little to do each
    let crowd = max_threads >= 6 && r.chance(1, 12);
    let nt = if crowd { r.range(9, 32) as usize } else { nt };
    let max_ops = if crowd { 2 } else { max_ops };
    let mode = r.n(6);
    let fixed: Vec<usize> = (0..r.range(1, 3)).map(|_| *r.pick(&cand)).collect();
    let kind = b.o(*r.pick(&cand)).k;
    let same_kind: Vec<usize> = cand.iter().copied().filter(|&i| b.o(i).k == kind).collect();
    for _ in 0..nt {
        let n = match r.n(4) {
            0 => 1,
            1 => 2,
            _ => r.range(2, max_ops as u64) as usize,
        };
        let mut v = vec![];
        let own = *r.pick(&cand);
        for _ in 0..n {
            let o = match mode {
                // each thread asks the same again and again
                5 => own,
                0 => *r.pick(&fixed),
                1 => *r.pick(&same_kind),
                2 if r.chance(1, 2) => *r.pick(&fixed),
                _ => *r.pick(&cand),
            };
            let inst = *r.pick(insts);
            v.push(b.step(o, inst, vec![]));
        }
        b.scn.threads.push(v);
    }
    if r.chance(1, 10) {
        leave(b, r);
    }
    cand
}
/// Some threads make their last calls while they are ending.
fn leave(b: &mut Build, r: &mut Rng) {
    for t in b.scn.threads.iter_mut() {
        if r.chance(2, 3) && !t.is_empty() {
            let at = t.len() - r.n(t.len().min(4) + 1);
            t.insert(at, Step::Leave { early: r.chance(1, 2) });
        }
    }
}
fn warm_up(b: &mut Build, r: &mut Rng, cand: &[usize]) {
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 6) {
            let o = b.op(*r.pick(cand));
            b.scn.warm.push(o);
        }
    }
}
pub fn after(b: &mut Build, r: &mut Rng, cand: &[usize], n: usize) {
    for _ in 0..n {
        let o = b.op(*r.pick(cand));
        b.scn.after.push(o);
    }
    // what the threads asked, asked again
    let v: Vec<usize> = b.scn.threads.iter().flatten().filter_map(|s| s.op()).collect();
    for _ in 0..n.min(v.len()) {
        b.scn.after.push(*r.pick(&v));
    }
}

/// A few threads put the same question about a few numbers over and over, and change
/// places wherever they touch memory they share.
fn duel(mut b: Build, r: &mut Rng) -> (Case, String) {
    let nf = *r.pick(&[1, 1, 4]);
    let cand = pick_fams(b.g, r, nf);
    let mut kinds: Vec<u8> = cand.iter().map(|&o| b.o(o).k).collect();
    kinds.sort();
    kinds.dedup();
    let k = *r.pick(&kinds);
    let all: Vec<usize> = cand.iter().copied().filter(|&o| b.o(o).k == k).collect();
    let mut few = vec![*r.pick(&all)];
    let most = *r.pick(if nf == 1 { &[2, 3, 3, 6] } else { &[3, 8, 12] });
    for _ in 0..4 * most {
        let o = *r.pick(&all);
        if few.len() < most.min(4) && !few.iter().any(|&f| b.e(f).res == b.e(o).res) {
            few.push(o);
        }
    }
    // as many of one answer as of another
    let d = few.len();
    for _ in 0..8 * most {
        let o = *r.pick(&all);
        if few.len() < most && !few.contains(&o) && b.e(o).res == b.e(few[few.len() % d]).res {
            few.push(o);
        }
    }
    if few.len() == 1 {
        few.push(*r.pick(&all));
    }
    let cheap = few.iter().all(|&o| b.e(o).steps < 4000);
    for t in 0..r.range(3, 4) {
        let own = few[t as usize % few.len()];
        let mixed = r.chance(1, 2);
        let n = if cheap { r.range(10, 40) } else { r.range(3, 10) };
        let v = (0..n).map(|_| b.step(if mixed { *r.pick(&few) } else { own }, 0, vec![])).collect();
        b.scn.threads.push(v);
    }
    if r.chance(1, 2) {
        warm_up(&mut b, r, &cand);
        for &o in &few {
            let o = b.op(o);
            b.scn.warm.push(o);
        }
    }
    after(&mut b, r, &few, 1);
    env_noise(&mut b.scn, r);
    let (mut c, mut n) = schedule(&b, r);
    if r.chance(3, 4) {
        let mean = *r.pick(&[1, 2, 3, 6, 12, 40]);
        c = Cfg { seed: c.seed, step_cap: 0, max_switches: 3000, strat: Strat::Hot { mean }, ..Default::default() };
        if r.chance(1, 2) {
            c.stall_pm = 100;
            c.stall_len = b.total() / 4 + 1;
        }
        n = format!("shared memory {mean}");
    }
    b.finish(c, format!("duel, {n}"))
}
pub fn gen_c01(g: &Gen, seed: u64) -> (Case, String) {
    let mut r = Rng::new(seed);
    let mut b = Build::new(g, "C01");
    if r.chance(1, 3) {
        return duel(b, &mut r);
    }
    let cand = concurrent(&mut b, &mut r, 6, 8, &[0]);
    warm_up(&mut b, &mut r, &cand);
    after(&mut b, &mut r, &cand, 2);
    env_noise(&mut b.scn, &mut r);
    let (c, n) = schedule(&b, &mut r);
    b.finish(c, n)
}
pub fn gen_c02(g: &Gen, seed: u64) -> (Case, String) {
    let mut r = Rng::new(seed);
    let mut b = Build::new(g, "C02");
    let mut cfg = Cfg { seed: r.u64(), step_cap: 0, ..Default::default() };
    let style = r.n(40);
    let mut note = "history".to_string();
    let nt = if r.chance(1, 4) { 2 } else { 1 };
    let len = match style {
        0 if !g.quick || r.chance(1, 2) => {
            note = "marathon".into();
            70_000
        }
        0..=2 => {
            note = "long history".into();
            6000
        }
        3..=12 => r.range(2, 30) as usize,
        _ => r.range(50, 600) as usize,
    };
    let nf = match r.n(4) {
        0 => 1,
        1 => 3,
        2 => 8,
        _ => 30,
    };
    let mut one = false;
    let mut cand = pick_fams(g, &mut r, nf);
    if len < 6000 && r.chance(2, 5) {
        note.push_str(", new calls");
        let v = pool::close_calls(&mut r, &g.corpus);
        cand = b.thought_up(v);
    }
    // In marathons, cheap and few calls.
    let mut cheap: Vec<usize> = cand.iter().copied().filter(|&o| b.e(o).steps < 12_000).collect();
    // One operation over and over: what counts its calls comes to the end of a byte or of two.
    if len >= 6000 && r.chance(1, 2) {
        let lim = if len >= 70_000 { 15_000 } else { 60_000 };
        let k = g.pool[r.n(g.pool.len())].k;
        let all: Vec<usize> = (0..g.pool.len()).filter(|&o| g.pool[o].k == k && b.e(o).steps < lim).collect();
        if !all.is_empty() {
            note.push_str(", one operation");
            cheap = (0..r.range(1, 12)).map(|_| *r.pick(&all)).collect();
            cand.truncate(4);
            one = true;
        }
    }
    b.scn.threads = vec![vec![]; nt];
    let mut local: Vec<usize> = vec![];
    for i in 0..len {
        if local.is_empty() || r.chance(1, 25) {
            local = (0..r.range(1, 6)).map(|_| *r.pick(&cand)).collect();
        }
        let o = if (one || len >= 70_000) && !cheap.is_empty() {
            if one && r.chance(1, 300) { *r.pick(&cand) } else { *r.pick(&cheap) }
        } else if r.chance(2, 3) {
            *r.pick(&local)
        } else {
            *r.pick(&cand)
        };
        let mut f = vec![];
        if len < 3000 && r.chance(1, 12) {
            f = faults(&mut r, b.e(o), |_| Act::Panic, 1);
        }
        let s = b.step(o, 0, f);
        let t = i % nt;
        b.scn.threads[t].push(s);
        if r.chance(1, 300) {
            let ns = *r.pick(&JUMPS);
            b.scn.threads[t].push(Step::Jump { ns });
        }
        if r.chance(1, 400) {
            let ns = *r.pick(&SKEWS);
            b.scn.threads[t].push(Step::Skew { ns });
        }
    }
    // A flood of calls none of which repeats: what remembers answers runs full.
    if len <= 600 && r.chance(1, 30) {
        let n = *r.pick(&[1500, 5000, 5000, 20_000]);
        note.push_str(", flood");
        let k = b.o(*r.pick(&cand)).k;
        let one = r.chance(1, 2);
        let src: Vec<usize> = cand.iter().copied().filter(|&o| (!one || b.o(o).k == k) && b.e(o).steps < 25_000 && b.o(o).k != TRUNCATE).collect();
        if !src.is_empty() {
            let src: Vec<usize> = (0..4).map(|_| *r.pick(&src)).collect();
            let mut v = vec![];
            for i in 0..n {
                let o = src[i % src.len()];
                let mut x = b.o(o).clone();
                pool::fresh_digits(&mut r, &mut x);
                x.any = true;
                v.push(b.raw_step(x, crate::hostile::any_expect(b.o(o))));
                if r.chance(1, 200) {
                    v.push(b.step(*r.pick(&cand), 0, vec![]));
                }
            }
            // what was asked before, asked again
            let old: Vec<usize> = src.iter().copied().chain((0..20).map(|_| *r.pick(&cand))).collect();
            for &o in &old {
                let s = b.step(o, 0, vec![]);
                b.scn.threads[0].insert(0, s);
                v.push(b.step(o, 0, vec![]));
            }
            b.scn.threads[0].extend(v);
        }
    }
    // Numbers of every region and type are asked about on the way: nearly every pattern there is.
    if r.chance(1, if g.quick { 150 } else { 80 }) {
        note.push_str(", grand tour");
        let at = r.n(b.scn.threads[0].len() + 1);
        let tail = b.scn.threads[0].split_off(at);
        let a = g.fams.last().map_or(0, |f| f.1);
        let n = g.pool.len() - a;
        let (from, by) = (r.n(n), r.range(1, 3) as usize);
        for k in (0..n).step_by(by) {
            let s = b.step(a + (from + k) % n, 0, vec![]);
            b.scn.threads[0].push(s);
        }
        b.scn.threads[0].extend(tail);
    }
    env_noise(&mut b.scn, &mut r);
    if nt == 2 {
        cfg.boundary_pm = 500;
        cfg.max_switches = 100_000;
        note.push_str(", two threads in turn");
    }
    b.finish(cfg, note)
}
/// Random faults for a call that makes `e.logs` log records and `e.strs` conversions.
pub fn faults(r: &mut Rng, e: &Expect, mut act: impl FnMut(&mut Rng) -> Act, max: usize) -> Vec<Fault> {
    let mut v = vec![];
    let n = e.logs + e.strs;
    if n == 0 {
        return v;
    }
    for _ in 0..r.range(1, max as u64) {
        let k = r.n(n as usize) as u32;
        let (site, nth) = if k < e.logs { (Site::Log, k + 1) } else { (Site::Str, k - e.logs + 1) };
        let act = act(r);
        if !v.iter().any(|f: &Fault| f.site == site && f.nth == nth) {
            v.push(Fault { site, nth, act });
        }
    }
    v
}
pub fn gen_c03(g: &Gen, seed: u64) -> (Case, String) {
    let mut r = Rng::new(seed);
    let mut b = Build::new(g, "C03");
    b.scn.inst0 = if r.chance(1, 4) { Inst0::None } else { Inst0::Fresh };
    b.scn.hash_seed = r.u64();
    b.scn.cpus = *r.pick(&[1, 2, 3, 4, 8, 16, 64, 256, 1000]);
    b.scn.env_fuzz = if r.chance(1, 3) { 0 } else { r.u64() | 1 };
    b.scn.clock_base = match r.n(5) {
        0 => 1_600_000_000_000_000_000,
        1 => 1_600_000_000_000_000_000 + r.below(1 << 50),
        2 => 4_102_444_800_000_000_000,
        3 => 9_000_000_000_000_000_000,
        _ => 1_700_000_000_000_000_000 + r.below(1 << 58),
    };
    env_noise(&mut b.scn, &mut r);
    b.scn.clock_quantum = *r.pick(&[0, 1, 7, 1000, 100_000, 10_000_000]);
    let inst = if b.scn.inst0 == Inst0::None { 1 } else { 0 };
    let nt = r.range(1, 3) as usize;
    let n = r.range(40, 250) as usize;
    let base = g.fams.last().map_or(0, |f| f.1);
    for t in 0..nt {
        let mut v = vec![];
        for _ in 0..n / nt {
            let o = if r.chance(1, 4) { base + r.n(g.pool.len() - base) } else { r.n(g.pool.len()) };
            v.push(b.step(o, inst, vec![]));
        }
        if t == 0 {
            for k in base..(base + 12).min(g.pool.len()) {
                v.push(b.step(k, inst, vec![]));
            }
        }
        b.scn.threads.push(v);
    }
    if r.chance(1, 10) {
        leave(&mut b, &mut r);
    }
    let cfg = Cfg { seed: r.u64(), step_cap: 0, boundary_pm: 100, ..Default::default() };
    b.finish(cfg, format!("{} cpus, {} asking threads", b_cpus(seed), nt))
}
fn b_cpus(_: u64) -> &'static str {
    "varied"
}
pub fn gen_c04(g: &Gen, seed: u64) -> (Case, String) {
    let mut r = Rng::new(seed);
    let mut b = Build::new(g, "C04");
    let cand = concurrent(&mut b, &mut r, 8, 6, &[0]);
    if r.chance(1, 5) {
        warm_up(&mut b, &mut r, &cand);
    }
    env_noise(&mut b.scn, &mut r);
    if r.chance(1, 3) {
        let total = b.total();
        for t in 0..b.scn.threads.len() {
            for k in 0..b.scn.threads[t].len() {
                if r.chance(1, 4) {
                    let e = b.scn.threads[t][k].op().map(|o| b.exps[o].clone()).unwrap_or_default();
                    let f = faults(&mut r, &e, |r| Act::Stall(r.below(total) + 1), 2);
                    if let Some(x) = b.scn.threads[t][k].faults_mut() {
                        *x = f;
                    }
                }
            }
        }
    }
    let (mut c, n) = schedule(&b, &mut r);
    let total = b.total();
    c.spurious_pm = *r.pick(&[0, 100, 500]);
    c.eintr_pm = *r.pick(&[0, 100, 300]);
    if r.chance(1, 2) {
        c.stall_pm = *r.pick(&[50, 300]);
        c.stall_len = *r.pick(&[total / 10 + 1, total, total * 3]);
    }
    after(&mut b, &mut r, &cand, 1);
    b.finish(c, n)
}
pub fn gen_c05(g: &Gen, seed: u64) -> (Case, String) {
    let mut r = Rng::new(seed);
    let mut b = Build::new(g, "C05");
    let insts: &[u8] = if r.chance(1, 4) { &[0, 0, 0, 1] } else { &[0] };
    let cand = concurrent(&mut b, &mut r, 4, 5, insts);
    if r.chance(1, 4) {
        // one caller alone
        b.scn.threads.truncate(1);
    }
    warm_up(&mut b, &mut r, &cand);
    env_noise(&mut b.scn, &mut r);
    b.scn.log_level = 5;
    let total = b.total();
    let allow_global = r.chance(1, 6);
    let mut any = false;
    let mut blocks = 0;
    for t in 0..b.scn.threads.len() {
        for k in 0..b.scn.threads[t].len() {
            if !r.chance(1, 2) {
                continue;
            }
            let Some(o) = b.scn.threads[t][k].op() else { continue };
            let e = b.exps[o].clone();
            let mut inner = vec![];
            for _ in 0..4 {
                let x = if r.chance(1, 3) { None } else { Some(*r.pick(&cand)) };
                inner.push(match x {
                    Some(p) => b.op(p),
                    None => o, // the very same call again
                });
            }
            let single = b.scn.threads.len() == 1;
            let f = faults(&mut r, &e, |r| match r.n(6) {
                0 if !single => {
                    blocks += 1;
                    Act::BlockOthers
                }
                1 => Act::Stall(r.below(total) + 1),
                _ => Act::Reenter(*r.pick(&inner), if allow_global && r.chance(1, 3) { 1 } else { 0 }),
            }, 3);
            any |= !f.is_empty();
            if let Some(x) = b.scn.threads[t][k].faults_mut() {
                *x = f;
            }
        }
    }
    // Application code inside application code inside ...
    b.scn.nest = *r.pick(&[1, 1, 1, 2, 2, 3, 5, 9, 20]);
    // The first use of the global instance, with application code that uses it as well; what is
    // logged while it is built comes before what the call itself logs.
    let first = r.chance(1, 10);
    if first {
        for t in 0..b.scn.threads.len() {
            let o = *r.pick(&cand);
            let inner = b.op(*r.pick(&cand));
            let act = if r.chance(1, 6) { Act::Stall(r.below(total) + 1) } else { Act::Reenter(inner, r.chance(3, 4) as u8) };
            let site = if b.g.refs[o].strs > 0 && r.chance(1, 3) { Site::Str } else { Site::Log };
            let s = b.step(o, 1, vec![Fault { site, nth: *r.pick(&[1, 1, 1, 2, 3, 6]), act }]);
            b.scn.threads[t].insert(0, s);
        }
    }
    let (c, n) = schedule(&b, &mut r);
    after(&mut b, &mut r, &cand, 1);
    let n = format!("{n}{}{}", if any || first { "" } else { " (no fault)" }, if first { ", first use of the global" } else { "" });
    b.finish(c, n)
}
pub fn gen_c06(g: &Gen, seed: u64) -> (Case, String) {
    let mut r = Rng::new(seed);
    let mut b = Build::new(g, "C06");
    let insts: &[u8] = if r.chance(1, 6) { &[0, 0, 0, 1] } else { &[0] };
    let cand = concurrent(&mut b, &mut r, 4, 6, insts);
    if r.chance(1, 3) {
        b.scn.threads.truncate(1);
    }
    warm_up(&mut b, &mut r, &cand);
    env_noise(&mut b.scn, &mut r);
    b.scn.log_level = 5;
    for t in 0..b.scn.threads.len() {
        for k in 0..b.scn.threads[t].len() {
            if r.chance(2, 5) {
                let Some(o) = b.scn.threads[t][k].op() else { continue };
                let e = b.exps[o].clone();
                let f = faults(&mut r, &e, |_| Act::Panic, 1);
                if let Some(x) = b.scn.threads[t][k].faults_mut() {
                    *x = f;
                }
            }
        }
        // the thread goes on with a call that was interrupted before
        if r.chance(1, 2) {
            let mut v = b.scn.threads[t].clone();
            v.iter_mut().for_each(|s| {
                if let Some(f) = s.faults_mut() {
                    f.clear()
                }
            });
            b.scn.threads[t].extend(v);
        }
    }
    // One kind of call, cut short over and over by one thread or two, and then asked again.
    // Application code that was called while application code called the library is cut short.
    let nested = r.chance(1, 4);
    if nested {
        b.scn.nest_panic = true;
        b.scn.nest = *r.pick(&[1, 1, 2, 3, 8]);
        for t in 0..b.scn.threads.len() {
            for k in 0..b.scn.threads[t].len() {
                let inner = *r.pick(&cand);
                if g.refs[inner].logs + g.refs[inner].strs == 0 || !r.chance(2, 3) {
                    continue;
                }
                let inner = b.op(inner);
                if let Some(f) = b.scn.threads[t][k].faults_mut() {
                    for x in f.iter_mut() {
                        x.act = Act::Reenter(inner, 0);
                    }
                }
            }
        }
    }
    let many = r.chance(1, 8);
    if many {
        let k = b.g.pool[*r.pick(&cand)].k;
        let v: Vec<usize> = cand.iter().copied().filter(|&o| b.g.pool[o].k == k && b.g.refs[o].logs + b.g.refs[o].strs > 0 && b.g.refs[o].steps < 60_000).collect();
        if !v.is_empty() {
            let few: Vec<usize> = (0..r.range(1, 4)).map(|_| *r.pick(&v)).collect();
            let n = r.range(8, 120);
            for i in 0..n {
                let o = *r.pick(&few);
                let f = faults(&mut r, &b.g.refs[o], |_| Act::Panic, 1);
                let s = b.step(o, 0, f);
                let t = if i % 8 == 7 { r.n(b.scn.threads.len()) } else { 0 };
                b.scn.threads[t].push(s);
            }
            for _ in 0..4 {
                let o = *r.pick(&v);
                let s = b.step(o, 0, vec![]);
                b.scn.threads[0].push(s);
                let o = b.op(o);
                b.scn.after.push(o);
            }
        }
    }
    let (c, n) = schedule(&b, &mut r);
    after(&mut b, &mut r, &cand, 3);
    b.finish(c, format!("{n}{}{}", if many { ", many interruptions" } else { "" }, if nested { ", nested" } else { "" }))
}
pub fn gen_c07(g: &Gen, seed: u64) -> (Case, String) {
    let mut r = Rng::new(seed);
    let mut b = Build::new(g, "C07");
    b.scn.inst0 = Inst0::None;
    b.scn.hash_seed = r.u64();
    b.scn.cpus = *r.pick(&[1, 2, 4, 8, 32]);
    env_noise(&mut b.scn, &mut r);
    let cand = pick_fams(g, &mut r, 2);
    let nt = r.range(2, 6);
    for _ in 0..nt {
        let n = r.range(1, 4);
        let v = (0..n).map(|_| b.step(*r.pick(&cand), 1, vec![])).collect();
        b.scn.threads.push(v);
    }
    let bs = g.build_steps;
    let mut c = Cfg { seed: r.u64(), step_cap: 0, max_switches: 3000, boundary_pm: *r.pick(&[0, 500, 900]), ..Default::default() };
    let note;
    // The construction dwarfs the calls, so switch points are placed inside it.
    match r.n(5) {
        0 => {
            c.strat = Strat::Gap { mean: *r.pick(&[3, 50, 1000, 20_000, bs / 4]) };
            note = "gap";
        }
        1 => {
            let mut p: Vec<u64> = (0..r.range(1, 6)).map(|_| r.below(bs + bs / 8)).collect();
            p.sort();
            c.strat = Strat::Pct { points: p };
            note = "priorities";
        }
        2 => {
            // right at the start and right at the end of the construction
            for _ in 0..r.range(2, 6) {
                let at = if r.chance(1, 2) { 1 + r.below(60) } else { bs.saturating_sub(r.below(200)) + r.below(200) };
                c.plan.push(PlanItem { tid: r.n(nt as usize) as u8, opno: 1, at, stall: *r.pick(&[0, 20, bs, bs * 3]) });
            }
            note = "ends of construction";
        }
        3 => {
            for _ in 0..r.range(1, 4) {
                c.plan.push(PlanItem { tid: r.n(nt as usize) as u8, opno: 1, at: 1 + r.below(bs + 500), stall: *r.pick(&[0, 20, bs, bs * 3]) });
            }
            note = "stall in construction";
        }
        _ => {
            if !g.once_edges.is_empty() {
                for _ in 0..r.range(1, 3) {
                    c.traps.push((*r.pick(&g.once_edges), 1, bs * 2));
                }
            }
            c.strat = Strat::Gap { mean: bs / 3 };
            note = "edge traps";
        }
    }
    c.spurious_pm = *r.pick(&[0, 0, 200, 600]);
    c.eintr_pm = *r.pick(&[0, 0, 200]);
    for _ in 0..3 {
        let o = b.op(*r.pick(&cand));
        b.scn.after.push(o);
    }
    b.scn.once_edges = g.once_edges.clone();
    b.finish(c, note.into())
}
pub fn gen_c08(g: &Gen, seed: u64) -> (Case, String) {
    let mut r = Rng::new(seed);
    let mut b = Build::new(g, "C08");
    let nf = 1 + r.n(3);
    let cand = pick_fams(g, &mut r, nf);
    let mut tr: Vec<usize> = cand.iter().copied().filter(|&o| g.pool[o].k == TRUNCATE).collect();
    if r.chance(1, 8) {
        let e = r.pick(&g.corpus.exs);
        let v = (0..6).map(|_| truncation(&mut r, &g.corpus, &e.region, e.cc, &e.digits)).collect();
        tr = b.thought_up(v);
    }
    let nt = if r.chance(1, 2) { 1 } else { r.range(2, 4) as usize };
    for _ in 0..nt {
        let mut v = vec![];
        for _ in 0..r.range(2, 12) {
            let o = if r.chance(5, 6) && !tr.is_empty() { *r.pick(&tr) } else { *r.pick(&cand) };
            let e = b.e(o);
            let f = if r.chance(3, 5) { faults(&mut r, e, |r| if r.chance(1, 8) { Act::Stall(2000) } else { Act::Panic }, 1) } else { vec![] };
            v.push(b.step(o, 0, f));
        }
        b.scn.threads.push(v);
    }
    env_noise(&mut b.scn, &mut r);
    b.scn.log_level = 5;
    let (c, n) = schedule(&b, &mut r);
    b.finish(c, n)
}
/// A truncation of a variant of the number, mostly too long.
fn truncation(r: &mut Rng, c: &Corpus, region: &str, cc: i32, d: &str) -> Op {
    let mut nm = pool::variant(r, c, region, cc, d);
    let nn = nm.nn.unwrap_or(0);
    let extra = if r.chance(1, 4) { r.n(14) } else { r.n(8) };
    nm.nn = Some(pool::lengthened(r, nn, extra));
    if r.chance(1, 5) {
        nm.ilz = Some(true);
        nm.nlz = Some(r.range(1, 5) as i32);
    }
    if r.chance(1, 10) {
        nm.nn = Some(*r.pick(&[0, 1, 12, 999, u64::MAX, 10_000_000_000_000_000_000]));
    }
    match r.n(40) {
        0 | 1 => nm.nn = None,
        2 => nm.cc = None,
        3 => nm.cc = Some(*r.pick(&[0, -1, 999, 800, 979])),
        4 => {
            nm.ilz = Some(true);
            nm.nlz = Some(*r.pick(&[0, -3, 17, 25]));
        }
        5 => nm.ilz = Some(false),
        6 => nm.nlz = Some(2),
        _ => {}
    }
    if r.chance(1, 3) {
        nm.raw = Some(format!("+{cc}{}", nm.nn.unwrap_or(0)));
        nm.ccs = Some(1);
    }
    Op { k: TRUNCATE, n: nm, ..Default::default() }
}
pub fn prepare_c08(p: &Prop, c: Corpus, seed: u64, quick: bool) -> Gen {
    let mut r = Rng::new(mix(mix(seed, engine::prop_hash(p.id)), 0xb008));
    let n = if quick { p.families.0 } else { p.families.1 };
    let mut pool = vec![];
    let mut fams = vec![];
    for _ in 0..n {
        let a = pool.len();
        let e = r.pick(&c.exs);
        let (region, cc, d) = (e.region.clone(), e.cc, e.digits.clone());
        for _ in 0..20 {
            pool.push(truncation(&mut r, &c, &region, cc, &d));
        }
        let mut fam = pool::family(&mut r, &c, 4);
        pool.append(&mut fam);
        fams.push((a, pool.len()));
    }
    let refs = engine::references(&pool);
    let (build_steps, once_edges) = engine::build_profile();
    Gen { corpus: c, pool, refs, fams, build_steps, once_edges, quick }
}
pub fn gen_c12(g: &Gen, seed: u64) -> (Case, String) {
    let mut r = Rng::new(seed);
    let mut b = Build::new(g, "C12");
    let nf = 1 + r.n(2);
    let cand = pick_fams(g, &mut r, nf);
    let base = g.fams.last().map_or(0, |f| f.1);
    // instance 1 (global) sometimes
    let inst = if r.chance(1, 10) { 1 } else { 0 };
    let nt = r.range(1, 4);
    for _ in 0..nt {
        let mut v = vec![];
        let mut open = [false; 4];
        for _ in 0..r.range(4, 24) {
            match r.n(8) {
                0 | 1 => {
                    let slot = r.n(4) as u8;
                    let e = if r.chance(1, 2) { base } else { base + r.n(g.pool.len() - base) };
                    let big = r.chance(1, 3);
                    let e = if big && e > base { g.pool.iter().position(|o| o.k == 20 && o.i == *[1, 44, 7, 39, 61][..].iter().nth(r.n(5)).unwrap()).unwrap_or(e) } else { e };
                    b.op(e);
                    let op = &g.pool[e];
                    v.push(Step::Open { slot, cc: if op.k == 20 { Some(op.i) } else { None }, inst });
                    open[slot as usize] = true;
                }
                2 | 3 => {
                    let slot = r.n(4) as u8;
                    if open[slot as usize] {
                        v.push(Step::Next { slot, n: r.range(1, 40) as u32 });
                    }
                }
                4 if r.chance(1, 3) => {
                    let e = base + if r.chance(1, 2) { 0 } else { r.n(g.pool.len() - base) };
                    b.op(e);
                    let op = &g.pool[e];
                    v.push(Step::Walk { cc: if op.k == 20 { Some(op.i) } else { None }, inst, how: r.n(14) as u8, n: *r.pick(&[0, 1, 2, 3, 5, 10, 100, 243, 244, 245, 300]) });
                }
                4 => {
                    let slot = r.n(4) as u8;
                    if open[slot as usize] {
                        v.push(if r.chance(1, 4) { Step::Abandon { slot } } else { Step::Close { slot } });
                        open[slot as usize] = false;
                    }
                }
                _ => {
                    let o = if r.chance(1, 3) {
                        // lent answers
                        let l: Vec<usize> = cand.iter().copied().filter(|&o| matches!(g.pool[o].k, 18 | 19)).collect();
                        if l.is_empty() { *r.pick(&cand) } else { *r.pick(&l) }
                    } else {
                        *r.pick(&cand)
                    };
                    let f = if r.chance(1, 15) { faults(&mut r, &g.refs[o], |_| Act::Panic, 1) } else { vec![] };
                    v.push(b.step(o, inst, f));
                }
            }
        }
        b.scn.threads.push(v);
    }
    // Many other answers are asked for while some are held.
    if r.chance(1, 4) {
        let f = g.fams[g.fams.len() - 1];
        let t = r.n(nt as usize);
        let u = r.n(nt as usize);
        for _ in 0..r.range(1, 4) {
            let s = b.step(f.0 + r.n(f.1 - f.0), inst, vec![]);
            b.scn.threads[t].insert(0, s);
        }
        for _ in 0..*r.pick(&[20, 40, 80, 160]) {
            let s = b.step(f.0 + r.n(f.1 - f.0), inst, vec![]);
            b.scn.threads[u].push(s);
        }
    }
    // In some runs one thread holds an enumeration while it waits for all others.
    if nt > 1 && r.chance(1, 4) {
        if let Some(k) = cand.iter().copied().find(|&o| g.refs[o].logs > 0) {
            let f = vec![Fault { site: Site::Log, nth: 1, act: Act::BlockOthers }];
            b.op(base);
            let s = b.step(k, inst, f);
            let t = &mut b.scn.threads[0];
            let mut v = vec![Step::Open { slot: 7, cc: None, inst }, Step::Next { slot: 7, n: 3 }, s];
            v.append(t);
            *t = v;
            b.scn.log_level = 5;
        }
    }
    let lvl = b.scn.log_level;
    env_noise(&mut b.scn, &mut r);
    b.scn.log_level = lvl;
    let (c, n) = schedule(&b, &mut r);
    b.finish(c, n)
}
pub fn gen_c13(g: &Gen, seed: u64) -> (Case, String) {
    let mut r = Rng::new(seed);
    let mut b = Build::new(g, "C13");
    let nf = 1 + r.n(2);
    let cand = pick_fams(g, &mut r, nf);
    b.scn.extra = r.n(3) as u8;
    let use_global = r.chance(1, 4);
    let nt = r.range(1, 3);
    let mut builds = 0;
    // What happens to calls on one instance while others are used, built and dropped. Who touches
    // the global first has it built, so nobody is kept waiting for ever there.
    let act = |r: &mut Rng| match r.n(4) {
        0 => Act::Stall(r.below(2_000_000) + 1),
        1 if !use_global => Act::BlockOthers,
        _ => Act::Panic,
    };
    if r.chance(1, 5) {
        // No instance outlives its use: at times there is none at all.
        b.scn.inst0 = Inst0::Gone;
        b.scn.extra = 0;
        for _ in 0..r.range(2, 3) {
            let mut v = vec![];
            for _ in 0..r.range(1, 2) {
                let inst = 10 + r.n(2) as u8;
                v.push(Step::New { inst });
                for _ in 0..r.n(4) {
                    let o = *r.pick(&cand);
                    let f = if r.chance(1, 6) { faults(&mut r, &g.refs[o], act, 1) } else { vec![] };
                    v.push(b.step(o, inst, f));
                }
                v.push(Step::Drop { inst });
            }
            b.scn.threads.push(v);
        }
        env_noise(&mut b.scn, &mut r);
        let (mut c, mut n) = schedule(&b, &mut r);
        if r.chance(1, 2) {
            // Independent instances share next to nothing: stay long at what they do share.
            c.strat = Strat::Hot { mean: *r.pick(&[1, 2, 3]) };
            c.plan.clear();
            c.traps.clear();
            c.stall_pm = *r.pick(&[100, 300, 600]);
            c.stall_len = b.total() / 2 + 1;
            n = "shared memory+long".into();
        }
        after(&mut b, &mut r, &cand, 3);
        return b.finish(c, n);
    }
    for _ in 0..nt {
        let mut v = vec![];
        let mut own = [false; 3];
        let mut gone = [false; 4];
        for _ in 0..r.range(4, 18) {
            match r.n(8) {
                0 | 1 => {
                    let k = r.n(3);
                    if own[k] && builds < 6 && r.chance(1, 3) {
                        // another instance takes the place of this one, and is asked the same
                        builds += 1;
                        let o = *r.pick(&cand);
                        let inst = 10 + k as u8;
                        v.push(b.step(o, inst, vec![]));
                        v.push(Step::Drop { inst });
                        v.push(Step::New { inst });
                        v.push(b.step(o, inst, vec![]));
                    } else if own[k] && own[(k + 1) % 3] && r.chance(1, 2) {
                        v.push(Step::Swap { a: 10 + k as u8, b: 10 + ((k + 1) % 3) as u8 });
                    } else if own[k] {
                        v.push(Step::Drop { inst: 10 + k as u8 });
                        own[k] = false;
                    } else if builds < 4 {
                        builds += 1;
                        v.push(Step::New { inst: 10 + k as u8 });
                        own[k] = true;
                    }
                }
                2 if b.scn.extra > 0 => {
                    let k = r.n(b.scn.extra as usize);
                    if !gone[k] {
                        v.push(Step::Drop { inst: 2 + k as u8 });
                        gone[k] = true;
                    }
                }
                _ => {
                    let mut c = vec![0u8];
                    c.extend((0..3).filter(|&k| own[k]).map(|k| 10 + k as u8));
                    c.extend((0..b.scn.extra as usize).filter(|&k| !gone[k]).map(|k| 2 + k as u8));
                    if use_global {
                        c.push(1);
                    }
                    let inst = *r.pick(&c);
                    let o = *r.pick(&cand);
                    let f = if r.chance(1, 6) { faults(&mut r, &g.refs[o], act, 1) } else { vec![] };
                    v.push(b.step(o, inst, f));
                }
            }
        }
        b.scn.threads.push(v);
    }
    // Very many instances, one after the other, while others go on.
    if r.chance(1, if g.quick { 500 } else { 150 }) {
        let few: Vec<usize> = (0..3).map(|_| *r.pick(&cand)).collect();
        let v = &mut vec![];
        // Numbers given to instances come round again.
        let n = if r.chance(1, 2) { *r.pick(&[126, 127, 254, 255, 256]) } else { r.range(40, 280) };
        let quiet = r.chance(1, 2);
        for i in 0..n {
            v.push(Step::New { inst: 12 });
            if !quiet || i == 0 {
                v.push(b.step(*r.pick(&few), 12, vec![]));
                if !quiet {
                    v.push(b.step(*r.pick(&few), 0, vec![]));
                }
            }
            v.push(Step::Drop { inst: 12 });
        }
        v.push(Step::New { inst: 12 });
        for o in &few {
            v.push(b.step(*o, 12, vec![]));
        }
        b.scn.threads[0].append(v);
    }
    if r.chance(1, 10) {
        leave(&mut b, &mut r);
    }
    env_noise(&mut b.scn, &mut r);
    let (c, n) = schedule(&b, &mut r);
    after(&mut b, &mut r, &cand, 3);
    b.finish(c, n)
}

const REAL: &[&str] = &[
    "rlibphonenumber (all of it, with bundled metadata)", "dashmap", "regex", "protobuf", "parking_lot_core", "std locks, LazyLock, thread-locals, hash maps",
];
const STUB: &[&str] = &[
    "thread scheduler (baton, seeded)", "futex wait/wake", "clock, sleep", "getrandom (hash seeds)", "CPU count", "environment variables", "logger",
    "caller's string conversion",
];
const STUB_C10: &[&str] = &[
    "disk (write cache, sync, crash, short and interrupted reads and writes, full disk)", "network (loss, duplication, delay, reordering, truncation)",
    "older and newer peers: an independent codec written from the published schema", "thread scheduler (one thread)", "clock",
];
const STUB_C09: &[&str] = &["thread scheduler", "futex", "clock", "logger", "caller's string conversion", "allocator front end (counts, then calls the system allocator)"];
const ASSUME_C09: &[&str] = &[
    "growth below one block per hundred calls, or four bytes per call, is not reported",
    "blocks allocated inside the regex crates (lazily built automata of fixed capacity, scratch space per thread) are accounted separately, with a wider threshold",
    "search samples workloads; a clean batch is evidence, not proof",
];
const ASSUME_C10: &[&str] = &[
    "the protobuf crate's reader does not compare a record's declared length with the end of its input: a record cut exactly between two optional fields reads as the fields that arrived",
    "the peers' codec was written from resources/phonenumber.proto as published; it pins field numbers, types and defaults",
    "search samples histories; a clean batch is evidence, not proof",
];
const ASSUME_C11: &[&str] = &[
    "texts reach the library as valid UTF-8, as Rust's type system demands",
    "number_of_leading_zeros is limited to 4096 in the search; larger values are the recorded finding",
    "never returning is observed as exceeding a step bound far above what any call takes, or 60 s of processor time",
    "search samples inputs; a clean batch is evidence, not proof",
];
const ASSUME: &[&str] = &[
    "interleavings are sequentially consistent: effects of weak memory ordering are not simulated",
    "the regex, protobuf and std crates are not pre-empted inside; threads switch at every basic block and memory access of rlibphonenumber and dashmap and at every futex, sleep and yield",
    "search samples schedules; a clean batch is evidence, not proof",
];
const RULE_THREADS: &str = "Each run is one scenario (threads, calls, faults) and one schedule, all derived from the run's seed. A run is non-trivial when at least one thread was pre-empted inside a library call (C05, C06: when an application-code fault fired; C08: when a truncation was interrupted or pre-empted; C12: when something was lent out or open while calls were made; C13: when an instance was built or dropped); distinct ones are counted by the hash of the complete event log (every scheduling decision with its position, every answer, log record and fault).";

macro_rules! prop {
    ($id:expr, $title:expr, $gen:expr, $($k:ident : $v:expr),* $(,)?) => {
        Prop { $($k: $v,)* ..Prop {
            id: $id, title: $title, prebuild: true, families: (200, 1500), quick_runs: 200_000, quick_wall: 35.0,
            thorough_runs: 10_000_000, thorough_wall: 780.0, prepare, generate: $gen, load_seq: no_seq, known: no_known,
            rule: RULE_THREADS, probes: &[], real: REAL, stub: STUB, assumptions: ASSUME } }
    };
}
pub fn all() -> Vec<Prop> {
    use S::*;
    vec![
        prop!("C01", "Concurrent calls on a shared instance return their solo answers", gen_c01,
            quick_wall: 50.0,
            probes: &[calls_at_thread_end, preempt_in_call, store_preempts, hot_preempts, trap_preempts, long_stalls, futex_blocked]),
        prop!("C02", "Answers do not depend on what was asked before", gen_c02,
            quick_wall: 50.0,
            rule: "Each run is a history of calls on one long-lived instance derived from the run's seed (related and unrelated calls, failing and interrupted ones, idle periods); every answer is compared with the same call made alone on a fresh instance. Every history has at least two checked calls; distinct ones are counted by the hash of the event log.",
            probes: &[log_panic, str_panic, clock_jumps, wall_skews]),
        prop!("C03", "Answers do not depend on the process that computes them", gen_c03,
            prebuild: false, 
            rule: "Each run builds an instance (or the global one) in a process of its own with its own hash seeds, CPU count, clock and environment variables, asks it a few hundred questions from one to three threads and compares with the answers of a process with a reference environment. Distinct by the hash of the event log.",
            probes: &[random_reads, cpu_reads]),
        prop!("C04", "Every call finishes under any fair schedule", gen_c04,
            probes: &[preempt_in_call, long_stalls, futex_blocked, spurious_wakes, eintr_wakes, log_stall]),
        prop!("C05", "Application code run inside a call may re-enter or stall the library", gen_c05,
            probes: &[log_reenter, str_reenter, log_block, str_block, log_stall, str_stall]),
        prop!("C06", "A call that unwinds leaves the instance fully usable", gen_c06,
            probes: &[log_panic, str_panic, calls_lost]),
        prop!("C07", "The global instance is built once and only ever seen complete", gen_c07,
            prebuild: false, families: (100, 400), probes: &[contended_first_use, futex_blocked, spurious_wakes, global_first_touch]),
        prop!("C08", "Truncating a number in place is all or nothing", gen_c08,
            prepare: prepare_c08, families: (300, 1200), probes: &[trunc_success, trunc_noop, trunc_interrupted, log_panic]),
        prop!("C09", "Memory of a long-lived instance stays bounded", crate::mem::generate,
            prepare: prepare_light, load_seq: crate::mem::load, stub: STUB_C09, assumptions: ASSUME_C09, rule: "Each run draws, from its seed, the operations used, one or a few real numbers, the kind of inputs (sane, hostile, both), the number of threads and how many calls are cut short, lets a process serve thousands of requests none of which repeats another, and compares live heap blocks and bytes after phases of equal and doubling length. In every tenth run instances are built, used and dropped instead. Every run is non-trivial; distinct by the hash of the event log.", probes: &[mem_phases]),
        prop!("C10", "Stored and transmitted numbers come back unchanged", crate::wire::generate,
            prepare: prepare_light, load_seq: crate::wire::load, stub: STUB_C10, assumptions: ASSUME_C10, rule: "Each run is a list of events drawn from its seed: numbers stored in a log file, syncs, crashes that keep part of what was not synced, numbers sent between nodes and peers with another codec, time passing. A run is non-trivial when at least one disk or network fault, crash or unknown field took effect; distinct by the hash of the event log (all bytes and answers).",
            probes: &[disk_short_write, disk_eintr, disk_enospc, disk_torn_write, disk_lost_write, disk_short_read, disk_read_eintr, crash, records_torn_detected, net_lost, net_dup, net_delay, net_reorder, net_truncate, unk_field, peer_decode]),
        prop!("C11", "Damaged or hostile input never crashes a caller", crate::hostile::generate,
            families: (100, 400), known: crate::hostile::known, assumptions: ASSUME_C11, rule: "Each run is one to three threads serving requests drawn from its seed: damaged texts, hostile field values, records damaged by truncation, bit flips, duplicated fields, splicing and reordering, mixed with good requests whose answers are compared with those given alone on a fresh instance. Non-trivial when at least one bad request was served; distinct by the hash of the event log.", probes: &[bad_requests, rec_truncate, bit_flip, rec_splice, rec_dup_field, rec_reorder, decode_ok, decode_err]),
        prop!("C12", "Open enumerations and borrowed answers stay valid during other calls", gen_c12,
            probes: &[iter_opened, iter_items, iter_calls_while_open, lent_answers_rechecked, log_block]),
        prop!("C13", "Instances are independent of one another", gen_c13,
            quick_wall: 50.0,
            families: (100, 500), probes: &[instances_built, instances_dropped, instances_moved, calls_lost]),
    ]
}

//! Worker processes, reference answers, the search loop, minimisation, replay and evidence.
use crate::case::*;
use crate::ops::{Act, Op, Site};
use crate::pool::Corpus;
use crate::props::{self, Gen, Prop};
use crate::rng::mix;
use crate::rt::{self, Dec, MAXE, NS, S, STAT_NAMES, Shm};
use crate::scn::{self, Expect, Scn, Step};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::time::Instant;

pub const WORKERS: usize = 8;

pub fn prop_hash(id: &str) -> u64 {
    id.bytes().fold(0x70, |h, b| mix(h, b as u64))
}

#[derive(Clone, Debug)]
pub struct Outcome {
    /// ok, violation, hang, crash, error
    pub verdict: &'static str,
    pub kind: String,
    pub msg: String,
    pub digest: u64,
    pub sched: u64,
    pub decs: Vec<Dec>,
    pub truncated: bool,
    pub nontrivial: bool,
}
impl Outcome {
    pub fn bad(&self) -> bool {
        self.verdict != "ok" && self.verdict != "error"
    }
    pub fn class(&self) -> String {
        format!("{}:{}", self.verdict, self.kind)
    }
}

unsafe fn pin(cpu: usize) {
    unsafe {
        let mut set = [0u64; 16];
        // Only CPUs this process may use.
        let mut have = [0u64; 16];
        let n = rt::raw(libc::SYS_sched_getaffinity, [0, 128, have.as_mut_ptr() as usize, 0, 0, 0]);
        if n <= 0 {
            return;
        }
        let list: Vec<usize> = (0..1024).filter(|&i| have[i / 64] >> (i % 64) & 1 == 1).collect();
        if list.is_empty() {
            return;
        }
        let c = list[cpu % list.len()];
        set[c / 64] |= 1 << (c % 64);
        rt::raw(libc::SYS_sched_setaffinity, [0, 128, set.as_ptr() as usize, 0, 0, 0]);
    }
}
fn limits() {
    unsafe {
        // Watchdogs for code that does not come back and is not instrumented: processor time
        // first, so that a loaded machine does not look like a hang.
        let it = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: 60, tv_usec: 0 } };
        rt::raw(libc::SYS_setitimer, [libc::ITIMER_PROF as usize, &raw const it as usize, 0, 0, 0, 0]);
        libc::alarm(300);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}
/// Forks a child that runs `f` (which must not return) and collects its verdict.
pub fn in_child(shm: &'static mut Shm, f: impl FnOnce()) -> Outcome {
    shm.reset();
    unsafe {
        rt::SHM = shm;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            limits();
            crate::alloc::at_run();
            f();
            rt::harness_error("child returned");
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
        }
        let s = rt::shm();
        let (verdict, kind, msg) = match s.verdict {
            1 => ("ok", String::new(), String::new()),
            2 => ("violation", s.vkind(), s.message()),
            3 => ("error", "harness".into(), s.message()),
            _ => {
                if libc::WIFSIGNALED(st) {
                    let g = libc::WTERMSIG(st);
                    if g == libc::SIGPROF || g == libc::SIGALRM || g == libc::SIGVTALRM {
                        ("hang", "hang".into(), "a call did not return (processor-time watchdog)".into())
                    } else if g == libc::SIGKILL {
                        ("error", "killed".into(), "child was killed (out of memory?)".into())
                    } else {
                        ("crash", format!("signal {g}"), format!("the process died with signal {g}"))
                    }
                } else {
                    ("crash", format!("exit {}", libc::WEXITSTATUS(st)), format!("the process exited with status {} in the middle of the run", libc::WEXITSTATUS(st)))
                }
            }
        };
        Outcome {
            verdict,
            kind,
            msg,
            digest: s.digest,
            sched: s.sched_digest,
            decs: s.decs[..s.ndec as usize].to_vec(),
            truncated: s.truncated != 0,
            nontrivial: s.nontrivial != 0,
        }
    }
}
pub fn run_case(shm: &'static mut Shm, c: &Case) -> Outcome {
    let c = c.clone_case();
    in_child(shm, move || match c {
        Case::Threads { scn, exps, cfg } => scn::run_child(scn, exps, cfg),
        Case::Seq(s) => s.run(),
    })
}
fn shm_ref(p: *mut Shm) -> &'static mut Shm {
    unsafe { &mut *p }
}
fn memfile() -> std::fs::File {
    unsafe {
        let fd = libc::memfd_create(c"sim".as_ptr(), 0);
        assert!(fd >= 0);
        std::fs::File::from_raw_fd(fd)
    }
}
/// Runs `f(worker, out)` in forked processes and returns what each wrote.
fn workers(n: usize, f: impl Fn(usize, &mut dyn Write)) -> Vec<Vec<u8>> {
    let mut files = vec![];
    let mut pids = vec![];
    for w in 0..n {
        let file = memfile();
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                pin(w);
                let mut o = std::io::BufWriter::new(&file);
                f(w, &mut o);
                o.flush().unwrap();
                rt::raw(libc::SYS_exit_group, [0; 6]);
            }
            pids.push(pid);
        }
        files.push(file);
    }
    let mut res = vec![];
    for (pid, mut file) in pids.into_iter().zip(files) {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) != pid {} }
        if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
            eprintln!("worker process failed (status {st:#x})");
            std::process::exit(3);
        }
        let mut v = vec![];
        file.seek(SeekFrom::Start(0)).unwrap();
        file.read_to_end(&mut v).unwrap();
        res.push(v);
    }
    res
}

// ---------------------------------------------------------------- reference answers
fn parse_ref(o: &[u8]) -> Option<Expect> {
    let steps = u64::from_le_bytes(o.get(0..8)?.try_into().ok()?);
    let logs = u32::from_le_bytes(o.get(8..12)?.try_into().ok()?);
    let strs = u32::from_le_bytes(o.get(12..16)?.try_into().ok()?);
    let n = u32::from_le_bytes(o.get(16..20)?.try_into().ok()?) as usize;
    Some(Expect { steps, logs, strs, edges: o.get(20..20 + n)?.to_vec(), res: String::from_utf8_lossy(o.get(20 + n..)?).into_owned() })
}
fn reference(p: *mut Shm, op: &Op) -> Vec<u8> {
    let o = in_child(shm_ref(p), || scn::reference_child(op));
    if o.verdict == "ok" {
        shm_ref(p).output().to_vec()
    } else if o.verdict == "error" {
        eprintln!("harness error in reference run: {}", o.msg);
        unsafe { rt::raw(libc::SYS_exit_group, [3, 0, 0, 0, 0, 0]) };
        vec![]
    } else {
        // The call does not come back even alone: its "answer" is that.
        let mut v = vec![0u8; 20];
        v[0..8].copy_from_slice(&1_000_000u64.to_le_bytes());
        v.extend_from_slice(format!("NO-ANSWER {} {}", o.verdict, o.msg).as_bytes());
        v
    }
}
/// The reference answer of a call thought up for one run. The fresh instance is there.
pub fn reference_now(op: &Op) -> Expect {
    static mut OWN: *mut Shm = std::ptr::null_mut();
    unsafe {
        if OWN.is_null() {
            OWN = Shm::new();
        }
        rt::GEN_STATS[S::fresh_references as usize] += 1;
        let level = log::max_level();
        let e = parse_ref(&reference(OWN, op)).expect("reference record");
        log::set_max_level(level);
        e
    }
}
/// Answer of each call alone on a fresh instance, each computed in a process of its own.
pub fn references(ops: &[Op]) -> Vec<Expect> {
    let nw = WORKERS.min(ops.len().max(1));
    let res = workers(nw, |w, out| {
        rt::setup_env(7, 8);
        scn::build_base();
        let p = Shm::new() as *mut Shm;
        let mut i = w;
        while i < ops.len() {
            if ops[i].any {
                let mut v = vec![0u8; 20];
                v[0..8].copy_from_slice(&crate::hostile::any_expect(&ops[i]).steps.to_le_bytes());
                out.write_all(&(i as u64).to_le_bytes()).unwrap();
                out.write_all(&(v.len() as u64).to_le_bytes()).unwrap();
                out.write_all(&v).unwrap();
                i += nw;
                continue;
            }
            let body = reference(p, &ops[i]);
            out.write_all(&(i as u64).to_le_bytes()).unwrap();
            out.write_all(&(body.len() as u64).to_le_bytes()).unwrap();
            out.write_all(&body).unwrap();
            i += nw;
        }
    });
    let mut v = vec![Expect::default(); ops.len()];
    for r in res {
        let mut p = 0;
        while p < r.len() {
            let i = u64::from_le_bytes(r[p..p + 8].try_into().unwrap()) as usize;
            let n = u64::from_le_bytes(r[p + 8..p + 16].try_into().unwrap()) as usize;
            v[i] = parse_ref(&r[p + 16..p + 16 + n]).expect("reference record");
            p += 16 + n;
        }
    }
    v
}
/// Steps of one construction, and the edges it takes exactly once.
pub fn build_profile() -> (u64, Vec<u32>) {
    let r = workers(1, |_, out| {
        let p = Shm::new() as *mut Shm;
        let o = in_child(shm_ref(p), || {
            rt::run(rt::Cfg::default(), vec![Box::new(|| {
                rt::op_begin(u64::MAX);
                let t0 = rt::current().unwrap().step;
                let u = subject::new_instance();
                let n = rt::current().unwrap().step - t0;
                let s = rt::shm();
                s.push_out(&n.to_le_bytes());
                for i in 1..=unsafe { rt::NEDGES } {
                    if unsafe { (*(&raw const rt::EDGE_CNT))[i as usize & (MAXE - 1)] } == 1 {
                        s.push_out(&i.to_le_bytes());
                    }
                }
                std::mem::forget(u);
            })]);
            rt::finish_ok()
        });
        if o.verdict == "ok" {
            out.write_all(shm_ref(p).output()).unwrap();
        }
    });
    let r = &r[0];
    if r.len() < 8 {
        return (1_000_000, vec![]);
    }
    (u64::from_le_bytes(r[0..8].try_into().unwrap()), r[8..].chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())
}

/// The instances that runs find ready when they start.
fn prebuild(prop: &Prop, p: *mut Shm) {
    if prop.prebuild {
        rt::setup_env(7, 8);
        scn::build_base();
        if FULL_PROPS.contains(&prop.id) {
            scn::build_full(shm_ref(p), prop.id == "C02");
            shm_ref(p).reset();
            shm_ref(p).stats = [0; NS];
        }
    }
}
/// Properties some of whose runs use an instance with a long history.
pub const FULL_PROPS: [&str; 6] = ["C01", "C02", "C04", "C05", "C06", "C12"];

// ---------------------------------------------------------------- search
#[repr(C)]
struct Control {
    first_bad: std::sync::atomic::AtomicU64,
    done: std::sync::atomic::AtomicU64,
}
pub struct Search {
    pub runs: u64,
    pub stats: [u64; NS],
    pub edges: Vec<u8>,
    pub distinct: HashSet<u64>,
    pub nontrivial: u64,
    pub digests: Vec<(u64, u64)>,
    pub bad: Option<u64>,
    pub errors: Vec<String>,
    pub notes: BTreeMap<String, u64>,
    pub wall: f64,
}
pub fn search(prop: &Prop, g: &Gen, seed: u64, from: u64, runs: u64, wall: f64, nw: usize, keep_digests: bool) -> Search {
    use std::sync::atomic::Ordering::SeqCst;
    let ctl: &'static Control = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const Control)
    };
    ctl.first_bad.store(u64::MAX, SeqCst);
    let t0 = Instant::now();
    let res = workers(nw, |w, out| {
        let p = Shm::new() as *mut Shm;
        prebuild(prop, p);
        let mut lines: Vec<String> = vec![];
        let mut notes: BTreeMap<String, u64> = BTreeMap::new();
        let mut i = from + w as u64;
        while i < from + runs {
            if i > ctl.first_bad.load(SeqCst) || t0.elapsed().as_secs_f64() > wall {
                break;
            }
            let (case, note) = (prop.generate)(g, mix(mix(seed, prop_hash(prop.id)), i));
            *notes.entry(note.clone()).or_insert(0) += 1;
            let o = run_case(shm_ref(p), &case);
            ctl.done.fetch_add(1, SeqCst);
            if o.verdict == "error" {
                lines.push(format!("E {i} {}", o.msg.replace('\n', " ")));
                break;
            }
            lines.push(format!("R {i} {:x} {} {}", o.digest, o.nontrivial as u8, o.verdict));
            if o.bad() {
                lines.push(format!("B {i}"));
                ctl.first_bad.fetch_min(i, SeqCst);
                break;
            }
            i += nw as u64;
        }
        let s = shm_ref(p);
        let edges: String = s.edges[..=unsafe { rt::NEDGES } as usize].iter().map(|b| if *b != 0 { '1' } else { '0' }).collect();
        writeln!(out, "{}", lines.join("\n")).unwrap();
        writeln!(out, "S {}", s.stats.iter().zip(unsafe { (*(&raw const rt::GEN_STATS)).iter() }).map(|(x, y)| (x + y).to_string()).collect::<Vec<_>>().join(" ")).unwrap();
        writeln!(out, "G {edges}").unwrap();
        for (k, v) in notes {
            writeln!(out, "N {v} {k}").unwrap();
        }
    });
    let mut s = Search {
        runs: 0,
        stats: [0; NS],
        edges: vec![0; unsafe { rt::NEDGES } as usize + 1],
        distinct: HashSet::new(),
        nontrivial: 0,
        digests: vec![],
        bad: None,
        errors: vec![],
        notes: BTreeMap::new(),
        wall: 0.0,
    };
    for r in res {
        for l in String::from_utf8_lossy(&r).lines() {
            let f: Vec<&str> = l.splitn(2, ' ').collect();
            match f[0] {
                "R" => {
                    let q: Vec<&str> = f[1].split(' ').collect();
                    s.runs += 1;
                    let d = u64::from_str_radix(q[1], 16).unwrap();
                    if keep_digests {
                        s.digests.push((q[0].parse().unwrap(), d));
                    }
                    if q[2] == "1" {
                        s.nontrivial += 1;
                        s.distinct.insert(d);
                    }
                }
                "B" => {
                    let i: u64 = f[1].parse().unwrap();
                    s.bad = Some(s.bad.map_or(i, |b| b.min(i)));
                }
                "E" => s.errors.push(f[1].to_string()),
                "S" => {
                    for (i, x) in f[1].split(' ').enumerate() {
                        s.stats[i] += x.parse::<u64>().unwrap();
                    }
                }
                "G" => {
                    for (i, c) in f[1].bytes().enumerate() {
                        if c == b'1' {
                            s.edges[i] = 1;
                        }
                    }
                }
                "N" => {
                    let q: Vec<&str> = f[1].splitn(2, ' ').collect();
                    *s.notes.entry(q[1].to_string()).or_insert(0) += q[0].parse::<u64>().unwrap();
                }
                _ => {}
            }
        }
    }
    s.digests.sort();
    s.wall = t0.elapsed().as_secs_f64();
    s
}

// ---------------------------------------------------------------- minimisation
struct Mini<'a> {
    shm: *mut Shm,
    class: String,
    t0: Instant,
    budget: f64,
    tries: u64,
    _p: std::marker::PhantomData<&'a ()>,
}
impl Mini<'_> {
    fn out_of_time(&self) -> bool {
        self.t0.elapsed().as_secs_f64() > self.budget
    }
    /// Runs a candidate; gives back the outcome if it fails the same way.
    fn fails(&mut self, c: &Case) -> Option<Outcome> {
        self.tries += 1;
        let o = run_case(shm_ref(self.shm), c);
        if o.bad() && o.class() == self.class { Some(o) } else { None }
    }
}
fn threads_case(scn: &Scn, exps: &[Expect], base: &rt::Cfg, decs: &[Dec]) -> Case {
    let mut cfg = base.clone();
    cfg.replay = Some(decs.to_vec());
    Case::Threads { scn: scn.clone(), exps: exps.to_vec(), cfg }
}
/// The configuration used by replays: no strategy, only the recorded decisions.
pub fn replay_cfg(step_cap: u64) -> rt::Cfg {
    rt::Cfg { step_cap, ..rt::Cfg::default() }
}
/// ddmin over a vector: removes chunks while `ok` says the rest still fails.
fn ddmin<T: Clone>(v: &mut Vec<T>, stop: &dyn Fn() -> bool, ok: &mut dyn FnMut(&[T]) -> bool) {
    let mut chunk = v.len().div_ceil(2).max(1);
    while !v.is_empty() {
        let mut i = 0;
        let mut any = false;
        while i < v.len() {
            if stop() {
                return;
            }
            let j = (i + chunk).min(v.len());
            let mut c = v[..i].to_vec();
            c.extend_from_slice(&v[j..]);
            if ok(&c) {
                *v = c;
                any = true;
            } else {
                i = j;
            }
        }
        if chunk == 1 {
            if !any {
                return;
            }
        } else {
            chunk = chunk.div_ceil(2);
        }
    }
}
/// Decisions with thread `t` removed (the others renumbered).
fn drop_thread(d: &[Dec], t: u8) -> Vec<Dec> {
    d.iter()
        .filter(|x| x.tid != t && x.to != t)
        .map(|x| {
            let mut y = *x;
            if y.tid > t && (y.tid as usize) < rt::MAXTH - 1 {
                y.tid -= 1;
            }
            if y.kind != 2 && y.to > t {
                y.to -= 1;
            }
            y
        })
        .collect()
}
/// Decisions with step `k` (numbered from 1) of thread `t` removed.
fn drop_step(d: &[Dec], t: u8, k: u32) -> Vec<Dec> {
    d.iter()
        .filter(|x| !(x.tid == t && x.opno == k))
        .map(|x| {
            let mut y = *x;
            if y.tid == t && y.opno > k && y.opno != u32::MAX {
                y.opno -= 1;
            }
            y
        })
        .collect()
}
pub fn minimise(shm: *mut Shm, case: &Case, first: &Outcome, budget: f64) -> (Case, Outcome, Vec<Dec>, u64) {
    let mut m = Mini { shm, class: first.class(), t0: Instant::now(), budget, tries: 0, _p: Default::default() };
    match case {
        Case::Seq(s) => {
            let mut cur = s.boxed();
            let mut out = first.clone();
            'again: loop {
                for c in cur.shrinks() {
                    if m.out_of_time() {
                        break 'again;
                    }
                    if let Some(o) = m.fails(&Case::Seq(c.boxed())) {
                        cur = c;
                        out = o;
                        continue 'again;
                    }
                }
                break;
            }
            (Case::Seq(cur), out, vec![], m.tries)
        }
        Case::Threads { scn, exps, cfg } => {
            let base = replay_cfg(cfg.step_cap);
            let mut scn = scn.clone();
            let mut decs = first.decs.clone();
            let mut out = first.clone();
            // The recorded schedule must fail by itself before anything is removed from it.
            match m.fails(&threads_case(&scn, exps, &base, &decs)) {
                Some(o) => out = o,
                None => return (case.clone_case(), out, decs, m.tries),
            }
            // A schedule without any pre-emption at all?
            let few: Vec<Dec> = decs.iter().filter(|d| d.kind != 0).copied().collect();
            if let Some(o) = m.fails(&threads_case(&scn, exps, &base, &few)) {
                decs = few;
                out = o;
            }
            // Whole threads.
            let mut t = 0;
            while t < scn.threads.len() && scn.threads.len() > 1 {
                let mut c = scn.clone();
                c.threads.remove(t);
                let d = drop_thread(&decs, t as u8);
                if m.out_of_time() {
                    break;
                }
                if let Some(o) = m.fails(&threads_case(&c, exps, &base, &d)) {
                    scn = c;
                    decs = d;
                    out = o;
                } else {
                    t += 1;
                }
            }
            // History before and after, then steps of each thread, chunk-wise.
            let t0 = m.t0;
            let stop = move || t0.elapsed().as_secs_f64() > budget;
            for which in 0..2 {
                let mut v = if which == 0 { scn.warm.clone() } else { scn.after.clone() };
                ddmin(&mut v, &stop, &mut |c| {
                    let mut s = scn.clone();
                    if which == 0 { s.warm = c.to_vec() } else { s.after = c.to_vec() }
                    match m.fails(&threads_case(&s, exps, &base, &decs)) {
                        Some(o) => {
                            scn = s;
                            out = o;
                            true
                        }
                        None => false,
                    }
                });
            }
            // Everything after the failing call cannot matter: cut tails first.
            for t in 0..scn.threads.len() {
                let mut len = scn.threads[t].len();
                let mut cut = len / 2;
                while cut >= 1 && !stop() {
                    let mut c = scn.clone();
                    c.threads[t].truncate(len - cut);
                    if let Some(o) = m.fails(&threads_case(&c, exps, &base, &decs)) {
                        scn = c;
                        out = o;
                        len -= cut;
                        cut = cut.min(len / 2);
                    } else {
                        cut /= 2;
                    }
                }
            }
            for t in 0..scn.threads.len() {
                // Simple calls only count one operation each, so chunks can be dropped together
                // with their decisions.
                let mut chunk = scn.threads[t].len() / 2;
                while chunk >= 1 {
                    let mut i = 0;
                    while i < scn.threads[t].len() && !stop() {
                        let j = (i + chunk).min(scn.threads[t].len());
                        let mut c = scn.clone();
                        c.threads[t].drain(i..j);
                        let mut d = decs.clone();
                        for k in (i..j).rev() {
                            d = drop_step(&d, t as u8, k as u32 + 1);
                        }
                        if let Some(o) = m.fails(&threads_case(&c, exps, &base, &d)) {
                            scn = c;
                            decs = d;
                            out = o;
                        } else {
                            i = j;
                        }
                    }
                    chunk /= 2;
                }
            }
            // Faults.
            for t in 0..scn.threads.len() {
                for k in 0..scn.threads[t].len() {
                    while !scn.threads[t][k].faults().is_empty() && !stop() {
                        let mut c = scn.clone();
                        c.threads[t][k].faults_mut().unwrap().pop();
                        match m.fails(&threads_case(&c, exps, &base, &decs)) {
                            Some(o) => {
                                scn = c;
                                out = o;
                            }
                            None => break,
                        }
                    }
                }
            }
            // Decisions.
            let mut d = decs.clone();
            ddmin(&mut d, &stop, &mut |c| match m.fails(&threads_case(&scn, exps, &base, c)) {
                Some(o) => {
                    out = o;
                    true
                }
                None => false,
            });
            decs = d;
            // Hostile arguments.
            for k in 0..scn.ops.len() {
                if !scn.ops[k].any || !scn.used_ops().contains(&k) {
                    continue;
                }
                let mut cur = scn.ops[k].clone();
                macro_rules! shrink { ($cur:ident, $items:expr, $c:ident => $put:expr) => {
                    let mut v: Vec<_> = $items;
                    ddmin(&mut v, &stop, &mut |$c| {
                        let mut $cur = cur.clone();
                        $put;
                        let mut s = scn.clone();
                        s.ops[k] = $cur.clone();
                        match m.fails(&threads_case(&s, exps, &base, &decs)) {
                            Some(o) => {
                                cur = $cur;
                                scn = s;
                                out = o;
                                true
                            }
                            None => false,
                        }
                    });
                } }
                shrink!(x, cur.s1.chars().collect(), c => x.s1 = c.iter().collect());
                shrink!(x, cur.s2.chars().collect(), c => x.s2 = c.iter().collect());
                shrink!(x, cur.rec.clone(), c => x.rec = c.to_vec());
            }
            // Environment back to normal where it does not matter.
            for which in 0..8 {
                if stop() {
                    break;
                }
                let mut c = scn.clone();
                match which {
                    0 => c.env_fuzz = 0,
                    1 => c.clock_base = 1_700_000_000_000_000_000,
                    2 => c.lifo = false,
                    3 => c.cpus = 8,
                    5 => c.nest = 1,
                    6 => c.nest /= 2,
                    7 => c.nest_panic = false,
                    _ => c.hash_seed = 7,
                }
                if c.to_json() == scn.to_json() {
                    continue;
                }
                if let Some(o) = m.fails(&threads_case(&c, exps, &base, &decs)) {
                    scn = c;
                    out = o;
                }
            }
            let mut exps = exps.clone();
            let mut small = scn.clone();
            small.compact(&mut exps);
            if let Some(o) = m.fails(&threads_case(&small, &exps, &base, &decs)) {
                out = o;
                scn = small;
            } else {
                let Case::Threads { exps: e, .. } = case else { unreachable!() };
                exps = e.clone();
            }
            (threads_case(&scn, &exps, &base, &decs), out, decs, m.tries)
        }
    }
}

// ---------------------------------------------------------------- replay
pub fn replay_json(prop: &Prop, seed: u64, tier: &str, idx: u64, case: &Case, out: &Outcome, decs: &[Dec], orig: (usize, usize), tries: u64, step_cap: u64) -> Value {
    json!({
        "property": prop.id,
        "violation": out.msg, "class": out.class(),
        "verif_seed": seed, "tier": tier, "run": idx,
        "run_seed": format!("{:#x}", mix(mix(seed, prop_hash(prop.id)), idx)),
        "kind": match case { Case::Threads{..} => "threads", Case::Seq(_) => "events" },
        "scenario": case.to_json(),
        "decisions": decs_json(decs),
        "decision_format": "[kind, thread, call number in the thread, step within the call (or ordinal of the forced choice), thread that runs next]",
        "step_cap": step_cap,
        "digest": format!("{:016x}", out.digest),
        "minimised_from": {"events": orig.0, "decisions": orig.1, "candidate_runs": tries},
        "how": "sh /verif/run.sh replay <this file>",
    })
}
pub fn load_case(prop: &Prop, v: &Value) -> Option<Case> {
    match v["kind"].as_str()? {
        "threads" => {
            let mut scn = Scn::from_json(prop.id, &v["scenario"])?;
            let exps = references(&scn.ops);
            if prop.id == "C07" {
                props::add_build_profile(&mut scn, &exps);
            }
            let mut cfg = replay_cfg(v["step_cap"].as_u64()?);
            cfg.replay = Some(decs_from_json(&v["decisions"]));
            Some(Case::Threads { scn, exps, cfg })
        }
        _ => Some(Case::Seq((prop.load_seq)(&v["scenario"])?)),
    }
}
pub fn replay(prop: &Prop, v: &Value) -> Outcome {
    let case = load_case(prop, v).expect("replay file does not parse");
    unsafe { pin(0) };
    let p = Shm::new() as *mut Shm;
    prebuild(prop, p);
    run_case(shm_ref(p), &case)
}

fn case_size(c: &Case) -> usize {
    match c {
        Case::Threads { scn, .. } => scn.size(),
        Case::Seq(s) => s.to_json()["events"].as_array().map_or(1, |a| a.len()),
    }
}
fn count_faults(st: &[u64; NS]) -> Value {
    let names = [
        S::spurious_wakes, S::eintr_wakes, S::long_stalls, S::trap_preempts, S::clock_jumps, S::wall_skews, S::log_panic, S::log_reenter, S::log_stall, S::log_block,
        S::str_panic, S::str_reenter, S::str_stall, S::str_block, S::disk_short_write, S::disk_eintr, S::disk_enospc, S::disk_lost_write,
        S::disk_torn_write, S::disk_short_read, S::disk_read_eintr, S::crash, S::restart, S::net_lost, S::net_dup, S::net_reorder, S::net_delay, S::net_truncate,
        S::net_splice, S::net_corrupt, S::bit_flip, S::rec_truncate, S::rec_splice, S::rec_dup_field, S::rec_reorder, S::unk_field, S::env_variants,
        S::random_reads, S::cpu_reads, S::idle_jumps, S::calls_lost, S::trunc_interrupted,
    ];
    let mut m = serde_json::Map::new();
    for n in names {
        if st[n as usize] > 0 {
            m.insert(STAT_NAMES[n as usize].into(), json!(st[n as usize]));
        }
    }
    Value::Object(m)
}

// ---------------------------------------------------------------- one check
pub fn check(prop: &Prop, tier: &str, seed: u64, root: &str) -> i32 {
    let t0 = Instant::now();
    let quick = tier == "quick";
    println!("{} {}: seed {seed}, tier {tier}", prop.id, prop.title);
    let corpus = Corpus::load();
    let g = (prop.prepare)(prop, corpus, seed, quick);
    let t_ref = t0.elapsed().as_secs_f64();
    println!("  {} reference calls, each made alone on a fresh instance ({:.1}s)", g.pool.len(), t_ref);
    let (runs, wall) = if quick { (prop.quick_runs, prop.quick_wall) } else { (prop.thorough_runs, prop.thorough_wall) };
    let wall = std::env::var("SIM_WALL").ok().and_then(|x| x.parse().ok()).unwrap_or(wall);
    let runs = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(runs);
    let s = search(prop, &g, seed, 0, runs, wall, WORKERS, false);
    if !s.errors.is_empty() {
        eprintln!("harness error: {}", s.errors.join("; "));
        return 2;
    }
    let st = &s.stats;
    let total_edges = s.edges.len() - 1;
    let covered = s.edges.iter().filter(|x| **x != 0).count();
    println!(
        "  {} runs in {:.1}s, {} with distinct non-trivial schedule or fault sequence; {} calls, {} switches, {} steps; {}/{} edges",
        s.runs, s.wall, s.distinct.len(), st[S::ops as usize], st[S::switches as usize], st[S::steps as usize], covered, total_edges
    );
    let mut violations = 0;
    let mut code = 0;
    let mut replay_path = String::new();
    if let Some(idx) = s.bad {
        violations = 1;
        code = 1;
        unsafe { pin(0) };
        let p = Shm::new() as *mut Shm;
        prebuild(prop, p);
        let (case, _) = (prop.generate)(&g, mix(mix(seed, prop_hash(prop.id)), idx));
        let first = run_case(shm_ref(p), &case);
        if !first.bad() {
            eprintln!("harness error: run {idx} did not fail again ({})", first.verdict);
            return 2;
        }
        let orig = (case_size(&case), first.decs.len());
        println!("  run {idx} violates: {}", first.msg);
        let step_cap = match &case {
            Case::Threads { cfg, .. } => cfg.step_cap,
            _ => 0,
        };
        let budget = std::env::var("SIM_MIN").ok().and_then(|x| x.parse().ok()).unwrap_or(if quick { 40.0 } else { 240.0 });
        let (small, out, decs, tries) = minimise(p, &case, &first, budget);
        let v = replay_json(prop, seed, tier, idx, &small, &out, &decs, orig, tries, step_cap);
        let dir = format!("{root}/out");
        std::fs::create_dir_all(&dir).ok();
        replay_path = format!("{dir}/{}-{}-{}.json", prop.id, seed, idx);
        std::fs::write(&replay_path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("  minimised from {} events / {} decisions to {} / {} in {} runs: {}", orig.0, orig.1, case_size(&small), decs.len(), tries, out.msg);
        // In a fresh process the file must fail the same way, twice.
        let exe = std::env::current_exe().unwrap();
        let mut seen = vec![];
        for _ in 0..2 {
            let o = std::process::Command::new(&exe).arg("replay").arg(&replay_path).output().expect("replay");
            let t = String::from_utf8_lossy(&o.stdout).into_owned();
            seen.push(t.lines().filter(|l| l.starts_with("class ") || l.starts_with("digest ")).collect::<Vec<_>>().join(" "));
        }
        let want = format!("class {} digest {:016x}", out.class(), out.digest);
        println!("  replay in fresh processes: {}", if seen.iter().all(|x| *x == want) { "exact".to_string() } else { format!("{seen:?} expected {want}") });
        println!("VIOLATION property={} replay={}", prop.id, replay_path);
    }
    let mut samples = vec![];
    if prop.prebuild {
        rt::setup_env(7, 8);
        scn::build_base();
    }
    for i in [0u64, 1, 2] {
        let (c, note) = (prop.generate)(&g, mix(mix(seed, prop_hash(prop.id)), i));
        samples.push(json!({"run": i, "strategy": note, "scenario": clip(&c.to_json())}));
    }
    let hours = s.wall / 3600.0;
    let probes: Vec<&str> = prop.probes.iter().filter(|p| st[**p as usize] == 0).map(|p| STAT_NAMES[*p as usize]).collect();
    let mut all = serde_json::Map::new();
    for (i, n) in STAT_NAMES.iter().enumerate().take(NS) {
        if st[i] > 0 {
            all.insert((*n).into(), json!(st[i]));
        }
    }
    let ev = json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": s.distinct.len(),
            "rule": prop.rule,
            "samples": samples,
            "simulated_runs": s.runs, "runs_per_hour": (s.runs as f64 / hours.max(1e-9)) as u64,
            "seeds": s.runs, "calls": st[S::ops as usize], "answers_checked": st[S::checks as usize],
            "reference_calls": g.pool.len(),
            "simulated_steps": st[S::steps as usize], "simulated_seconds": st[S::sim_us as usize] as f64 / 1e6,
            "faults_injected": count_faults(st),
            "counters": Value::Object(all),
            "strategies": s.notes,
            "instrumented_edges_covered": covered, "instrumented_edges": total_edges,
            "probes_stuck_at_zero": probes,
            "components": {"real": prop.real, "stub": prop.stub},
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
        "replay": replay_path,
    });
    std::fs::create_dir_all(format!("{root}/evidence")).ok();
    std::fs::write(format!("{root}/evidence/{}.json", prop.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for l in (prop.known)(root) {
        println!("KNOWN-FINDING: property={} {l}", prop.id);
    }
    code
}
/// Long cases are cut for the evidence file.
fn clip(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut o: Vec<Value> = a.iter().take(12).map(clip).collect();
            if a.len() > 12 {
                o.push(json!(format!("... {} in all", a.len())));
            }
            Value::Array(o)
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), clip(v))).collect()),
        _ => v.clone(),
    }
}
/// Runs the same seeds twice, with different numbers of worker processes, and compares event logs.
pub fn selftest(prop: &Prop, seed: u64, runs: u64) -> i32 {
    let g = (prop.prepare)(prop, Corpus::load(), seed, true);
    let a = search(prop, &g, seed, 0, runs, 1e9, WORKERS, true);
    let b = search(prop, &g, seed, 0, runs, 1e9, 3, true);
    let diff: Vec<_> = a.digests.iter().zip(b.digests.iter()).filter(|(x, y)| x != y).collect();
    println!("{}: {} runs twice (8 and 3 workers), {} distinct, {} differing event logs {:?}, bad {:?} {:?} {:?}", prop.id, a.digests.len(), a.distinct.len(), diff.len(), diff.iter().take(5).map(|(x, _)| x.0).collect::<Vec<_>>(), a.bad, b.bad, a.errors);
    (!diff.is_empty() || a.digests.len() != b.digests.len()) as i32
}
pub fn describe_step(s: &Step, ops: &[Op]) -> String {
    let mut t = match s {
        Step::Call { op, inst, .. } => format!("inst {inst}: {}", ops[*op].describe()),
        Step::Trunc { op, inst, .. } => format!("inst {inst}: truncate {}", ops[*op].describe()),
        x => format!("{x:?}"),
    };
    for f in s.faults() {
        let w = if f.site == Site::Log { "log" } else { "str" };
        t.push_str(&format!(" [{w} #{}: {}]", f.nth, match &f.act {
            Act::Reenter(o, i) => format!("reenter inst {i} {}", ops[*o].describe()),
            a => format!("{a:?}"),
        }));
    }
    t
}

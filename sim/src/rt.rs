//! The simulator's runtime.
//!
//! Workload threads are real threads of which exactly one runs at any time: the one that
//! holds the baton. The crates under test are compiled with coverage callbacks, so the baton
//! can be taken away before any basic block or memory access; locks, parking, sleeping, thread
//! creation, clocks, randomness and the CPU count are interposed at the libc boundary. Who runs
//! next is decided by a seeded strategy (generation) or by a recorded decision list (replay).
#![allow(static_mut_refs)]
use crate::alloc;
use crate::rng::{Rng, mix};
use std::cell::Cell;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXE: usize = 1 << 15;
pub const MAXTH: usize = 48;
pub const MAXDEC: usize = 1 << 19;

// ---------------------------------------------------------------- raw system calls
#[inline(always)]
pub unsafe fn raw(n: i64, a: [usize; 6]) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r,
            in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
            lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
unsafe fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
unsafe fn ret(r: isize) -> i64 {
    if r < 0 && r > -4096 {
        unsafe { set_errno(-r as i32) };
        -1
    } else {
        r as i64
    }
}

// ---------------------------------------------------------------- statistics
macro_rules! stats { ($($n:ident),* $(,)?) => {
    #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
    #[derive(Clone, Copy)]
    pub enum S { $($n),*, COUNT }
    pub const STAT_NAMES: &[&str] = &[$(stringify!($n)),*];
} }
stats! {
    runs, steps, sim_us, ops, checks, threads, lib_threads, switches, preempt_in_call, preempt_at_boundary,
    yields, futex_waits, futex_blocked, futex_wakes, spurious_wakes, eintr_wakes, timed_waits, sleeps,
    long_stalls, trap_preempts, store_preempts, hot_preempts, clock_jumps, wall_skews, clock_reads, host_reads, random_reads, cpu_reads, env_reads,
    logs, log_panic, log_reenter, log_stall, log_block, str_panic, str_reenter, str_stall, str_block,
    reentrant_calls, calls_lost, calls_during_block, instances_built, instances_dropped, instances_moved,
    iter_opened, iter_items, iter_walks, calls_at_thread_end, iter_calls_while_open, lent_answers_rechecked, trunc_success, trunc_noop,
    trunc_interrupted, global_first_touch, contended_first_use, same_pattern_race, guard_switch,
    disk_writes, disk_short_write, disk_eintr, disk_enospc, disk_lost_write, disk_torn_write, disk_short_read, disk_read_eintr,
    crash, restart, records_stored, records_recovered, records_torn_detected, net_sent, net_delivered, net_lost, net_dup,
    net_reorder, net_delay, net_truncate, net_splice, net_corrupt, bit_flip, rec_truncate, rec_splice, rec_dup_field, rec_reorder,
    unk_field, peer_encode, peer_decode, decode_ok, decode_err, bad_requests, good_after_bad,
    mem_phases, mem_ops, env_variants, idle_jumps, alt_thread_ask, fresh_references,
}
pub const NS: usize = S::COUNT as usize;

// ---------------------------------------------------------------- shared result area
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(C)]
pub struct Dec {
    pub kind: u8, // 0 preempt, 1 forced choice, 2 spurious wake (to=0) or EINTR (to=1)
    pub tid: u8,
    pub to: u8,
    pub pad: u8,
    pub opno: u32,
    pub at: u64,
}
#[repr(C)]
pub struct Shm {
    pub verdict: u32, // 0 unfinished, 1 ok, 2 violation
    pub vlen: u32,
    pub klen: u32,
    pub ndec: u32,
    pub truncated: u32,
    pub nontrivial: u32,
    pub kind: [u8; 48],
    pub msg: [u8; 8192],
    pub digest: u64,
    pub sched_digest: u64,
    pub stats: [u64; NS],
    pub run_stats: [u64; NS],
    pub edges: [u8; MAXE],
    pub out_len: u32,
    pub out: [u8; 1 << 18],
    pub decs: [Dec; MAXDEC],
}
impl Shm {
    pub fn new() -> &'static mut Shm {
        unsafe {
            let p = libc::mmap(
                null_mut(),
                std::mem::size_of::<Shm>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            &mut *(p as *mut Shm)
        }
    }
    pub fn reset(&mut self) {
        self.verdict = 0;
        self.vlen = 0;
        self.klen = 0;
        self.ndec = 0;
        self.truncated = 0;
        self.nontrivial = 0;
        self.digest = 0;
        self.sched_digest = 0;
        self.out_len = 0;
        self.run_stats = [0; NS];
    }
    pub fn message(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.vlen as usize]).into_owned()
    }
    pub fn vkind(&self) -> String {
        String::from_utf8_lossy(&self.kind[..self.klen as usize]).into_owned()
    }
    pub fn output(&self) -> &[u8] {
        &self.out[..self.out_len as usize]
    }
    pub fn push_out(&mut self, b: &[u8]) {
        let o = self.out_len as usize;
        let n = b.len().min(self.out.len() - o);
        self.out[o..o + n].copy_from_slice(&b[..n]);
        self.out_len += n as u32;
    }
}

// ---------------------------------------------------------------- configuration of one run
#[derive(Clone, Debug)]
pub enum Strat {
    Serial,
    Gap { mean: u64 },
    Store { mean: u64 },
    /// Pre-empts before accesses to memory that threads share and change.
    Hot { mean: u64 },
    Pct { points: Vec<u64> },
}
#[derive(Clone, Debug)]
pub struct PlanItem {
    pub tid: u8,
    pub opno: u32,
    pub at: u64,
    pub stall: u64,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub strat: Strat,
    pub plan: Vec<PlanItem>,
    pub traps: Vec<(u32, u32, u64)>, // edge, nth hit, stall
    pub spurious_pm: u64,
    pub eintr_pm: u64,
    pub stall_pm: u64,
    pub stall_len: u64,
    pub boundary_pm: u64,
    pub lifo: bool,
    /// 1: freed memory must not be touched; 2: nor is it used again.
    pub shadow: u8,
    pub hash_seed: u64,
    pub cpus: u32,
    pub env_fuzz: u64,
    pub clock_base: u64,
    pub clock_quantum: u64,
    pub step_cap: u64,
    pub max_switches: u64,
    pub replay: Option<Vec<Dec>>,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            seed: 1,
            strat: Strat::Serial,
            plan: vec![],
            traps: vec![],
            spurious_pm: 0,
            eintr_pm: 0,
            stall_pm: 0,
            stall_len: 0,
            boundary_pm: 0,
            lifo: false,
            shadow: 0,
            hash_seed: 7,
            cpus: 8,
            env_fuzz: 0,
            clock_base: 1_700_000_000_000_000_000,
            clock_quantum: 1,
            step_cap: 400_000_000,
            max_switches: 20_000,
            replay: None,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Free,
    Run,
    Futex { addr: usize, bits: u32, deadline: u64 },
    Sleep { until: u64 },
    Join { tid: usize },
    StallOthers,
    Exited,
}

pub struct Th {
    pub step: u64,
    next_stop: u64,
    stores: u64,
    store_stop: u64,
    hots: u64,
    hot_stop: u64,
    word: AtomicU32,
    pub id: usize,
    pub opno: u32,
    pub op_start: u64,
    op_limit: u64,
    forced: u64,
    waits: u64,
    slice0: u64,
    pub st: St,
    seq: u64,
    timed_out: bool,
    prio: u64,
    stall_until: u64,
    workload: bool,
    pthread: libc::pthread_t,
    replay_at: usize,
    plan_at: usize,
    strat_stop: u64,
    spur_run: u32,
    /// Upper end of the part of the stack that runs simulated code.
    pub stack_hi: usize,
}

struct Rt {
    th: [Th; MAXTH],
    n: usize,
    cur: usize,
    gbase: u64,
    rng: Rng,
    cfg: Cfg,
    replay: bool,
    plans: Vec<Vec<PlanItem>>,
    replays: Vec<Vec<Dec>>,
    forced_replays: Vec<Vec<Dec>>,
    pct_idx: usize,
    pct_low: u64,
    fair: bool,
    cap2: u64,
    slice_guard: u64,
    switches: u64,
    fseq: u64,
    clock_extra: u64,
    rand_ctr: u64,
    main_word: AtomicU32,
    live: usize,
    traps: Vec<(u32, u32, u64)>,
}

thread_local! { pub static CUR: Cell<*mut Th> = const { Cell::new(null_mut()) }; }
static mut R: *mut Rt = null_mut();
pub static mut SHM: *mut Shm = null_mut();
static mut EDGE_TRAP: [u8; MAXE] = [0; MAXE];
pub static mut EDGE_CNT: [u32; MAXE] = [0; MAXE];
pub static mut NEDGES: u32 = 0;
static mut CLOCK_CARRY: u64 = 0;
static mut SETUP_RAND: u64 = 0;
static mut SETUP_SEED: u64 = 7;
static mut SETUP_CPUS: u32 = 8;

/// Randomness and CPU count seen outside simulated threads (building the base instance).
pub fn setup_env(hash_seed: u64, cpus: u32) {
    unsafe {
        SETUP_SEED = hash_seed;
        SETUP_RAND = 0;
        SETUP_CPUS = cpus;
    }
}
#[inline(always)]
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
#[inline(always)]
pub fn stat(s: S, n: u64) {
    unsafe {
        if !SHM.is_null() {
            (*SHM).run_stats[s as usize] += n;
        }
    }
}
/// Counts something that happens while a case is generated.
pub static mut GEN_STATS: [u64; NS] = [0; NS];
pub fn gen_stat(s: S, n: u64) {
    unsafe { GEN_STATS[s as usize] += n };
}
pub fn digest(x: u64) {
    unsafe {
        if !SHM.is_null() {
            (*SHM).digest = mix((*SHM).digest, x);
        }
    }
}
pub fn digest_str(s: &str) {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    digest(h);
}

// ---------------------------------------------------------------- instrumentation callbacks
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let mut p = start;
        if p == stop || *p != 0 {
            return;
        }
        while p < stop {
            NEDGES += 1;
            *p = NEDGES.min(MAXE as u32 - 1);
            p = p.add(1);
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        return;
    }
    unsafe {
        let t = &mut *p;
        let id = *g as usize & (MAXE - 1);
        EDGE_CNT[id] = EDGE_CNT[id].wrapping_add(1);
        t.step += 1;
        if EDGE_TRAP[id] != 0 {
            trap(t, id);
        }
        if t.step >= t.next_stop {
            slow(t);
        }
    }
}
#[inline(always)]
unsafe fn on_access(addr: usize) {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        return;
    }
    unsafe {
        let t = &mut *p;
        t.step += 1;
        if t.step >= t.next_stop {
            slow(t);
        }
        if SHADOW_ON {
            if HOT_ON && hot(t, addr, false) {
                hot_access(t);
            }
            freed(t, addr, false);
        }
    }
}
#[inline(always)]
unsafe fn on_store(addr: usize) {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        return;
    }
    unsafe {
        let t = &mut *p;
        t.step += 1;
        t.stores += 1;
        if t.step >= t.next_stop {
            slow(t);
        }
        if t.stores >= t.store_stop {
            slow_store(t);
        }
        if SHADOW_ON {
            if HOT_ON && hot(t, addr, true) {
                hot_access(t);
            }
            freed(t, addr, true);
        }
    }
}
// Atomic operations of the crates under test (see wrap.sh), performed here.
macro_rules! atomics {
    ($($t:ty, $a:ty, $load:ident $store:ident $swap:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $load(p: *const $t, _o: i32) -> $t {
            unsafe {
                on_access(p as usize);
                (*(p as *const $a)).load(std::sync::atomic::Ordering::SeqCst)
            }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _o: i32) {
            unsafe {
                on_store(p as usize);
                (*(p as *const $a)).store(v, std::sync::atomic::Ordering::SeqCst)
            }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _o: i32, _f: i32) -> $t {
            unsafe {
                on_store(p as usize);
                match (*(p as *const $a)).compare_exchange(c, v, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst) {
                    Ok(x) | Err(x) => x,
                }
            }
        }
        atomics!(@ $t, $a, $swap, swap);
        atomics!(@ $t, $a, $add, fetch_add);
        atomics!(@ $t, $a, $sub, fetch_sub);
        atomics!(@ $t, $a, $and, fetch_and);
        atomics!(@ $t, $a, $or, fetch_or);
        atomics!(@ $t, $a, $xor, fetch_xor);
        atomics!(@ $t, $a, $nand, fetch_nand);
    )*};
    (@ $t:ty, $a:ty, $n:ident, $m:ident) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $n(p: *mut $t, v: $t, _o: i32) -> $t {
            unsafe {
                on_store(p as usize);
                (*(p as *const $a)).$m(v, std::sync::atomic::Ordering::SeqCst)
            }
        }
    };
}
atomics! {
    u8, std::sync::atomic::AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub
        __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16, std::sync::atomic::AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub
        __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32, std::sync::atomic::AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub
        __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64, std::sync::atomic::AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub
        __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
#[unsafe(no_mangle)]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
}
#[unsafe(no_mangle)]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {
    std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
}

// Memory that existed before the threads started and is written while they run, and memory
// last written by another thread, is where races can be; everything else is private. The
// shadow bytes say who wrote a word last; which address a block has does not matter.
static mut HOT_ON: bool = false;
static mut SHADOW_ON: bool = false;
static mut MARK: usize = 0;
static mut DATA: (usize, usize) = (0, 0);
const DATA_WORDS: usize = 1 << 20;
static mut DATA_SHADOW: [u8; DATA_WORDS] = [0; DATA_WORDS];
#[inline]
unsafe fn hot(t: &mut Th, addr: usize, store: bool) -> bool {
    unsafe {
        let (s, old) = if addr.wrapping_sub(alloc::ARENA) < alloc::ARENA_LEN {
            ((alloc::SHADOW + (addr - alloc::ARENA) / 8) as *mut u8, addr < MARK)
        } else if addr >= DATA.0 && addr < DATA.1 {
            ((&raw mut DATA_SHADOW as *mut u8).add((addr - DATA.0) / 8 & (DATA_WORDS - 1)), true)
        } else {
            return false;
        };
        let me = t.id as u8 + 1;
        let h = if old { store || *s != 0 } else { *s != 0 && *s != me };
        if store && *s != alloc::FREED {
            *s = me;
        }
        h
    }
}
/// Memory that was freed is not touched any more.
#[inline]
unsafe fn freed(t: &mut Th, addr: usize, store: bool) {
    unsafe {
        if addr.wrapping_sub(alloc::ARENA) < alloc::ARENA_LEN && *((alloc::SHADOW + (addr - alloc::ARENA) / 8) as *const u8) == alloc::FREED {
            violation("use-after-free", &format!("thread {} call {}: library code {} memory that was freed", t.id, rel(t), if store { "writes to" } else { "reads" }));
        }
    }
}
unsafe fn hot_access(t: &mut Th) {
    unsafe {
        t.hots += 1;
        if t.hots >= t.hot_stop {
            slow_hot(t);
        }
    }
}
/// The data segment of this program, less the simulator's own shadow.
unsafe fn data_segment() -> (usize, usize) {
    unsafe extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    (&raw const __data_start as usize, &raw const _end as usize)
}
macro_rules! hooks { ($f:ident: $($n:ident)*) => { $(
    #[unsafe(no_mangle)] pub unsafe extern "C" fn $n(p: usize) { unsafe { $f(p) } } )* } }
hooks!(on_access: __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
hooks!(on_store: __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ---------------------------------------------------------------- scheduling
unsafe fn futex_wake_raw(w: &AtomicU32) {
    unsafe { raw(libc::SYS_futex, [w as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0]) };
}
unsafe fn baton_wait(w: &AtomicU32) {
    while w.swap(0, SeqCst) == 0 {
        unsafe { raw(libc::SYS_futex, [w as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0]) };
    }
}
unsafe fn rt() -> &'static mut Rt {
    unsafe { &mut *R }
}
fn gstep(r: &Rt, t: &Th) -> u64 {
    r.gbase + (t.step - t.slice0)
}
pub fn now_ns() -> u64 {
    unsafe {
        let p = CUR.with(|c| c.get());
        if p.is_null() || R.is_null() {
            return 1_700_000_000_000_000_000;
        }
        let r = rt();
        r.cfg.clock_base + gstep(r, &*p).wrapping_mul(r.cfg.clock_quantum) + r.clock_extra
    }
}
fn push_dec(d: Dec) {
    let s = shm();
    if (s.ndec as usize) < MAXDEC {
        s.decs[s.ndec as usize] = d;
        s.ndec += 1;
    } else {
        s.truncated = 1;
    }
    let h = mix(((d.kind as u64) << 48) | ((d.tid as u64) << 32) | ((d.to as u64) << 40) | d.opno as u64, d.at);
    s.digest = mix(s.digest, h);
    s.sched_digest = mix(s.sched_digest, h);
}
impl Rt {
    /// Sets the step at which the slow path is entered again.
    fn arm(&mut self, t: &mut Th) {
        let mut stop = t.slice0.saturating_add(self.slice_guard);
        stop = stop.min(t.op_limit);
        if self.fair {
            stop = stop.min(t.slice0 + 20_000);
        } else if self.replay {
            let v = &self.replays[t.id];
            while t.replay_at < v.len()
                && (v[t.replay_at].opno < t.opno || (v[t.replay_at].opno == t.opno && t.op_start + v[t.replay_at].at < t.step))
            {
                t.replay_at += 1;
            }
            if let Some(d) = v.get(t.replay_at) {
                if d.opno == t.opno && d.at > 0 {
                    stop = stop.min(t.op_start + d.at);
                }
            }
        } else {
            stop = stop.min(t.strat_stop);
            let v = &self.plans[t.id];
            while t.plan_at < v.len()
                && (v[t.plan_at].opno < t.opno || (v[t.plan_at].opno == t.opno && t.op_start + v[t.plan_at].at < t.step))
            {
                t.plan_at += 1;
            }
            if let Some(p) = v.get(t.plan_at) {
                if p.opno == t.opno {
                    stop = stop.min(t.op_start + p.at);
                }
            }
            if let Strat::Pct { points } = &self.cfg.strat {
                if let Some(&g) = points.get(self.pct_idx) {
                    let now = gstep(self, t);
                    stop = stop.min(t.step + g.saturating_sub(now));
                }
            }
        }
        let cap = if self.fair { self.cap2 } else { self.cfg.step_cap };
        let now = gstep(self, t);
        stop = stop.min(t.step + cap.saturating_sub(now));
        t.next_stop = stop;
    }
    fn draw(&mut self, t: &mut Th) {
        t.strat_stop = u64::MAX;
        t.store_stop = u64::MAX;
        t.hot_stop = u64::MAX;
        if self.replay || self.fair || self.switches > self.cfg.max_switches {
            return;
        }
        match self.cfg.strat {
            Strat::Gap { mean } => t.strat_stop = t.step + self.rng.exp(mean),
            Strat::Store { mean } => t.store_stop = t.stores + self.rng.exp(mean),
            Strat::Hot { mean } => t.hot_stop = t.hots + self.rng.exp(mean),
            _ => {}
        }
    }
    fn runnable(&self, i: usize) -> bool {
        self.th[i].st == St::Run
    }
    /// Chooses another runnable thread than `not` according to the strategy.
    fn choose(&mut self, not: usize, now: u64) -> Option<usize> {
        let clock = self.cfg.clock_base + now.wrapping_mul(self.cfg.clock_quantum) + self.clock_extra;
        for i in 0..self.n {
            let d = match self.th[i].st {
                St::Futex { deadline, .. } if deadline != u64::MAX => deadline,
                St::Sleep { until } => until,
                _ => continue,
            };
            if d <= clock {
                self.th[i].timed_out = true;
                self.th[i].st = St::Run;
            }
        }
        let mut c = [0usize; MAXTH];
        let mut n = 0;
        for i in 0..self.n {
            if i != not && self.runnable(i) && self.th[i].stall_until <= now {
                c[n] = i;
                n += 1;
            }
        }
        if n == 0 {
            for i in 0..self.n {
                if i != not && self.runnable(i) {
                    self.th[i].stall_until = 0;
                    c[n] = i;
                    n += 1;
                }
            }
        }
        if n == 0 {
            return None;
        }
        if self.replay {
            return Some(c[0]);
        }
        if self.fair {
            // round robin
            for &i in &c[..n] {
                if i > not {
                    return Some(i);
                }
            }
            return Some(c[0]);
        }
        if let Strat::Pct { .. } = self.cfg.strat {
            return c[..n].iter().copied().max_by_key(|&i| self.th[i].prio);
        }
        Some(c[self.rng.n(n)])
    }
    unsafe fn switch_from(&mut self, t: &mut Th, to: usize, wait: bool) {
        unsafe {
            self.gbase = gstep(self, t);
            t.slice0 = t.step;
            self.cur = to;
            self.switches += 1;
            stat(S::switches, 1);
            let x = &mut *(&mut self.th[to] as *mut Th);
            x.slice0 = x.step;
            self.draw(x);
            self.arm(x);
            x.word.store(1, SeqCst);
            futex_wake_raw(&x.word);
            if wait {
                baton_wait(&t.word);
            }
        }
    }
}
fn rel(t: &Th) -> u64 {
    t.step - t.op_start
}
/// Takes the baton away from the running thread `t`, which stays runnable.
unsafe fn preempt(t: &mut Th, forced_to: Option<usize>, record: bool) -> bool {
    unsafe {
        let r = rt();
        let now = gstep(r, t);
        let to = match forced_to {
            Some(x) => x,
            None => match r.choose(t.id, now) {
                Some(x) => x,
                None => return false,
            },
        };
        if record {
            push_dec(Dec { kind: 0, tid: t.id as u8, to: to as u8, pad: 0, opno: t.opno, at: rel(t) });
        }
        if rel(t) > 0 {
            stat(S::preempt_in_call, 1);
            shm().nontrivial = 1;
        } else {
            stat(S::preempt_at_boundary, 1);
        }
        r.switch_from(t, to, true);
        true
    }
}
#[cold]
unsafe fn slow(t: &mut Th) {
    unsafe {
        let r = rt();
        let now = gstep(r, t);
        let cap = if r.fair { r.cap2 } else { r.cfg.step_cap };
        if now >= cap {
            if r.fair {
                violation("no-progress", &format!(
                    "calls did not finish within {} further steps under a fair schedule with all faults stopped (thread {} in call {})",
                    r.cap2 - r.cfg.step_cap, t.id, t.opno));
            }
            r.fair = true;
            for x in r.th.iter_mut() {
                x.stall_until = 0;
            }
            r.arm(t);
            return;
        }
        if t.step >= t.op_limit {
            violation("no-progress", &format!("a call of thread {} (call {}) ran for {} steps without finishing", t.id, t.opno, rel(t)));
        }
        if r.replay && !r.fair {
            let mut any = false;
            while let Some(d) = r.replays[t.id].get(t.replay_at).copied() {
                if d.opno == t.opno && d.at > 0 && t.op_start + d.at <= t.step {
                    t.replay_at += 1;
                    any = true;
                    let to = d.to as usize;
                    if to < r.n && to != t.id && r.runnable(to) {
                        preempt(t, Some(to), true);
                    }
                } else {
                    break;
                }
            }
            if any {
                r.arm(t);
                return;
            }
        } else if !r.fair {
            let mut stall = 0;
            let mut fire = false;
            if let Some(p) = r.plans[t.id].get(t.plan_at).cloned() {
                if p.opno == t.opno && t.op_start + p.at <= t.step {
                    t.plan_at += 1;
                    stall = p.stall;
                    fire = true;
                }
            }
            if let Strat::Pct { points } = &r.cfg.strat {
                if points.get(r.pct_idx).is_some_and(|&g| now >= g) {
                    r.pct_idx += 1;
                    r.pct_low -= 1;
                    t.prio = r.pct_low;
                    fire = true;
                }
            }
            if t.step >= t.strat_stop {
                fire = true;
            }
            if fire {
                if stall == 0 && r.cfg.stall_pm > 0 && r.rng.chance(r.cfg.stall_pm, 1000) {
                    stall = r.rng.exp(r.cfg.stall_len);
                }
                if stall > 0 {
                    stat(S::long_stalls, 1);
                    t.stall_until = now.saturating_add(stall);
                }
                if !preempt(t, None, true) {
                    t.stall_until = 0;
                }
                let r = rt();
                r.draw(t);
                r.arm(t);
                return;
            }
        }
        // Fairness: nobody keeps the processor for ever.
        if t.step >= t.slice0 + r.slice_guard || (r.fair && t.step >= t.slice0 + 20_000) {
            if let Strat::Pct { .. } = r.cfg.strat {
                r.pct_low -= 1;
                t.prio = r.pct_low;
            }
            if preempt(t, None, true) {
                stat(S::guard_switch, 1);
            } else {
                r.gbase = gstep(r, t);
                t.slice0 = t.step;
            }
        }
        r.arm(t);
    }
}
#[cold]
unsafe fn slow_store(t: &mut Th) {
    unsafe {
        let r = rt();
        t.store_stop = u64::MAX;
        if r.replay || r.fair {
            return;
        }
        stat(S::store_preempts, 1);
        preempt(t, None, true);
        let r = rt();
        r.draw(t);
        r.arm(t);
    }
}
#[cold]
unsafe fn slow_hot(t: &mut Th) {
    unsafe {
        let r = rt();
        t.hot_stop = u64::MAX;
        if r.replay || r.fair {
            return;
        }
        stat(S::hot_preempts, 1);
        if r.cfg.stall_pm > 0 && r.rng.chance(r.cfg.stall_pm, 1000) {
            stat(S::long_stalls, 1);
            t.stall_until = gstep(r, t).saturating_add(r.rng.exp(r.cfg.stall_len));
        }
        if !preempt(t, None, true) {
            t.stall_until = 0;
        }
        let r = rt();
        r.draw(t);
        r.arm(t);
    }
}
#[cold]
unsafe fn trap(t: &mut Th, id: usize) {
    unsafe {
        let r = rt();
        if r.replay || r.fair {
            return;
        }
        let mut stall = None;
        let mut left = false;
        for x in r.traps.iter_mut() {
            if x.0 as usize == id && x.1 > 0 {
                x.1 -= 1;
                if x.1 == 0 {
                    stall = Some(x.2);
                } else {
                    left = true;
                }
            }
        }
        if !left {
            EDGE_TRAP[id] = 0;
        }
        if let Some(s) = stall {
            let now = gstep(r, t);
            t.stall_until = now.saturating_add(s);
            stat(S::trap_preempts, 1);
            if !preempt(t, None, true) {
                t.stall_until = 0;
            }
            let r = rt();
            r.draw(t);
            r.arm(t);
        }
    }
}

/// Where the current thread cannot go on: picks who runs next, jumping the clock if needed.
unsafe fn block_switch(t: &mut Th, wait: bool) {
    unsafe {
        let r = rt();
        let fi = t.forced;
        t.forced += 1;
        let opno = if wait { t.opno } else { u32::MAX };
        loop {
            let now = gstep(r, t);
            let mut to = None;
            if r.replay && !r.fair {
                for d in &r.forced_replays[t.id] {
                    if d.opno == opno && d.at == fi {
                        let x = d.to as usize;
                        if x < r.n && x != t.id && r.runnable(x) {
                            to = Some(x);
                        }
                    }
                }
            }
            let to = to.or_else(|| r.choose(t.id, now));
            if let Some(to) = to {
                push_dec(Dec { kind: 1, tid: t.id as u8, to: to as u8, pad: 0, opno, at: fi });
                r.switch_from(t, to, wait);
                return;
            }
            // A woken thread may be the caller itself.
            if wait && t.st == St::Run {
                return;
            }
            // Nobody can run: let time pass, release callbacks that wait for all others.
            let mut best: Option<(u64, usize)> = None;
            for i in 0..r.n {
                let d = match r.th[i].st {
                    St::Futex { deadline, .. } if deadline != u64::MAX => deadline,
                    St::Sleep { until } => until,
                    _ => continue,
                };
                if best.is_none_or(|b| d < b.0) {
                    best = Some((d, i));
                }
            }
            if let Some((d, i)) = best {
                let nowt = r.cfg.clock_base + now.wrapping_mul(r.cfg.clock_quantum) + r.clock_extra;
                if d > nowt {
                    r.clock_extra += d - nowt;
                }
                r.th[i].timed_out = true;
                r.th[i].st = St::Run;
                if i == t.id && wait {
                    return;
                }
                continue;
            }
            let blocked: Vec<usize> = (0..r.n).filter(|&i| matches!(r.th[i].st, St::Futex { .. } | St::Join { .. }) && r.th[i].workload).collect();
            let stalled: Vec<usize> = (0..r.n).filter(|&i| r.th[i].st == St::StallOthers).collect();
            if !stalled.is_empty() {
                if !blocked.is_empty() {
                    violation("blocked-by-stalled-callback", &format!(
                        "threads {:?} cannot go on while application code called by the library is stalled in threads {:?}", blocked, stalled));
                }
                for &i in &stalled {
                    r.th[i].st = St::Run;
                }
                if wait && t.st == St::Run && stalled.len() == 1 {
                    return;
                }
                continue;
            }
            if r.live == 0 {
                r.main_word.store(1, SeqCst);
                futex_wake_raw(&r.main_word);
                if wait {
                    baton_wait(&t.word);
                }
                return;
            }
            let d: Vec<String> = (0..r.n)
                .filter(|&i| !matches!(r.th[i].st, St::Exited | St::Free))
                .map(|i| format!("thread {} in call {}: {}", i, r.th[i].opno, match r.th[i].st {
                    St::Futex { .. } => "waiting for a lock or wake-up",
                    St::Join { .. } => "joining a thread",
                    _ => "stuck",
                }))
                .collect();
            violation("deadlock", &format!("no thread can make progress: {}", d.join("; ")));
        }
    }
}

// ---------------------------------------------------------------- verdicts
unsafe fn finish_shm() {
    unsafe {
        let s = shm();
        if !R.is_null() {
            let r = rt();
            let p = CUR.with(|c| c.get());
            let g = if p.is_null() { r.gbase } else { gstep(r, &*p) };
            stat(S::steps, g);
            stat(S::sim_us, (g.wrapping_mul(r.cfg.clock_quantum) + r.clock_extra - CLOCK_CARRY) / 1000);
        }
        for i in 0..MAXE {
            if EDGE_CNT[i] != 0 {
                s.edges[i] = 1;
            }
        }
        for i in 0..NS {
            s.stats[i] += s.run_stats[i];
        }
    }
}
pub fn violation(kind: &str, msg: &str) -> ! {
    unsafe {
        let s = shm();
        if s.verdict == 0 {
            let k = kind.as_bytes();
            s.kind[..k.len()].copy_from_slice(k);
            s.klen = k.len() as u32;
            let m = msg.as_bytes();
            let n = m.len().min(s.msg.len());
            s.msg[..n].copy_from_slice(&m[..n]);
            s.vlen = n as u32;
            finish_shm();
            s.verdict = 2;
        }
        raw(libc::SYS_exit_group, [0; 6]);
        loop {}
    }
}
pub fn harness_error(msg: &str) -> ! {
    let s = shm();
    let m = &msg.as_bytes()[..msg.len().min(s.msg.len())];
    s.msg[..m.len()].copy_from_slice(m);
    s.vlen = m.len() as u32;
    s.verdict = 3;
    unsafe { raw(libc::SYS_exit_group, [0; 6]) };
    loop {}
}
pub fn finish_ok() -> ! {
    unsafe {
        finish_shm();
        shm().verdict = 1;
        raw(libc::SYS_exit_group, [0; 6]);
        loop {}
    }
}

// ---------------------------------------------------------------- running threads
pub fn current() -> Option<&'static mut Th> {
    let p = CUR.with(|c| c.get());
    if p.is_null() { None } else { Some(unsafe { &mut *p }) }
}
pub fn op_begin(limit: u64) {
    if let Some(t) = current() {
        unsafe {
            let r = rt();
            t.opno += 1;
            t.op_start = t.step;
            t.op_limit = t.step.saturating_add(limit);
            t.forced = 0;
            t.waits = 0;
            r.arm(t);
            if r.replay && !r.fair {
                while let Some(d) = r.replays[t.id].get(t.replay_at).copied() {
                    if d.opno == t.opno && d.at == 0 {
                        t.replay_at += 1;
                        if (d.to as usize) < r.n && d.to as usize != t.id && r.runnable(d.to as usize) {
                            preempt(t, Some(d.to as usize), true);
                        }
                    } else {
                        break;
                    }
                }
            } else if !r.fair && r.cfg.boundary_pm > 0 && r.rng.chance(r.cfg.boundary_pm, 1000) {
                preempt(t, None, true);
            }
            rt().arm(t);
        }
    }
}
pub fn op_end() {
    if let Some(t) = current() {
        t.op_limit = u64::MAX;
        unsafe { rt().arm(t) };
    }
}
/// Lifts the step limit of the current call (application code inside it may take any time).
pub fn op_unlimited() {
    if let Some(t) = current() {
        t.op_limit = u64::MAX;
        unsafe { rt().arm(t) };
    }
}
/// Runs `f` without pre-emption being attributed to a call (harness code that runs library code).
pub fn stall_steps(n: u64) {
    if let Some(t) = current() {
        unsafe {
            let r = rt();
            let now = gstep(r, t);
            t.stall_until = now.saturating_add(n);
            // A forced switch, so that it is repeated in replays.
            if (0..r.n).any(|i| i != t.id && r.runnable(i)) {
                block_switch(t, true);
            }
            t.stall_until = 0;
            let r = rt();
            r.draw(t);
            r.arm(t);
        }
    }
}
/// Blocks the current thread (it is inside application code called by the library) until every
/// other thread has finished or is blocked in the same way.
pub fn stall_until_others_done() {
    if let Some(t) = current() {
        unsafe {
            t.st = St::StallOthers;
            block_switch(t, true);
            t.st = St::Run;
            let r = rt();
            r.draw(t);
            r.arm(t);
        }
    }
}
pub fn jump_clock(ns: u64) {
    if current().is_some() {
        unsafe { rt().clock_extra += ns };
        stat(S::clock_jumps, 1);
    }
}
/// How far the wall clock is off the time that passes; it may be set back.
static mut WALL_SKEW: i64 = 0;
pub fn skew_wall(ns: i64) {
    if current().is_some() {
        unsafe { WALL_SKEW = WALL_SKEW.saturating_add(ns) };
        stat(S::wall_skews, 1);
    }
}
pub fn tid() -> usize {
    current().map_or(usize::MAX, |t| t.id)
}

fn new_th(id: usize) -> Th {
    Th {
        step: 0, next_stop: u64::MAX, stores: 0, store_stop: u64::MAX, hots: 0, hot_stop: u64::MAX, word: AtomicU32::new(0), id, opno: 0, op_start: 0,
        op_limit: u64::MAX, forced: 0, waits: 0, slice0: 0, st: St::Free, seq: 0, timed_out: false, prio: 0, stall_until: 0,
        workload: false, pthread: 0, replay_at: 0, plan_at: 0, strat_stop: u64::MAX, spur_run: 0, stack_hi: 0,
    }
}
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> i32;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
static mut EXIT_KEY: libc::pthread_key_t = 0;

pub fn init_process() {
    unsafe {
        REAL_CREATE = Some(std::mem::transmute::<*mut libc::c_void, CreateFn>(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr())));
        REAL_JOIN = Some(std::mem::transmute::<*mut libc::c_void, JoinFn>(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr())));
        libc::pthread_key_create(&raw mut EXIT_KEY, Some(thread_exit));
    }
}
struct Start {
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    id: usize,
}
extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let s = std::ptr::read(p as *mut Start);
        libc::free(p);
        let t = &mut rt().th[s.id] as *mut Th;
        baton_wait(&(*t).word);
        (*t).stack_hi = &raw const s as usize;
        CUR.with(|c| c.set(t));
        libc::pthread_setspecific(EXIT_KEY, t as *const _);
        (s.f)(s.arg)
    }
}
/// Runs after the thread's thread-local destructors, still holding the baton.
unsafe extern "C" fn thread_exit(p: *mut libc::c_void) {
    unsafe {
        let t = &mut *(p as *mut Th);
        let r = rt();
        t.st = St::Exited;
        t.opno = u32::MAX;
        t.forced = 0;
        if t.workload {
            r.live -= 1;
        }
        for i in 0..r.n {
            if r.th[i].st == (St::Join { tid: t.id }) {
                r.th[i].st = St::Run;
            }
        }
        if r.live == 0 {
            r.gbase = gstep(r, t);
            t.slice0 = t.step;
            CUR.with(|c| c.set(null_mut()));
            r.main_word.store(1, SeqCst);
            futex_wake_raw(&r.main_word);
            return;
        }
        block_switch(t, false);
        CUR.with(|c| c.set(null_mut()));
    }
}
unsafe fn add_thread(pt: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void, workload: bool) -> i32 {
    unsafe {
        let r = rt();
        if r.n >= MAXTH {
            return libc::EAGAIN;
        }
        let id = r.n;
        r.n += 1;
        let t = &mut r.th[id];
        t.st = St::Run;
        t.workload = workload;
        t.prio = r.rng.below(1 << 30) + (1 << 30);
        if workload {
            r.live += 1;
        }
        stat(if workload { S::threads } else { S::lib_threads }, 1);
        let s = libc::malloc(std::mem::size_of::<Start>()) as *mut Start;
        std::ptr::write(s, Start { f, arg, id });
        let mut tmp: libc::pthread_t = 0;
        let e = REAL_CREATE.unwrap()(&mut tmp, attr, trampoline, s as *mut _);
        if e != 0 {
            t.st = St::Free;
            return e;
        }
        r.th[id].pthread = tmp;
        *pt = tmp;
        0
    }
}
extern "C" fn run_body(p: *mut libc::c_void) -> *mut libc::c_void {
    let b: Box<Box<dyn FnOnce() + Send>> = unsafe { Box::from_raw(p as *mut _) };
    if let Err(m) = crate::ops::guarded(|| b()) {
        // Code of this crate has relative paths.
        match m.rsplit_once(" at ") {
            Some((_, at)) if !at.starts_with("src/") => violation("panic", &format!("a panic left a simulated thread: {m}")),
            _ => harness_error(&format!("the harness panicked on a simulated thread: {m}")),
        }
    }
    null_mut()
}
/// Runs the bodies as simulated threads under `cfg` and returns when all have exited.
pub fn run(cfg: Cfg, bodies: Vec<Box<dyn FnOnce() + Send>>) {
    unsafe {
        let replay = cfg.replay.is_some();
        let mut replays = vec![vec![]; MAXTH];
        let mut forced_replays = vec![vec![]; MAXTH];
        if let Some(d) = &cfg.replay {
            for x in d {
                match x.kind {
                    0 => replays[x.tid as usize].push(*x),
                    _ => forced_replays[x.tid as usize].push(*x),
                }
            }
        }
        let mut plans = vec![vec![]; MAXTH];
        for p in &cfg.plan {
            plans[p.tid as usize].push(p.clone());
        }
        for p in plans.iter_mut() {
            p.sort_by_key(|x| (x.opno, x.at));
        }
        EDGE_TRAP = [0; MAXE];
        if !replay {
            for t in &cfg.traps {
                EDGE_TRAP[t.0 as usize] = 1;
            }
        }
        HOT_ON = !replay && matches!(cfg.strat, Strat::Hot { .. });
        SHADOW_ON = HOT_ON || cfg.shadow > 0;
        alloc::MARK_FREED = cfg.shadow > 0;
        alloc::KEEP_FREED = cfg.shadow > 1;
        alloc::MARK_OWNER = HOT_ON;
        DATA = data_segment();
        if HOT_ON {
            MARK = alloc::mark();
        }
        let r = Box::new(Rt {
            th: std::array::from_fn(new_th),
            n: 0,
            cur: 0,
            gbase: 0,
            rng: Rng::new(mix(cfg.seed, 0x5ced)),
            replay,
            plans,
            replays,
            forced_replays,
            pct_idx: 0,
            pct_low: 1 << 20,
            fair: false,
            cap2: cfg.step_cap.saturating_mul(3),
            slice_guard: if replay { 4_000_000 } else { 1_500_000 },
            switches: 0,
            fseq: 0,
            clock_extra: CLOCK_CARRY,
            rand_ctr: 0,
            main_word: AtomicU32::new(0),
            live: 0,
            traps: cfg.traps.clone(),
            cfg,
        });
        R = Box::into_raw(r);
        let mut pts = vec![];
        for b in bodies {
            let mut pt = 0;
            let arg = Box::into_raw(Box::new(b)) as *mut libc::c_void;
            let mut attr: libc::pthread_attr_t = std::mem::zeroed();
            libc::pthread_attr_init(&mut attr);
            libc::pthread_attr_setstacksize(&mut attr, 2 << 20);
            let e = add_thread(&mut pt, &attr, run_body, arg, true);
            assert!(e == 0, "thread creation failed");
            pts.push(pt);
        }
        let r = rt();
        let first = {
            let mut to = None;
            if r.replay {
                for d in &r.forced_replays[MAXTH - 1] {
                    if (d.to as usize) < r.n {
                        to = Some(d.to as usize);
                    }
                }
            }
            to.or_else(|| r.choose(usize::MAX, 0)).unwrap()
        };
        if r.n > 1 {
            push_dec(Dec { kind: 1, tid: MAXTH as u8 - 1, to: first as u8, pad: 0, opno: 0, at: 0 });
        }
        r.cur = first;
        let x = &mut *(&mut r.th[first] as *mut Th);
        r.draw(x);
        r.arm(x);
        x.word.store(1, SeqCst);
        futex_wake_raw(&x.word);
        baton_wait(&r.main_word);
        for pt in pts {
            REAL_JOIN.unwrap()(pt, null_mut());
        }
        let r = rt();
        stat(S::steps, r.gbase);
        stat(S::sim_us, (r.gbase.wrapping_mul(r.cfg.clock_quantum) + r.clock_extra - CLOCK_CARRY) / 1000);
        CLOCK_CARRY = r.gbase.wrapping_mul(r.cfg.clock_quantum) + r.clock_extra;
        // The state stays allocated (abandoned library threads may still point into it).
        R = null_mut();
    }
}

// ---------------------------------------------------------------- interposed libc functions
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a1: usize, a2: usize, a3: usize, a4: usize, a5: usize, a6: usize) -> i64 {
    unsafe {
        let p = CUR.with(|c| c.get());
        if n == libc::SYS_futex && !p.is_null() {
            return sim_futex(&mut *p, a1, a2 as i32, a3 as u32, a4, a6 as u32);
        }
        if n == libc::SYS_getrandom {
            return getrandom(a1 as *mut u8, a2, 0) as i64;
        }
        ret(raw(n, [a1, a2, a3, a4, a5, a6]))
    }
}
unsafe fn sim_futex(t: &mut Th, addr: usize, op: i32, val: u32, ts: usize, bits: u32) -> i64 {
    unsafe {
        let r = rt();
        let cmd = op & 0x7f & !(libc::FUTEX_CLOCK_REALTIME);
        match cmd {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                stat(S::futex_waits, 1);
                if (*(addr as *const AtomicU32)).load(SeqCst) != val {
                    set_errno(libc::EAGAIN);
                    return -1;
                }
                let wi = t.waits;
                t.waits += 1;
                let mut spur = None;
                if r.replay {
                    for d in &r.forced_replays[t.id] {
                        if d.kind == 2 && d.opno == t.opno && d.at == wi {
                            spur = Some(d.to);
                        }
                    }
                } else if !r.fair && t.spur_run < 3 {
                    if r.cfg.spurious_pm > 0 && r.rng.chance(r.cfg.spurious_pm, 1000) {
                        spur = Some(0);
                    } else if r.cfg.eintr_pm > 0 && r.rng.chance(r.cfg.eintr_pm, 1000) {
                        spur = Some(1);
                    }
                }
                if let Some(k) = spur {
                    t.spur_run += 1;
                    push_dec(Dec { kind: 2, tid: t.id as u8, to: k, pad: 0, opno: t.opno, at: wi });
                    if k == 0 {
                        stat(S::spurious_wakes, 1);
                        return 0;
                    }
                    stat(S::eintr_wakes, 1);
                    set_errno(libc::EINTR);
                    return -1;
                }
                t.spur_run = 0;
                let mut deadline = u64::MAX;
                if ts != 0 {
                    stat(S::timed_waits, 1);
                    let q = &*(ts as *const libc::timespec);
                    let d = (q.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(q.tv_nsec as u64);
                    let now = now_ns();
                    deadline = if cmd == libc::FUTEX_WAIT {
                        now.saturating_add(d)
                    } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                        d
                    } else {
                        d.saturating_add(MONO_OFFSET)
                    };
                    if deadline == u64::MAX {
                        deadline -= 1;
                    }
                }
                stat(S::futex_blocked, 1);
                r.fseq += 1;
                t.seq = r.fseq;
                t.timed_out = false;
                t.st = St::Futex { addr, bits: if cmd == libc::FUTEX_WAIT { !0 } else { bits }, deadline };
                block_switch(t, true);
                if t.timed_out {
                    t.timed_out = false;
                    set_errno(libc::ETIMEDOUT);
                    return -1;
                }
                0
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                stat(S::futex_wakes, 1);
                let mask = if cmd == libc::FUTEX_WAKE { !0 } else { bits };
                let mut n = 0;
                while n < val {
                    let mut best: Option<(u64, usize)> = None;
                    for i in 0..r.n {
                        if let St::Futex { addr: a, bits: b, .. } = r.th[i].st {
                            if a == addr && b & mask != 0 {
                                let k = if r.cfg.lifo { u64::MAX - r.th[i].seq } else { r.th[i].seq };
                                if best.is_none_or(|x| k < x.0) {
                                    best = Some((k, i));
                                }
                            }
                        }
                    }
                    let Some((_, i)) = best else { break };
                    r.th[i].st = St::Run;
                    n += 1;
                }
                n as i64
            }
            _ => ret(raw(libc::SYS_futex, [addr, op as usize, val as usize, ts, 0, bits as usize])),
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(pt: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> i32 {
    unsafe {
        if current().is_some() {
            return add_thread(pt, attr, f, arg, false);
        }
        if REAL_CREATE.is_none() {
            init_process();
        }
        REAL_CREATE.unwrap()(pt, attr, f, arg)
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_join(pt: libc::pthread_t, rv: *mut *mut libc::c_void) -> i32 {
    unsafe {
        if let Some(t) = current() {
            let r = rt();
            // The youngest of that name: the id of a thread that is gone is used again.
            if let Some(i) = (0..r.n).rev().find(|&i| r.th[i].pthread == pt) {
                if r.th[i].st != St::Exited {
                    t.st = St::Join { tid: i };
                    block_switch(t, true);
                }
            }
        }
        if REAL_JOIN.is_none() {
            init_process();
        }
        REAL_JOIN.unwrap()(pt, rv)
    }
}
/// The process id library code sees.
pub static mut PID: i32 = 4711;
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getpid() -> i32 {
    unsafe {
        if current().is_some() { PID } else { raw(libc::SYS_getpid, [0; 6]) as i32 }
    }
}
// The host as library code sees it: with `env_fuzz`, files, users, names and places are others.
#[derive(PartialEq)]
enum Look {
    Real,
    Absent,
    Text(usize),
}
static TEXTS: [&[u8]; 8] = [b"1\n", b"0\n", b"US\n", b"de_DE.UTF-8\n", b"Asia/Tokyo\n", b"", b"DE", b"\x00\xff\x08junk"];
unsafe fn host() -> u64 {
    unsafe { if current().is_some() && rt().cfg.env_fuzz != 0 && !std::thread::panicking() { rt().cfg.env_fuzz } else { 0 } }
}
unsafe fn look(path: *const libc::c_char) -> Look {
    unsafe {
        let mut h = host();
        if h == 0 || path.is_null() {
            return Look::Real;
        }
        let n = std::ffi::CStr::from_ptr(path).to_bytes();
        if [&b"/proc/"[..], b"/sys/", b"/dev/"].iter().any(|p| n.starts_with(p)) || n.ends_with(b".so") || n.windows(4).any(|w| w == b".so.") {
            return Look::Real;
        }
        stat(S::host_reads, 1);
        for b in n {
            h = mix(h, *b as u64);
        }
        match h % 4 {
            0 => Look::Real,
            1 => Look::Absent,
            _ => Look::Text((h >> 8) as usize % TEXTS.len()),
        }
    }
}
unsafe fn opened(path: *const libc::c_char) -> Option<i32> {
    unsafe {
        match look(path) {
            Look::Real => None,
            Look::Absent => {
                set_errno(libc::ENOENT);
                Some(-1)
            }
            Look::Text(i) => {
                let fd = libc::syscall(libc::SYS_memfd_create, c"x".as_ptr(), 0) as i32;
                libc::write(fd, TEXTS[i].as_ptr() as *const _, TEXTS[i].len());
                libc::lseek(fd, 0, libc::SEEK_SET);
                Some(fd)
            }
        }
    }
}
#[allow(invalid_runtime_symbol_definitions)]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    unsafe {
        if let Some(r) = opened(path) {
            return r;
        }
        ret(raw(libc::SYS_openat, [libc::AT_FDCWD as isize as usize, path as usize, flags as usize, mode as usize, 0, 0])) as i32
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    unsafe { open(path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(dir: i32, path: *const libc::c_char, flags: i32, mask: u32, buf: *mut libc::statx) -> i32 {
    unsafe {
        match look(path) {
            Look::Absent => {
                set_errno(libc::ENOENT);
                return -1;
            }
            Look::Text(i) => {
                std::ptr::write_bytes(buf as *mut u8, 0, size_of::<libc::statx>());
                (*buf).stx_mask = 0x7ff;
                (*buf).stx_mode = 0o100644;
                (*buf).stx_nlink = 1;
                (*buf).stx_size = TEXTS[i].len() as u64;
                return 0;
            }
            Look::Real => {}
        }
        ret(raw(libc::SYS_statx, [dir as usize, path as usize, flags as usize, mask as usize, buf as usize, 0])) as i32
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(path: *const libc::c_char, mode: i32) -> i32 {
    unsafe {
        match look(path) {
            Look::Absent => {
                set_errno(libc::ENOENT);
                -1
            }
            Look::Text(_) => 0,
            Look::Real => ret(raw(libc::SYS_faccessat, [libc::AT_FDCWD as isize as usize, path as usize, mode as usize, 0, 0, 0])) as i32,
        }
    }
}
unsafe fn fill(buf: *mut libc::c_char, size: usize, from: &[u8]) -> bool {
    unsafe {
        if buf.is_null() || size <= from.len() {
            return false;
        }
        std::ptr::copy_nonoverlapping(from.as_ptr(), buf as *mut u8, from.len());
        *buf.add(from.len()) = 0;
        true
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(buf: *mut libc::c_char, size: usize) -> *mut libc::c_char {
    unsafe {
        let h = host();
        if h == 0 {
            return if raw(libc::SYS_getcwd, [buf as usize, size, 0, 0, 0, 0]) > 0 { buf } else { null_mut() };
        }
        stat(S::host_reads, 1);
        let d: &[u8] = [&b"/"[..], b"/home/user", b"/var/lib/app", b"/tmp/x y", "/Users/\u{e9}".as_bytes()][(h >> 20) as usize % 5];
        if fill(buf, size, d) { buf } else { set_errno(libc::ERANGE); null_mut() }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn gethostname(buf: *mut libc::c_char, size: usize) -> i32 {
    unsafe {
        let h = host();
        let mut u: libc::utsname = std::mem::zeroed();
        if h == 0 {
            raw(libc::SYS_uname, [&raw mut u as usize, 0, 0, 0, 0, 0]);
            return if fill(buf, size, std::ffi::CStr::from_ptr(u.nodename.as_ptr()).to_bytes()) { 0 } else { -1 };
        }
        stat(S::host_reads, 1);
        let d: &[u8] = [&b"localhost"[..], b"de-node-7", b"us-east-1a", b"", b"0"][(h >> 24) as usize % 5];
        if fill(buf, size, d) { 0 } else { -1 }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getuid() -> u32 {
    unsafe { let h = host(); if h == 0 { raw(libc::SYS_getuid, [0; 6]) as u32 } else { [0, 1000, 65534][(h >> 28) as usize % 3] } }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn geteuid() -> u32 {
    unsafe { let h = host(); if h == 0 { raw(libc::SYS_geteuid, [0; 6]) as u32 } else { [0, 1000, 65534][(h >> 28) as usize % 3] } }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getppid() -> i32 {
    unsafe { let h = host(); if h == 0 { raw(libc::SYS_getppid, [0; 6]) as i32 } else { [0, 1, 4242][(h >> 30) as usize % 3] } }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    unsafe {
        let h = host();
        if h != 0 {
            stat(S::host_reads, 1);
            return (h >> 33) as i32 & 1;
        }
        let mut t: libc::termios = std::mem::zeroed();
        let r = raw(libc::SYS_ioctl, [fd as usize, libc::TCGETS as usize, &raw mut t as usize, 0, 0, 0]);
        (r == 0) as i32
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> i32 {
    unsafe {
        if let Some(t) = current() {
            stat(S::yields, 1);
            let r = rt();
            if (0..r.n).any(|i| i != t.id && r.runnable(i)) {
                r.pct_low -= 1;
                t.prio = r.pct_low;
                block_switch(t, true);
                let r = rt();
                r.draw(t);
                r.arm(t);
            }
            return 0;
        }
        raw(libc::SYS_sched_yield, [0; 6]);
        0
    }
}
const MONO_OFFSET: u64 = 1_600_000_000_000_000_000;
unsafe fn sim_sleep(t: &mut Th, until: u64) {
    unsafe {
        stat(S::sleeps, 1);
        t.st = St::Sleep { until };
        t.timed_out = false;
        block_switch(t, true);
        t.timed_out = false;
        t.st = St::Run;
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    unsafe {
        if let Some(t) = current() {
            let d = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
            sim_sleep(t, now_ns().saturating_add(d));
            return 0;
        }
        ret(raw(libc::SYS_nanosleep, [a as usize, b as usize, 0, 0, 0, 0])) as i32
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(c: i32, flags: i32, a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    unsafe {
        if let Some(t) = current() {
            let d = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
            let until = if flags & libc::TIMER_ABSTIME != 0 {
                if c == libc::CLOCK_REALTIME { d } else { d + MONO_OFFSET }
            } else {
                now_ns().saturating_add(d)
            };
            sim_sleep(t, until);
            return 0;
        }
        -(raw(libc::SYS_clock_nanosleep, [c as usize, flags as usize, a as usize, b as usize, 0, 0])) as i32
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(c: i32, ts: *mut libc::timespec) -> i32 {
    unsafe {
        if let Some(_t) = current() {
            stat(S::clock_reads, 1);
            // Time moves on a little with every look at it.
            rt().clock_extra += 40;
            let mut n = now_ns();
            if c != libc::CLOCK_REALTIME && c != libc::CLOCK_REALTIME_COARSE {
                n = n.saturating_sub(MONO_OFFSET);
            } else {
                n = n.saturating_add_signed(WALL_SKEW);
            }
            (*ts).tv_sec = (n / 1_000_000_000) as i64;
            (*ts).tv_nsec = (n % 1_000_000_000) as i64;
            return 0;
        }
        ret(raw(libc::SYS_clock_gettime, [c as usize, ts as usize, 0, 0, 0, 0])) as i32
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: usize) -> i32 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        clock_gettime(libc::CLOCK_REALTIME, &mut ts);
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
        0
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        clock_gettime(libc::CLOCK_REALTIME, &mut ts);
        if !p.is_null() {
            *p = ts.tv_sec;
        }
        ts.tv_sec
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    unsafe {
        let (seed, ctr) = if current().is_some() {
            let r = rt();
            r.rand_ctr += 1;
            stat(S::random_reads, 1);
            (r.cfg.hash_seed, r.rand_ctr)
        } else {
            SETUP_RAND += 1;
            (SETUP_SEED, SETUP_RAND + (1 << 40))
        };
        for i in 0..len {
            let w = mix(mix(seed, ctr), (i / 8) as u64);
            *buf.add(i) = (w >> (8 * (i % 8))) as u8;
        }
        len as isize
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_getaffinity(_pid: i32, len: usize, set: *mut u8) -> i32 {
    unsafe {
        let n = if current().is_some() {
            stat(S::cpu_reads, 1);
            rt().cfg.cpus
        } else {
            SETUP_CPUS
        };
        for i in 0..len {
            *set.add(i) = 0;
        }
        for c in 0..(n as usize).min(len * 8) {
            *set.add(c / 8) |= 1 << (c % 8);
        }
        0
    }
}
/// Environment variables as seen by library code: with `env_fuzz`, any variable may be set.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    unsafe extern "C" {
        static environ: *const *mut libc::c_char;
    }
    static VALS: [&[u8]; 10] = [b"1\0", b"0\0", b"US\0", b"de_DE.UTF-8\0", b"C\0", b"Asia/Tokyo\0", b"true\0", b"/nonexistent\0", b"\0", b"fr\0"];
    unsafe {
        if current().is_some() && rt().cfg.env_fuzz != 0 {
            stat(S::env_reads, 1);
            let n = std::ffi::CStr::from_ptr(name).to_bytes();
            let mut h = rt().cfg.env_fuzz;
            for b in n {
                h = mix(h, *b as u64);
            }
            if n.starts_with(b"RUST_") || h % 4 == 0 {
                return null_mut();
            }
            return VALS[(h >> 8) as usize % VALS.len()].as_ptr() as *mut libc::c_char;
        }
        let n = std::ffi::CStr::from_ptr(name).to_bytes();
        if environ.is_null() {
            return null_mut();
        }
        let mut p = environ;
        while !(*p).is_null() {
            let e = std::ffi::CStr::from_ptr(*p).to_bytes();
            if e.len() > n.len() && e[n.len()] == b'=' && &e[..n.len()] == n {
                return (*p).add(n.len() + 1);
            }
            p = p.add(1);
        }
        null_mut()
    }
}

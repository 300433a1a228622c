//! Counting global allocator (C09): live blocks and bytes of the process. Every block carries a
//! small header that says which account it belongs to. While tracking is on, blocks requested
//! from inside the regex crates are put on an account of their own: compiled patterns keep
//! lazily built automata of a fixed capacity, and scratch space for up to eight threads, which
//! fill up over a very long time.
//!
//! The memory itself comes from one arena at a fixed address. `mark` draws a line in it: blocks
//! from before the line are never handed out again, so during a simulated run everything below
//! the line existed before the threads started, and which address a block gets decides nothing.
//! A shadow byte per word, cleared when a block is handed out, is what the scheduler uses to
//! see who last wrote a word.
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::{Acquire, Relaxed, Release}};

pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static BYTES: AtomicI64 = AtomicI64::new(0);
pub static REGEX_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static REGEX_BYTES: AtomicI64 = AtomicI64::new(0);
/// Largest single request seen since it was last reset.
pub static LARGEST: AtomicU64 = AtomicU64::new(0);
/// Requests for more than this fail (out of memory).
pub static FAIL_ABOVE: AtomicU64 = AtomicU64::new(u64::MAX);
pub static TRACK: AtomicBool = AtomicBool::new(false);
static mut RANGES: &[(usize, usize)] = &[];

/// Where the code of the regex crates lies in this program, from its own symbol table.
pub fn load_ranges() -> usize {
    let exe = std::fs::read("/proc/self/exe").expect("own program");
    let u = |o: usize, n: usize| (0..n).fold(0u64, |a, i| a | (exe[o + i] as u64) << (8 * i)) as usize;
    let (shoff, shnum) = (u(0x28, 8), u(0x3c, 2));
    extern "C" fn cb(i: *mut libc::dl_phdr_info, _: usize, d: *mut libc::c_void) -> i32 {
        unsafe { *(d as *mut usize) = (*i).dlpi_addr as usize };
        1
    }
    let mut base = 0usize;
    unsafe { libc::dl_iterate_phdr(Some(cb), &raw mut base as *mut libc::c_void) };
    let mut v = vec![];
    for s in 0..shnum {
        let h = shoff + s * 64;
        if u(h + 4, 4) != 2 {
            continue;
        }
        let (off, size, link) = (u(h + 24, 8), u(h + 32, 8), u(h + 40, 4));
        let stroff = u(shoff + link * 64 + 24, 8);
        for k in 0..size / 24 {
            let e = off + k * 24;
            let name = stroff + u(e, 4);
            let end = name + exe[name..].iter().position(|b| *b == 0).unwrap();
            let n = &exe[name..end];
            let has = |x: &[u8]| n.windows(x.len()).any(|w| w == x);
            if has(b"14regex_automata") || has(b"12regex_syntax") || has(b"12aho_corasick") {
                let (a, l) = (u(e + 8, 8), u(e + 16, 8));
                if a != 0 && l != 0 {
                    v.push((base + a, base + a + l));
                }
            }
        }
    }
    v.sort();
    let n = v.len();
    unsafe { RANGES = Vec::leak(v) };
    n
}
#[inline(never)]
fn in_regex() -> bool {
    unsafe {
        let mut fp: usize;
        std::arch::asm!("mov {}, rbp", out(reg) fp);
        let Some(t) = crate::rt::current() else { return false };
        let hi = t.stack_hi;
        let mut lo = &raw const fp as usize;
        for _ in 0..48 {
            if fp <= lo || fp >= hi - 16 || fp % 8 != 0 {
                return false;
            }
            let ret = *((fp + 8) as *const usize);
            let r = &*(&raw const RANGES);
            let i = r.partition_point(|x| x.0 <= ret);
            if i > 0 && ret < r[i - 1].1 {
                return true;
            }
            lo = fp;
            fp = *(fp as *const usize);
        }
        false
    }
}
fn account(tag: u64, blocks: i64, bytes: i64) {
    if tag == 1 {
        REGEX_BLOCKS.fetch_add(blocks, Relaxed);
        REGEX_BYTES.fetch_add(bytes, Relaxed);
    } else {
        BLOCKS.fetch_add(blocks, Relaxed);
        BYTES.fetch_add(bytes, Relaxed);
    }
}

pub const ARENA: usize = 0x2000_0000_0000;
pub const ARENA_LEN: usize = 16 << 30;
pub const SHADOW: usize = 0x2800_0000_0000;
const CLASSES: usize = 34 * 4;
struct Arena {
    next: usize,
    mark: usize,
    free: [usize; CLASSES],
}
static mut AR: Arena = Arena { next: 0, mark: 0, free: [0; CLASSES] };
static LOCK: AtomicBool = AtomicBool::new(false);
/// Size class: four per power of two, from 32 bytes.
fn class(n: usize) -> (usize, usize) {
    let n = n.max(32);
    let b = (n - 1).ilog2() as usize;
    if b < 5 {
        return (0, 32);
    }
    let q = 1usize << (b - 2);
    let k = (n - (1 << b)).div_ceil(q);
    (1 + (b - 5) * 4 + k - 1, (1 << b) + k * q)
}
unsafe fn map(at: usize, len: usize) {
    unsafe {
        let p = libc::mmap(at as *mut libc::c_void, len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
        if p as usize != at {
            libc::abort();
        }
    }
}
unsafe fn get(size: usize) -> (*mut u8, bool) {
    unsafe {
        while LOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let a = &mut *(&raw mut AR);
        if a.next == 0 {
            map(ARENA, ARENA_LEN);
            map(SHADOW, ARENA_LEN / 8);
            a.next = ARENA;
        }
        let (c, n) = class(size);
        let mut p = a.free[c];
        let fresh = p == 0;
        if fresh {
            p = a.next;
            if p + n > ARENA + ARENA_LEN {
                LOCK.store(false, Release);
                return (std::ptr::null_mut(), false);
            }
            a.next += n.next_multiple_of(16);
        } else {
            a.free[c] = *(p as *const usize);
            std::ptr::write_bytes((SHADOW + (p - ARENA) / 8) as *mut u8, 0, n / 8);
        }
        if MARK_OWNER {
            if let Some(t) = crate::rt::current() {
                std::ptr::write_bytes((SHADOW + (p - ARENA) / 8) as *mut u8, t.id as u8 + 1, n / 8);
            }
        }
        LOCK.store(false, Release);
        (p as *mut u8, fresh)
    }
}
unsafe fn put(p: usize, size: usize) {
    unsafe {
        while LOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let a = &mut *(&raw mut AR);
        // What is freed is gone.
        std::ptr::write_bytes(p as *mut u8, 0xde, size);
        if MARK_FREED {
            std::ptr::write_bytes((SHADOW + (p - ARENA) / 8) as *mut u8, FREED, size / 8);
        }
        if p >= a.mark && !(KEEP_FREED && a.next - a.mark < 256 << 20) {
            let (c, _) = class(size);
            *(p as *mut usize) = a.free[c];
            a.free[c] = p;
        }
        LOCK.store(false, Release);
    }
}
/// Where the shared instance lives, and where every run starts allocating: lock tables hash
/// addresses, so addresses must not depend on what this process did before.
const BASE_AT: usize = ARENA + (4 << 30);
const FULL_AT: usize = ARENA + (5 << 30);
const RUN_AT: usize = ARENA + (6 << 30);
pub fn at_base<T>(f: impl FnOnce() -> T) -> T {
    at(BASE_AT, FULL_AT, f)
}
pub fn at_full<T>(f: impl FnOnce() -> T) -> T {
    at(FULL_AT, RUN_AT, f)
}
fn at<T>(from: usize, to: usize, f: impl FnOnce() -> T) -> T {
    unsafe {
        let a = &mut *(&raw mut AR);
        let (next, free) = (a.next, a.free);
        assert!(next < BASE_AT, "the arena is full");
        a.next = from;
        a.free = [0; CLASSES];
        let r = f();
        assert!(a.next < to, "the arena is full");
        a.next = next;
        a.free = free;
        r
    }
}
pub fn at_run() {
    unsafe {
        let a = &mut *(&raw mut AR);
        a.next = RUN_AT;
        a.free = [0; CLASSES];
        a.mark = RUN_AT;
    }
}
/// Draws the line and returns it.
pub fn mark() -> usize {
    unsafe {
        let a = &mut *(&raw mut AR);
        a.free = [0; CLASSES];
        a.mark = a.next;
        a.mark
    }
}
/// Freed memory is marked in the shadow.
pub static mut MARK_FREED: bool = false;
/// New memory belongs to the thread that asked for it.
pub static mut MARK_OWNER: bool = false;
/// Freed memory is not used again.
pub static mut KEEP_FREED: bool = false;
pub const FREED: u8 = 0xff;
pub struct Counting;
/// Raw size of the block behind a layout.
fn raw_size(l: Layout) -> usize {
    if l.align() > 16 { l.size() + 16 + l.align() } else { l.size() + 16 }
}
impl Counting {
    /// The 16 bytes before the block hold the address of the raw block and the account.
    unsafe fn take(l: Layout, zero: bool) -> *mut u8 {
        unsafe {
            if l.size() as u64 > FAIL_ABOVE.load(Relaxed) {
                return std::ptr::null_mut();
            }
            let (p, fresh) = get(raw_size(l));
            if p.is_null() {
                return p;
            }
            let q = (p as usize + 16).next_multiple_of(l.align().max(16)) as *mut u8;
            if zero && !fresh {
                std::ptr::write_bytes(q, 0, l.size());
            }
            let tag = (TRACK.load(Relaxed) && in_regex()) as u64;
            account(tag, 1, l.size() as i64);
            LARGEST.fetch_max(l.size() as u64, Relaxed);
            *(q.sub(16) as *mut usize) = p as usize;
            *(q.sub(8) as *mut u64) = tag;
            q
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { Self::take(l, false) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe { Self::take(l, true) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            let tag = *(p.sub(8) as *const u64);
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let same = class(raw_size(l)).0 == class(raw_size(nl)).0;
            let moves = tag == 0 && TRACK.load(Relaxed) && in_regex();
            if same {
                if moves {
                    account(0, -1, -(l.size() as i64));
                    account(1, 1, n as i64);
                    *(p.sub(8) as *mut u64) = 1;
                } else {
                    account(tag, 0, n as i64 - l.size() as i64);
                }
                LARGEST.fetch_max(n as u64, Relaxed);
                return p;
            }
            let q = Self::take(nl, false);
            if q.is_null() {
                return q;
            }
            // `take` has counted the new block; a block stays on its account unless the regex
            // crates are the ones that grow it.
            let got = *(q.sub(8) as *const u64);
            let want = if moves { 1 } else { tag };
            if got != want {
                account(got, -1, -(n as i64));
                account(want, 1, n as i64);
                *(q.sub(8) as *mut u64) = want;
            }
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            q
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            let tag = *(p.sub(8) as *const u64);
            account(tag, -1, -(l.size() as i64));
            put(*(p.sub(16) as *const usize), raw_size(l));
        }
    }
}
#[global_allocator]
static A: Counting = Counting;

//! The simulated machine: everything nondeterministic or fallible that the
//! library meets is decided here.
//!
//! * allocator    - client calls allocate from an arena at a fixed address whose
//!                  layout is a function of the plan; any allocation can be made to fail
//! * scheduler    - client threads are real OS threads that run one at a time; the
//!                  baton moves only at yield points (basic blocks of the instrumented
//!                  library, allocations, blocking system calls), and only as planned
//! * randomness   - `getrandom` (hash seeds) is answered from the plan
//! * clock, futex - answered by the simulator while a client is inside the library
//! * processes    - `in_fork` runs a closure in a pristine copy of the process
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

pub const MAXC: usize = 8;
pub const NONE: u32 = u32::MAX;

// ------------------------------------------------------------------ counters
/// Counters live in shared memory so that forked runs add to the worker's totals.
pub const CNT_NAMES: &[&str] = &[
    "steps", "forks", "ops", "context_switches", "preemptions_inside_calls", "alloc_failures",
    "callback_panics", "sink_panics", "short_writes", "sink_interrupts", "sink_transient_errors",
    "sink_permanent_errors", "sink_disk_full", "fmt_sink_errors", "thread_restarts",
    "process_restarts", "hash_seed_draws", "duplicate_deliveries", "reordered_deliveries",
    "interrupted_then_retried", "futex_waits", "clock_reads", "conclusive_evaluations",
    "inconclusive_evaluations", "real_sum_merges", "big_integers", "lookups_hit", "lookups_miss",
    "verdict_true", "verdict_false", "exact_checks", "pow_expansions", "nested_calls", "rebuilds",
    "lost_deliveries", "zero_writes", "addr_layouts_desc", "fault_not_reached", "address_reuse_runs",
    "clock_jumps", "stranger_probes", "stalled_runs", "reentrant_sinks",
];
pub fn cnt_idx(name: &str) -> usize {
    CNT_NAMES.iter().position(|n| *n == name).unwrap_or_else(|| panic!("counter {}", name))
}
pub const NCNT: usize = 64;

#[repr(C)]
pub struct Shared {
    pub cnt: [AtomicU64; NCNT],
    /// what a run was doing, for reports about runs that die
    pub at_client: AtomicU32,
    pub at_step: AtomicU32,
    pub cov: [std::sync::atomic::AtomicU8; 1 << 16],
    pub len: [AtomicU64; 4],
}
const OUTSZ: usize = 8 << 20;
static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut OUT: [*mut u8; 4] = [std::ptr::null_mut(); 4];
static mut LEVEL: usize = 0;

pub fn shared() -> &'static Shared {
    unsafe { &*SHARED }
}
pub fn count(i: usize, n: u64) {
    shared().cnt[i].fetch_add(n, Relaxed);
}
#[macro_export]
macro_rules! cnt {
    ($n:expr) => {
        $crate::rt::count($crate::rt::cnt_idx($n), 1)
    };
    ($n:expr, $k:expr) => {
        $crate::rt::count($crate::rt::cnt_idx($n), $k as u64)
    };
}

// ------------------------------------------------------------------ libc
extern "C" {
    fn fork() -> i32;
    fn _exit(code: i32) -> !;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn alarm(s: u32) -> u32;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn __errno_location() -> *mut i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn getppid() -> i32;
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const u8, flags: i32) -> i32;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
}

unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
const SYS_FUTEX: i64 = 202;
const SYS_CLOCK_GETTIME: i64 = 228;

unsafe fn kfutex_wait(a: &AtomicU32, v: u32) {
    raw6(SYS_FUTEX, a as *const _ as i64, 128, v as i64, 0, 0, 0);
}
unsafe fn kfutex_wake(a: &AtomicU32) {
    raw6(SYS_FUTEX, a as *const _ as i64, 129, i32::MAX as i64, 0, 0, 0);
}

// ------------------------------------------------------------------ per-thread state
thread_local! {
    static CUT: Cell<bool> = const { Cell::new(false) };
    static TID: Cell<u32> = const { Cell::new(NONE) };
    static KEY: Cell<u64> = const { Cell::new(0x5eed) };
    static MSG: Cell<Option<Box<String>>> = const { Cell::new(None) };
}
#[inline]
fn in_cut() -> bool {
    CUT.with(|c| c.get())
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut s);
    splitmix(&mut s)
}

/// Randomness seam: std asks for the keys of `RandomState` through this symbol.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    KEY.with(|k| {
        let mut s = k.get();
        for i in 0..n {
            *buf.add(i) = (splitmix(&mut s) >> 24) as u8;
        }
        k.set(s);
    });
    if !SHARED.is_null() && in_cut() {
        count(16, 1);
    }
    n as isize
}
pub fn set_keys(seed: u64) {
    KEY.with(|k| k.set(seed));
}

/// Blocking seam: std locks park through `syscall(SYS_futex, ..)`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let op = b & 0x7f;
    // a client may also run into a lock of the library when the simulator looks at a result
    if n == SYS_FUTEX && (op == 0 || op == 9) && TID.with(|t| t.get()) != NONE {
        let mut err = 11;
        if AtomicU32::from_ptr(a as *mut u32).load(SeqCst) as i64 == (c as u32) as i64 {
            if !rt().precise {
                // as if woken for no reason
                blocked();
            } else {
                let deadline = if d == 0 {
                    None
                } else {
                    let ts = *(d as *const [i64; 2]);
                    Some(ts[0] as i128 * 1_000_000_000 + ts[1] as i128 + if op == 0 { rt().clock_last + rt().clock_base as i128 } else { 0 })
                };
                if wait_for(a as usize, deadline) {
                    return 0;
                }
                err = 110;
            }
        }
        *__errno_location() = err;
        return -1;
    }
    if n == SYS_FUTEX && (op == 1 || op == 10) && TID.with(|t| t.get()) != NONE {
        wake_up(a as usize, (c as i32).max(0) as usize);
    }
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// Clock seam: simulated time is a function of the step count. The default machine does a
/// step in 1 us; a run may be on one where time stands still, crawls or races, where the
/// process is suspended for a while between two readings, or where the wall clock is set.
pub const CLOCK_DEFAULT: u64 = 1_600_000_000_000_000_000;
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if in_cut() {
        count(21, 1);
        let kind = if RT.clock_base == CLOCK_DEFAULT { 3 } else { mix(RT.clock_base, 0xc10c) % 10 };
        let rate: i128 = [0, 1, 1000, 1000, 1_000_000, 1_000_000_000, 1000, 1000, 1000, 50_000][kind as usize];
        RT.clock_reads += 1;
        let draw = mix(RT.clock_base, 0x1000 + RT.clock_reads);
        let jump: i128 = match kind {
            6 if draw % 4 == 0 => 20_000_000,
            7 if draw % 4 == 0 => 5_000_000_000,
            8 if draw % 16 == 0 => 86_400_000_000_000,
            9 if draw % 3 == 0 => 1 << (draw >> 8) % 44,
            _ => 0,
        };
        if jump != 0 {
            count(39, 1);
            RT.clock_off += jump;
            // the wall clock is corrected, either way
            RT.wall_off += if draw & 32 == 0 { jump } else { -2 * jump };
        }
        // steps count from the start of a call sequence; a machine never goes back
        let mono = (RT.step as i128 * rate + RT.clock_off).max(RT.clock_last);
        RT.clock_last = mono;
        let wall = matches!(id, 0 | 5 | 8 | 11);
        let ns = RT.clock_base as i128 + if wall { RT.step as i128 * rate + RT.wall_off } else { mono };
        let ns = ns.max(0);
        (*ts)[0] = (ns / 1_000_000_000) as i64;
        (*ts)[1] = (ns % 1_000_000_000) as i64;
        return 0;
    }
    raw6(SYS_CLOCK_GETTIME, id as i64, ts as i64, 0, 0, 0, 0) as i32
}
/// Puts the process on a machine whose clock behaves as `seed` says (0: the default one).
pub fn set_clock(seed: u64) {
    let r = rt();
    r.clock_base = if seed == 0 { CLOCK_DEFAULT } else { CLOCK_DEFAULT + 1 + seed % 1_000_000_000_000 };
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if TID.with(|t| t.get()) != NONE {
        blocked();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(_a: *const [i64; 2], _b: *mut [i64; 2]) -> i32 {
    if TID.with(|t| t.get()) != NONE {
        blocked();
        return 0;
    }
    let r = raw6(35, _a as i64, _b as i64, 0, 0, 0, 0);
    if r < 0 { *__errno_location() = -r as i32; -1 } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: i32, _f: i32, _a: *const [i64; 2], _b: *mut [i64; 2]) -> i32 {
    if TID.with(|t| t.get()) != NONE {
        blocked();
        return 0;
    }
    -raw6(230, _c as i64, _f as i64, _a as i64, _b as i64, 0, 0) as i32
}

/// Identity of the process and size of the machine, as the library would see them.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if in_cut() && RT.layout != 0 {
        return 2 + (mix(RT.layout, 0x91d) % 4_000_000) as i32;
    }
    raw6(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, mask: *mut u8) -> i32 {
    if in_cut() {
        let cpus = if RT.layout == 0 { 8 } else { [1, 2, 4, 8, 64][(mix(RT.layout, 0xc9) % 5) as usize] };
        for i in 0..n {
            *mask.add(i) = if i * 8 + 8 <= cpus { 255 } else if i * 8 < cpus { (1 << (cpus - i * 8)) - 1 } else { 0 };
        }
        return 0;
    }
    let r = raw6(204, pid as i64, n as i64, mask as i64, 0, 0, 0);
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    for i in r as usize..n {
        *mask.add(i) = 0;
    }
    0
}
/// Runs `f` that many frames further down the stack.
#[inline(never)]
fn further_down(n: u64, f: &mut dyn FnMut()) {
    if n == 0 {
        return f();
    }
    let pad = [n as u8; 1072];
    std::hint::black_box(&pad);
    further_down(n - 1, f);
    std::hint::black_box(&pad);
}
/// Addresses of code and stacks are the same in every process, unless the kernel forbids it.
fn fixed_addresses() {
    extern "C" {
        fn personality(p: u64) -> i32;
        fn execv(path: *const u8, argv: *const *const u8) -> i32;
    }
    unsafe {
        let now = personality(0xffff_ffff);
        if now < 0 || now & 0x004_0000 != 0 || personality(now as u64 | 0x004_0000) < 0 {
            return;
        }
        let a: Vec<Vec<u8>> = std::env::args().map(|x| [x.as_bytes(), b"\0"].concat()).collect();
        let mut v: Vec<*const u8> = a.iter().map(|x| x.as_ptr()).collect();
        v.push(std::ptr::null());
        execv(b"/proc/self/exe\0".as_ptr(), v.as_ptr());
    }
}

// ------------------------------------------------------------------ runtime state
/// Only one thread of a run is ever active, so plain statics are enough.
pub struct Rt {
    pub step: u64,
    pub budget: u64,
    pub opstep: [u64; MAXC + 1],
    pub next_pre: [u64; MAXC + 1],
    pre: [[(u64, u32); 8]; MAXC + 1],
    pre_n: [usize; MAXC + 1],
    pre_i: [usize; MAXC + 1],
    pub allocs: [u64; MAXC + 1],
    pub fail_at: [u64; MAXC + 1],
    pub fired: [bool; MAXC + 1],
    n: usize,
    done: [bool; MAXC],
    waits: [usize; MAXC],
    deadline: [Option<i128>; MAXC],
    wait_seq: [u64; MAXC],
    timed_out: [bool; MAXC],
    wait_no: u64,
    precise: bool,
    helpers: bool,
    pub sig: u64,
    pub path: u64,
    last_edge: u32,
    peek: u64,
    pub clock_base: u64,
    pub layout: u64,
    clock_reads: u64,
    clock_off: i128,
    wall_off: i128,
    clock_last: i128,
    pub live: i64,
    pub live_n: i64,
}
pub static mut RT: Rt = Rt {
    step: 0,
    budget: u64::MAX,
    opstep: [0; MAXC + 1],
    next_pre: [u64::MAX; MAXC + 1],
    pre: [[(0, 0); 8]; MAXC + 1],
    pre_n: [0; MAXC + 1],
    pre_i: [0; MAXC + 1],
    allocs: [0; MAXC + 1],
    fail_at: [u64::MAX; MAXC + 1],
    fired: [false; MAXC + 1],
    n: 0,
    done: [true; MAXC],
    waits: [0; MAXC],
    deadline: [None; MAXC],
    wait_seq: [0; MAXC],
    timed_out: [false; MAXC],
    wait_no: 0,
    precise: false,
    helpers: false,
    sig: 0,
    path: 0,
    last_edge: 0,
    peek: 0,
    clock_base: CLOCK_DEFAULT,
    layout: 0,
    clock_reads: 0,
    clock_off: 0,
    wall_off: 0,
    clock_last: 0,
    live: 0,
    live_n: 0,
};
#[allow(static_mut_refs)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *(&raw mut RT) }
}

pub const EXIT_OK: i32 = 0;
pub const EXIT_BUDGET: i32 = 41;
pub const EXIT_DEADLOCK: i32 = 42;
pub const EXIT_HARNESS: i32 = 43;
pub const EXIT_STALLED: i32 = 44;

fn die(code: i32) -> ! {
    unsafe {
        let r = rt();
        count(0, r.step);
        _exit(code)
    }
}

#[inline]
fn slot() -> usize {
    let t = TID.with(|t| t.get());
    if t == NONE { MAXC } else { t as usize }
}

#[inline]
pub fn yield_point() {
    if !in_cut() {
        // the simulator looks at a result; only a spinning lock can make that long
        if TID.with(|t| t.get()) != NONE {
            let r = rt();
            r.peek += 1;
            if r.peek >= SLICE {
                r.peek = 0;
                blocked();
            }
        }
        return;
    }
    let r = rt();
    let t = slot();
    r.step += 1;
    r.opstep[t] += 1;
    if r.opstep[t] >= r.next_pre[t] {
        preempt(t);
    }
    if r.step > r.budget {
        die(EXIT_BUDGET);
    }
}

/// The longest a client computes inside one call before another one gets a turn.
const SLICE: u64 = 200_000;

#[cold]
fn preempt(t: usize) {
    let r = rt();
    let planned = r.pre_i[t] < r.pre_n[t] && r.pre[t][r.pre_i[t]].0 <= r.opstep[t];
    let mut choice = 0;
    if planned {
        choice = r.pre[t][r.pre_i[t]].1 as usize;
        r.pre_i[t] += 1;
    }
    let slice = r.opstep[t] / SLICE * SLICE + SLICE;
    r.next_pre[t] = if r.pre_i[t] < r.pre_n[t] { r.pre[t][r.pre_i[t]].0.min(slice) } else { slice };
    if t == MAXC {
        return;
    }
    // the others that still run, the next one first
    let mut k = 0;
    let mut list = [0usize; MAXC];
    for d in 1..r.n {
        let i = (t + d) % r.n;
        if r.runs(i) {
            list[k] = i;
            k += 1;
        }
    }
    if k == 0 {
        return;
    }
    if planned {
        list[..k].sort();
        count(4, 1);
    }
    switch_to(t, list[choice % k]);
}

/// The library made a thread of its own: from now on clients look again and again.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut u64, attr: *const c_void, f: *const c_void, arg: *mut c_void) -> i32 {
    type Create = unsafe extern "C" fn(*mut u64, *const c_void, *const c_void, *mut c_void) -> i32;
    extern "C" {
        fn dlsym(h: *const c_void, name: *const u8) -> *const c_void;
    }
    static REAL: AtomicU64 = AtomicU64::new(0);
    if REAL.load(SeqCst) == 0 {
        REAL.store(dlsym(usize::MAX as *const c_void, b"pthread_create\0".as_ptr()) as u64, SeqCst);
    }
    if TID.with(|t| t.get()) != NONE {
        let r = rt();
        r.helpers = true;
        r.precise = false;
        r.waits = [0; MAXC];
    }
    let real: Create = std::mem::transmute(REAL.load(SeqCst) as usize);
    real(t, attr, f, arg)
}
/// Waits at a futex until somebody wakes it up; false if the time is over first.
fn wait_for(addr: usize, deadline: Option<i128>) -> bool {
    count(20, 1);
    let r = rt();
    let t = slot();
    r.step += 1000;
    r.waits[t] = addr;
    r.deadline[t] = deadline;
    r.wait_no += 1;
    r.wait_seq[t] = r.wait_no;
    r.timed_out[t] = false;
    let next = (1..r.n).map(|d| (t + d) % r.n).find(|i| r.runs(*i)).or_else(time_passes);
    match next {
        None => die(EXIT_DEADLOCK),
        Some(i) if i == t => {}
        Some(i) => switch_to(t, i),
    }
    !r.timed_out[t]
}
/// Everybody waits: the first one who gave a time goes on.
fn time_passes() -> Option<usize> {
    let r = rt();
    let i = (0..r.n).filter(|i| r.waits[*i] != 0 && r.deadline[*i].is_some()).min_by_key(|i| r.deadline[*i])?;
    r.waits[i] = 0;
    r.timed_out[i] = true;
    r.clock_last = r.clock_last.max(r.deadline[i].unwrap_or(0) - r.clock_base as i128);
    Some(i)
}
fn wake_up(addr: usize, n: usize) {
    let r = rt();
    for _ in 0..n {
        match (0..r.n).filter(|i| r.waits[*i] == addr).min_by_key(|i| r.wait_seq[*i]) {
            None => return,
            Some(i) => r.waits[i] = 0,
        }
    }
}
impl Rt {
    fn runs(&self, i: usize) -> bool {
        !self.done[i] && self.waits[i] == 0
    }
}

/// A client would block: let the next unfinished client run.
fn blocked() {
    count(20, 1);
    let r = rt();
    let t = slot();
    r.step += 1000;
    if r.step > r.budget {
        die(EXIT_DEADLOCK);
    }
    if t == MAXC {
        die(EXIT_DEADLOCK);
    }
    if let Some(i) = (1..r.n).map(|d| (t + d) % r.n).find(|i| r.runs(*i)).or_else(time_passes) {
        switch_to(t, i);
        return;
    }
    if r.helpers && r.wait_no < 20_000 {
        // a thread the simulator does not know may still be at work
        r.wait_no += 1;
        unsafe { raw6(35, [0i64, 1_000_000].as_ptr() as i64, 0, 0, 0, 0, 0) };
        return;
    }
    // nobody else left: if this repeats the budget ends it as a deadlock
    r.step += 1_000_000;
    if r.step > r.budget {
        die(EXIT_DEADLOCK);
    }
}

// baton: index of the running client, or COORD
const COORD: u32 = 1000;
static BATON: AtomicU32 = AtomicU32::new(COORD);

fn pass(to: u32) {
    BATON.store(to, SeqCst);
    unsafe { kfutex_wake(&BATON) }
}
fn await_baton(me: u32) {
    loop {
        let v = BATON.load(SeqCst);
        if v == me {
            return;
        }
        unsafe { kfutex_wait(&BATON, v) }
    }
}
fn switch_to(me: usize, to: usize) {
    let r = rt();
    count(3, 1);
    r.sig = mix(r.sig, ((me as u64) << 40) ^ ((to as u64) << 32) ^ r.last_edge as u64);
    pass(to as u32);
    await_baton(me as u32);
}

/// Runs `lives[c]` consecutive OS threads for every client `c`, one thread at a time.
/// `body(client, life)` does the client's work. `sched` decides who starts and who
/// continues when a client ends.
pub fn run_clients(lives: &[usize], sched: u64, keyseed: u64, body: &(dyn Fn(usize, usize) + Sync)) {
    let r = rt();
    let n = lives.len();
    assert!(n <= MAXC);
    r.n = n;
    for i in 0..n {
        r.done[i] = false;
    }
    r.waits = [0; MAXC];
    // half of the machines wake a waiting thread only when told to
    r.precise = !r.helpers && mix(sched, 0xf07e) & 1 == 1;
    let mut s = sched;
    let mut life = vec![0usize; n];
    std::thread::scope(|sc| {
        let mut handles: Vec<Option<std::thread::ScopedJoinHandle<'_, ()>>> = (0..n).map(|_| None).collect();
        let spawn = |c: usize, l: usize| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    await_baton(c as u32);
                    TID.with(|t| t.set(c as u32));
                    set_keys(mix(mix(keyseed, c as u64 + 1), l as u64));
                    let layout = rt().layout;
                    let depth = if layout == 0 { 0 } else { mix(mix(layout, 0x57ac), ((c as u64) << 8) + l as u64) % 64 };
                    further_down(depth, &mut || body(c, l));
                    TID.with(|t| t.set(NONE));
                    rt().done[c] = true;
                    pass(COORD);
                })
                .expect("spawn")
        };
        for c in 0..n {
            handles[c] = Some(spawn(c, 0));
        }
        loop {
            let mut live: Vec<usize> = (0..n).filter(|c| rt().runs(*c)).collect();
            if live.is_empty() {
                if (0..n).all(|c| rt().done[c]) {
                    break;
                }
                match time_passes() {
                    Some(c) => live.push(c),
                    None => die(EXIT_DEADLOCK),
                }
            }
            let c = live[(splitmix(&mut s) % live.len() as u64) as usize];
            pass(c as u32);
            await_baton(COORD);
            // some client finished a life
            for c in 0..n {
                if rt().done[c] {
                    if let Some(h) = handles[c].take() {
                        h.join().expect("client body panicked");
                        life[c] += 1;
                        if life[c] < lives[c] {
                            count(14, 1);
                            rt().done[c] = false;
                            handles[c] = Some(spawn(c, life[c]));
                        }
                    }
                }
            }
        }
    });
    count(0, std::mem::take(&mut rt().step));
}

// ------------------------------------------------------------------ calls into the library
pub enum Called<T> {
    Ret(T),
    Panic(String),
}
pub struct CallPlan<'a> {
    /// (step within the call, choice among the other clients)
    pub pre: &'a [(u64, u32)],
    /// index of the allocation that fails
    pub fail_at: Option<u64>,
}
pub const CALM: CallPlan<'static> = CallPlan { pre: &[], fail_at: None };

pub struct SimOom;
/// Payload of a panic that gives a run up because the machine made no progress with it.
pub struct SimStalled;

/// Runs `f` as code under test.
pub fn call<T>(p: &CallPlan, f: impl FnOnce() -> T) -> Called<T> {
    let r = rt();
    let t = slot();
    r.opstep[t] = 0;
    r.allocs[t] = 0;
    r.fired[t] = false;
    r.fail_at[t] = p.fail_at.unwrap_or(u64::MAX);
    r.pre_n[t] = p.pre.len().min(8);
    r.pre_i[t] = 0;
    for i in 0..r.pre_n[t] {
        r.pre[t][i] = p.pre[i];
    }
    r.next_pre[t] = if r.pre_n[t] > 0 { r.pre[t][0].0.min(SLICE) } else { SLICE };
    count(2, 1);
    let prev = CUT.with(|c| c.replace(true));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CUT.with(|c| c.set(prev));
    let r = rt();
    r.fail_at[t] = u64::MAX;
    r.next_pre[t] = u64::MAX;
    match res {
        Ok(v) => Called::Ret(v),
        Err(p) => {
            drop(p);
            Called::Panic(MSG.with(|m| m.take()).map(|b| *b).unwrap_or_default())
        }
    }
}
/// Harness code running inside a call (a sink, a closure): not subject to faults or yields.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let prev = CUT.with(|c| c.replace(false));
    let v = f();
    CUT.with(|c| c.set(prev));
    v
}
pub fn steps_of_call() -> u64 {
    rt().opstep[slot()]
}
pub fn allocs_of_call() -> u64 {
    rt().allocs[slot()]
}
pub fn alloc_fault_fired() -> bool {
    rt().fired[slot()]
}

// ------------------------------------------------------------------ allocator
pub struct SimAlloc;
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

const ARENA_BASE: usize = 0x5100_0000_0000;
const ARENA_SIZE: usize = 16 << 30;
struct Arena {
    lo: usize,
    hi: usize,
    desc: bool,
    reuse: u8,
    free: [usize; 128],
    tail: [usize; 128],
}
static mut ARENA: Arena = Arena { lo: 0, hi: 0, desc: false, reuse: 0, free: [0; 128], tail: [0; 128] };
static ARENA_LOCK: AtomicU32 = AtomicU32::new(0);

fn class(size: usize) -> (usize, usize) {
    if size <= 1024 {
        let c = (size.max(1) + 15) / 16;
        (c, c * 16)
    } else {
        let p = size.next_power_of_two();
        (64 + p.trailing_zeros() as usize, p)
    }
}
#[allow(static_mut_refs)]
unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    while ARENA_LOCK.swap(1, Acquire) == 1 {}
    let a = &mut ARENA;
    let (c, sz) = class(l.size());
    let p;
    if a.free[c] != 0 {
        p = a.free[c];
        a.free[c] = *(p as *const usize);
        if a.free[c] == 0 {
            a.tail[c] = 0;
        }
    } else if a.desc {
        if a.hi - a.lo < sz {
            p = 0;
        } else {
            a.hi -= sz;
            p = a.hi;
        }
    } else if a.hi - a.lo < sz {
        p = 0;
    } else {
        p = a.lo;
        a.lo += sz;
    }
    if p != 0 {
        let r = rt();
        r.live += l.size() as i64;
        r.live_n += 1;
    }
    ARENA_LOCK.store(0, Release);
    p as *mut u8
}
#[allow(static_mut_refs)]
unsafe fn arena_free(p: *mut u8, l: Layout) {
    while ARENA_LOCK.swap(1, Acquire) == 1 {}
    let r = rt();
    r.live -= l.size() as i64;
    r.live_n -= 1;
    let a = &mut ARENA;
    let (c, _) = class(l.size());
    match a.reuse {
        0 => {
            *(p as *mut usize) = a.free[c];
            if a.free[c] == 0 {
                a.tail[c] = p as usize;
            }
            a.free[c] = p as usize;
        }
        1 => {
            // first in, first out
            *(p as *mut usize) = 0;
            if a.free[c] == 0 {
                a.free[c] = p as usize;
            } else {
                *(a.tail[c] as *mut usize) = p as usize;
            }
            a.tail[c] = p as usize;
        }
        _ => {
            // never reused
        }
    }
    ARENA_LOCK.store(0, Release);
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if in_cut() && l.align() <= 16 {
            let r = rt();
            let t = slot();
            let k = r.allocs[t];
            r.allocs[t] += 1;
            if k == r.fail_at[t] {
                r.fail_at[t] = u64::MAX;
                r.fired[t] = true;
                count(5, 1);
                return std::ptr::null_mut();
            }
            yield_point();
            return arena_alloc(l);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a >= ARENA_BASE && a < ARENA_BASE + ARENA_SIZE {
            yield_point();
            arena_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
}
/// Chooses the address layout for everything the library allocates from now on.
#[allow(static_mut_refs)]
pub fn set_layout(seed: u64) {
    rt().layout = seed;
    unsafe {
        let mut s = seed;
        let a = splitmix(&mut s);
        ARENA.desc = seed != 0 && a & 1 == 1;
        ARENA.reuse = if seed == 0 { 0 } else { ((a >> 1) % 3) as u8 };
        let off = if seed == 0 { 0 } else { ((a >> 8) & 0xffff) as usize * 16 };
        ARENA.lo = ARENA_BASE + off;
        ARENA.hi = ARENA_BASE + ARENA_SIZE - off;
        if ARENA.desc {
            cnt!("addr_layouts_desc");
        }
        if ARENA.reuse != 2 {
            cnt!("address_reuse_runs");
        }
    }
}

// ------------------------------------------------------------------ coverage / yield hook
static GUARDS: AtomicU64 = AtomicU64::new(0);
pub fn n_guards() -> u64 {
    GUARDS.load(Relaxed)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    if a == b || *a != 0 {
        return;
    }
    while p < b {
        let n = GUARDS.fetch_add(1, Relaxed) + 1;
        *p = n as u32;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !in_cut() {
        return;
    }
    let e = *g;
    shared().cov[e as usize & 0xffff].store(1, Relaxed);
    let r = rt();
    r.last_edge = e;
    r.path = (r.path ^ e as u64).wrapping_mul(0x100000001b3);
    yield_point();
}

// ------------------------------------------------------------------ processes
#[derive(Debug, Clone, PartialEq)]
pub enum Exit {
    Ok,
    Budget,
    Deadlock,
    Harness,
    Alarm,
    /// used no processor time for long: says something about this machine, not about the library
    Stalled,
    Signal(i32),
    Code(i32),
}

static mut ERR_FD: i32 = 2;
static mut NULL_FD: i32 = 2;
pub fn init() {
    fixed_addresses();
    unsafe {
        let p = mmap(ARENA_BASE as *mut c_void, ARENA_SIZE, 3, 0x22 | 0x4000 | 0x10_0000, -1, 0);
        assert_eq!(p as usize, ARENA_BASE, "cannot map the arena");
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        SHARED = p as *mut Shared;
        for l in 0..4 {
            let p = mmap(std::ptr::null_mut(), OUTSZ, 3, 0x21 | 0x4000, -1, 0);
            assert!(p as isize != -1);
            OUT[l] = p as *mut u8;
        }
        ERR_FD = dup(2);
        NULL_FD = open(b"/dev/null\0".as_ptr(), 0o2);
        // no core files from runs that crash
        setrlimit(4, &[0, 0]);
        prctl(1, 9, 0, 0, 0);
        if getppid() == 1 { /* parent already gone; harmless */ }
    }
    set_layout(0);
    std::alloc::set_alloc_error_hook(|_| {
        std::panic::panic_any(SimOom);
    });
    std::panic::set_hook(Box::new(|info| {
        let cut = CUT.with(|c| c.replace(false));
        let m = if info.payload().downcast_ref::<SimOom>().is_some() {
            "simulated allocation failure".to_string()
        } else {
            let t = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            if !cut && !t.is_empty() {
                let m = format!("harness panic: {} at {:?}\n", t, info.location());
                unsafe {
                    write(ERR_FD, m.as_ptr(), m.len());
                }
            }
            t
        };
        MSG.with(|c| c.set(Some(Box::new(m))));
        CUT.with(|c| c.set(cut));
    }));
}

/// Runs `f` in a forked copy of this process and returns what it wrote.
pub fn in_fork(f: impl FnOnce() -> Vec<u8>) -> (Exit, Vec<u8>) {
    unsafe {
        let lvl = LEVEL;
        shared().len[lvl].store(u64::MAX, SeqCst);
        count(1, 1);
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            setitimer(2, &[0, 0, 60, 0], std::ptr::null_mut());
            alarm(120);
            // what a dying process mutters is of no interest
            dup2(NULL_FD, 2);
            LEVEL = lvl + 1;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let v = f();
                assert!(v.len() <= OUTSZ, "output too long");
                std::ptr::copy_nonoverlapping(v.as_ptr(), OUT[lvl], v.len());
                shared().len[lvl].store(v.len() as u64, SeqCst);
            }));
            count(0, rt().step);
            _exit(match r {
                Ok(()) => EXIT_OK,
                Err(p) if p.is::<SimStalled>() => EXIT_STALLED,
                Err(_) => EXIT_HARNESS,
            });
        }
        let mut st = 0i32;
        while waitpid(pid, &mut st, 0) < 0 {}
        let n = shared().len[lvl].load(SeqCst);
        let out = if n == u64::MAX {
            vec![]
        } else {
            std::slice::from_raw_parts(OUT[lvl], n as usize).to_vec()
        };
        let sig = st & 0x7f;
        let code = (st >> 8) & 0xff;
        let e = if sig == 27 {
            Exit::Alarm
        } else if sig == 14 {
            Exit::Stalled
        } else if sig != 0 {
            Exit::Signal(sig)
        } else {
            match code {
                EXIT_OK => Exit::Ok,
                EXIT_BUDGET => Exit::Budget,
                EXIT_DEADLOCK => Exit::Deadlock,
                EXIT_HARNESS => Exit::Harness,
                EXIT_STALLED => Exit::Stalled,
                c => Exit::Code(c),
            }
        };
        (e, out)
    }
}

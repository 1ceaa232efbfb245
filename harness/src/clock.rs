//! Virtual time and thread gating by interposing libc symbols.
//!
//! The executable defines `clock_gettime`, `nanosleep` and `clock_nanosleep`;
//! the linker resolves the references of std (and of every dependency) to
//! these. CLOCK_MONOTONIC then shows the harness' virtual time, all other
//! clocks the real one. Sleeps of threads that are not harness threads do not
//! wait for real time: they yield (or wait at the gate when it is closed).
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

pub static VIRT: AtomicBool = AtomicBool::new(false);
static NOW_NS: AtomicI64 = AtomicI64::new(0);
/// each read of the clock advances it by so much (0 = frozen)
static STEP_NS: AtomicI64 = AtomicI64::new(0);
pub static SLEEPS: AtomicU64 = AtomicU64::new(0);

thread_local! { static HARNESS: Cell<bool> = const { Cell::new(false) }; }
pub fn mark_harness_thread() { HARNESS.with(|h| h.set(true)); }

fn real(clk: libc::clockid_t) -> libc::timespec {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, &mut ts as *mut _); }
    ts
}
pub fn real_ns() -> i64 { let t = real(libc::CLOCK_MONOTONIC); t.tv_sec as i64 * 1_000_000_000 + t.tv_nsec as i64 }
pub fn real_sleep_us(us: i64) {
    let ts = libc::timespec { tv_sec: us / 1_000_000, tv_nsec: (us % 1_000_000) * 1000 };
    unsafe { libc::syscall(libc::SYS_nanosleep, &ts as *const _, std::ptr::null_mut::<libc::timespec>()); }
}
/// patience is measured in time during which this process ran: one that is
/// stopped or hardly gets a processor does not grow impatient
static AWAKE_NS: AtomicI64 = AtomicI64::new(0);
pub fn awake_ns() -> i64 { AWAKE_NS.load(SeqCst) }
pub fn start_virtual() {
    std::thread::spawn(|| { mark_harness_thread(); let mut t = real_ns(); loop { real_sleep_us(2_000); let n = real_ns(); AWAKE_NS.fetch_add((n - t).min(4_000_000), SeqCst); t = n; } });
    NOW_NS.store(100_000_000_000_000_000 + real_ns() % 1_000_000_000, SeqCst); VIRT.store(true, SeqCst);
}
pub fn advance_ns(ns: i64) { NOW_NS.fetch_add(ns, SeqCst); wake_expired(); }
pub fn set_step_ns(ns: i64) { STEP_NS.store(ns, SeqCst); }
pub fn now_ns() -> i64 { NOW_NS.load(SeqCst) }

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if VIRT.load(SeqCst) && (clk == libc::CLOCK_MONOTONIC) {
        let late = PRETEND.with(|p| p.replace(0));
        if late > NOW_NS.load(SeqCst) {
            (*ts).tv_sec = (late / 1_000_000_000) as _;
            (*ts).tv_nsec = (late % 1_000_000_000) as _;
            return 0;
        }
        let step = STEP_NS.load(SeqCst);
        let n = if step != 0 { NOW_NS.fetch_add(step, SeqCst) } else { NOW_NS.load(SeqCst) };
        (*ts).tv_sec = (n / 1_000_000_000) as _;
        (*ts).tv_nsec = (n % 1_000_000_000) as _;
        return 0;
    }
    *ts = real(clk);
    0
}

// ---- system calls ------------------------------------------------------------
// std waits by `syscall(SYS_futex, ..)`. A wait with a deadline has a deadline
// in virtual time: it ends when the virtual time is advanced beyond it. For a
// thread of the library such a wait is a sleep like any other.
thread_local! { static PRETEND: Cell<i64> = const { Cell::new(0) }; }
static WAITERS: Mutex<Vec<(usize, i64)>> = Mutex::new(Vec::new());
unsafe fn raw(n: libc::c_long, a: [usize; 6]) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
                    lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn finish(r: isize) -> libc::c_long { if r < 0 && r > -4096 { *libc::__errno_location() = -r as i32; -1 } else { r as libc::c_long } }
fn wake_expired() {
    let now = NOW_NS.load(SeqCst);
    // (a raw futex call: the lock of WAITERS must not be waited for with a deadline)
    let w = WAITERS.lock().unwrap().clone();
    for (a, d) in w { if d <= now { unsafe { raw(libc::SYS_futex, [a, libc::FUTEX_WAKE as usize | libc::FUTEX_PRIVATE_FLAG as usize, i32::MAX as usize, 0, 0, 0]); } } }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    let cmd = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    if n == libc::SYS_futex && cmd == libc::FUTEX_WAIT_BITSET && d != 0 && VIRT.load(SeqCst) {
        let ts = &*(d as *const libc::timespec);
        let end = (ts.tv_sec as i64).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as i64);
        let word = &*(a as *const std::sync::atomic::AtomicU32);
        if !HARNESS.with(|h| h.get()) {
            if word.load(SeqCst) != c as u32 { return finish(-(libc::EAGAIN as isize)) }
            virtual_sleep();
            PRETEND.with(|p| p.set(end));
            return finish(-(libc::ETIMEDOUT as isize));
        }
        WAITERS.lock().unwrap().push((a, end));
        let r = if NOW_NS.load(SeqCst) >= end { 0 } else { raw(n, [a, b, c, 0, e, f]) };
        let mut w = WAITERS.lock().unwrap();
        if let Some(i) = w.iter().position(|x| *x == (a, end)) { w.swap_remove(i); }
        drop(w);
        if r >= 0 && NOW_NS.load(SeqCst) >= end && word.load(SeqCst) == c as u32 { return finish(-(libc::ETIMEDOUT as isize)) }
        return finish(r);
    }
    finish(raw(n, [a, b, c, d, e, f]))
}

// ---- gates -------------------------------------------------------------------
// Threads the library starts stop at a gate whenever they sleep (and wherever a
// component of the harness tells them to) until they are let through.
use std::sync::{Condvar, Mutex};
#[derive(Clone, Debug, PartialEq)]
pub enum At { Running, Gate(String), Ended }
pub struct Slot { pub at: At, pub permits: u64, pub free: bool, pub arrivals: u64 }
pub static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
pub static SLOTS_CV: Condvar = Condvar::new();
/// when set no thread stops at its gate (stress mode)
pub static OPEN: AtomicBool = AtomicBool::new(false);

struct MySlot(Cell<Option<usize>>);
impl Drop for MySlot { fn drop(&mut self) { if let Some(i) = self.0.get() { let mut s = SLOTS.lock().unwrap(); if i < s.len() { s[i].at = At::Ended; } SLOTS_CV.notify_all(); } } }
thread_local! { static SLOT: MySlot = const { MySlot(Cell::new(None)) }; }

pub fn is_library_thread() -> bool { !HARNESS.with(|h| h.get()) }
pub fn gate(label: &str) {
    if OPEN.load(SeqCst) { real_sleep_us(50); return }
    let mut s = SLOTS.lock().unwrap();
    let i = SLOT.with(|m| match m.0.get() { Some(i) => i, None => { s.push(Slot { at: At::Running, permits: 0, free: false, arrivals: 0 }); m.0.set(Some(s.len() - 1)); s.len() - 1 } });
    s[i].at = At::Gate(label.to_string());
    s[i].arrivals += 1;
    SLOTS_CV.notify_all();
    if s[i].free { drop(s); real_sleep_us(500); return }
    while s[i].permits == 0 && !s[i].free { s = SLOTS_CV.wait(s).unwrap(); }
    if s[i].permits > 0 { s[i].permits -= 1; }
    s[i].at = At::Running;
    SLOTS_CV.notify_all();
}
pub fn slots() -> usize { SLOTS.lock().unwrap().len() }
pub fn slot_at(i: usize) -> At { SLOTS.lock().unwrap()[i].at.clone() }
pub fn slot_free(i: usize) { SLOTS.lock().unwrap()[i].free = true; SLOTS_CV.notify_all(); }
/// lets the thread pass its gate once
pub fn permit(i: usize) { let mut s = SLOTS.lock().unwrap(); s[i].permits += 1; s[i].at = At::Running; SLOTS_CV.notify_all(); }
/// waits up to `us` for the slot to be at a gate or to have ended
pub fn wait_gate(i: usize, us: u64) -> Option<At> {
    let mut s = SLOTS.lock().unwrap();
    if s.len() > i && s[i].at != At::Running { return Some(s[i].at.clone()) }
    let t0 = awake_ns();
    loop {
        drop(s);
        real_sleep_us(20);
        s = SLOTS.lock().unwrap();
        if s.len() > i && s[i].at != At::Running { return Some(s[i].at.clone()) }
        if awake_ns() - t0 > us as i64 * 1000 { return None }
    }
}

fn virtual_sleep() {
    SLEEPS.fetch_add(1, SeqCst);
    gate("sleep");
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if VIRT.load(SeqCst) && !HARNESS.with(|h| h.get()) { virtual_sleep(); return 0; }
    libc::syscall(libc::SYS_nanosleep, req, rem) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: libc::c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if VIRT.load(SeqCst) && !HARNESS.with(|h| h.get()) { virtual_sleep(); return 0; }
    let r = libc::syscall(libc::SYS_clock_nanosleep, clk, flags, req, rem);
    if r == 0 { 0 } else { *libc::__errno_location() }
}

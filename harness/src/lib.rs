//! Binding of the TLA+ specification to the real library: every call TLC makes lands here.
#![allow(non_snake_case)]
use std::ffi::c_void;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A NaN no arithmetic produces: stands for "the call panicked".
pub const PANIC_BITS: u64 = 0x7ff8_dead_beef_0001;
/// ... differed between repetitions; its process ended abnormally; it did not return
pub const UNSTABLE: u64 = PANIC_BITS + 1;
pub const DIED: u64 = PANIC_BITS + 2;
pub const HUNG: u64 = PANIC_BITS + 3;

pub const PAIRS: [&str; 12] = ["pt", "ph", "ps", "hs", "pv", "tv", "th", "ts", "px", "tx", "hx", "sx"];

/// One public API call. reg == NOREG selects the form without an explicit region.
pub const NOREG: i32 = i32::MIN;
pub fn raw(pair: i32, a: f64, b: f64, o: i32, reg: i32) -> f64 {
    macro_rules! two { ($f:path) => { if reg == NOREG { $f(a, b, o) } else { $f(a, b, (o, reg)) } } }
    match pair {
        0 => two!(seuif97::pt),
        1 => two!(seuif97::ph),
        2 => two!(seuif97::ps),
        3 => two!(seuif97::hs),
        4 => two!(seuif97::pv),
        5 => two!(seuif97::tv),
        6 => two!(seuif97::th),
        7 => two!(seuif97::ts),
        8 => seuif97::px(a, b, o),
        9 => seuif97::tx(a, b, o),
        10 => seuif97::hx(a, b, o),
        11 => seuif97::sx(a, b, o),
        _ => f64::from_bits(PANIC_BITS),
    }
}

pub fn safe(pair: i32, a: f64, b: f64, o: i32, reg: i32) -> f64 {
    catch_unwind(AssertUnwindSafe(|| raw(pair, a, b, o, reg))).unwrap_or(f64::from_bits(PANIC_BITS))
}

pub fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

#[no_mangle]
pub extern "system" fn Java_vf_LibOps_init(_e: *mut c_void, _c: *mut c_void) {
    quiet();
}

#[no_mangle]
pub extern "system" fn Java_vf_LibOps_call0(_e: *mut c_void, _c: *mut c_void, pair: i32, a: f64, b: f64, o: i32, reg: i32) -> f64 {
    safe(pair, a, b, o, reg)
}

// ---- schedules: a script of calls, executed by K threads -------------------------------------
// buffer layout handed over as a raw address (a direct ByteBuffer's memory, native order):
//   n records of 6 doubles: thread, pair, a, b, oid, reg ; result written to a second buffer of n doubles
// Mode 0: calls execute one at a time in script order, each on the thread it names (a real schedule).
// Mode 1: all threads run their own subsequence concurrently, `rep` times; a result that differs between
//         repetitions is replaced by UNSTABLE.
pub unsafe fn sched(inp: *const f64, n: usize, out: *mut f64, threads: usize, mode: i32, rep: usize) {
    let recs: Vec<[f64; 6]> = (0..n).map(|i| { let mut r = [0.0; 6]; for k in 0..6 { r[k] = *inp.add(i * 6 + k); } r }).collect();
    let one = |r: &[f64; 6]| safe(r[1] as i32, r[2], r[3], r[4] as i32, if r[5] < -1.0e9 { NOREG } else { r[5] as i32 });
    let res: Vec<std::sync::atomic::AtomicU64> = (0..n).map(|_| std::sync::atomic::AtomicU64::new(PANIC_BITS)).collect();
    use std::sync::atomic::Ordering::SeqCst;
    if mode == 0 && threads <= 1 {
        for (i, r) in recs.iter().enumerate() { *out.add(i) = one(r); }
        return;
    }
    if mode == 0 {
        let turn = (std::sync::Mutex::new(0usize), std::sync::Condvar::new());
        std::thread::scope(|s| {
            for th in 0..threads {
                let (recs, res, turn, one) = (&recs, &res, &turn, &one);
                s.spawn(move || {
                    for (i, r) in recs.iter().enumerate() {
                        if r[0] as usize != th { continue; }
                        let mut g = turn.0.lock().unwrap();
                        while *g != i { g = turn.1.wait(g).unwrap(); }
                        res[i].store(one(r).to_bits(), SeqCst);
                        *g = i + 1;
                        turn.1.notify_all();
                    }
                });
            }
        });
    } else {
        let barrier = std::sync::Barrier::new(threads);
        std::thread::scope(|s| {
            for th in 0..threads {
                let (recs, res, one, barrier) = (&recs, &res, &one, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    for k in 0..rep {
                        for (i, r) in recs.iter().enumerate() {
                            if r[0] as usize != th { continue; }
                            let b = one(r).to_bits();
                            if k == 0 { res[i].store(b, SeqCst); }
                            else if res[i].load(SeqCst) != b { res[i].store(UNSTABLE, SeqCst); }
                        }
                    }
                });
            }
        });
    }
    for i in 0..n { *out.add(i) = f64::from_bits(res[i].load(SeqCst)); }
}


//! vfsolo: reads scripts from standard input; runs each in a process of its own (a fork of one that has made
//! no call), and writes the answers.  A script: n, threads, mode, rep, then n records of 6 doubles (see sched);
//! the answer: n doubles.  A script whose process died or did not return in time is answered with DIED / HUNG.
use std::io::{Read, Write};
use vfharness::*;
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
}
const MAX: usize = 1 << 20;
fn main() {
    quiet();
    let out = unsafe { mmap(std::ptr::null_mut(), MAX * 8, 3, 0x21, -1, 0) } as *mut f64;
    assert!(out as isize != -1);
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let limit: u32 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(30);
    loop {
        let mut head = [0u8; 32];
        if i.read_exact(&mut head).is_err() { return; }
        let h = |k: usize| f64::from_ne_bytes(head[k * 8..k * 8 + 8].try_into().unwrap());
        let (n, threads, mode, rep) = (h(0) as usize, h(1) as usize, h(2) as i32, h(3) as usize);
        assert!(n <= MAX);
        let mut body = vec![0.0f64; n * 6];
        let bytes = unsafe { std::slice::from_raw_parts_mut(body.as_mut_ptr() as *mut u8, n * 48) };
        if i.read_exact(bytes).is_err() { return; }
        let res = unsafe { std::slice::from_raw_parts_mut(out, n) };
        unsafe {
            let pid = fork();
            if pid == 0 {
                alarm(limit);
                sched(body.as_ptr(), n, out, threads, mode, rep);
                _exit(0);
            }
            assert!(pid > 0);
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            if st != 0 { res.fill(f64::from_bits(if st & 127 == 14 { HUNG } else { DIED })); }
            o.write_all(std::slice::from_raw_parts(out as *const u8, n * 8)).unwrap();
        }
        o.flush().unwrap();
    }
}

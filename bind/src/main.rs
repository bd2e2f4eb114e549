//! vfbind LIB: answers requests through the functions LIB exports and through the Rust functions of the same
//! crate, built for the same processor.  Reads, as 64-bit words: pair, a, b (bits), n, then n ids; writes for
//! each id three words: the bits LIB answered, the bits Rust answered, and how many bytes of the arguments the
//! exported function took off the stack (the calling convention, on 32-bit x86).
#![no_main]
use std::io::{Read, Write};
use std::ffi::{c_char, c_int, c_void, CStr};
const PANIC: u64 = 0x7ff8deadbeef0001;
const MISSING: u64 = PANIC + 4;
type F = fn(f64, f64, i32) -> f64;
const RUST: [F; 12] = [
    |a, b, o| seuif97::pt(a, b, o), |a, b, o| seuif97::ph(a, b, o), |a, b, o| seuif97::ps(a, b, o), |a, b, o| seuif97::hs(a, b, o),
    |a, b, o| seuif97::pv(a, b, o), |a, b, o| seuif97::tv(a, b, o), |a, b, o| seuif97::th(a, b, o), |a, b, o| seuif97::ts(a, b, o),
    |a, b, o| seuif97::px(a, b, o), |a, b, o| seuif97::tx(a, b, o), |a, b, o| seuif97::hx(a, b, o), |a, b, o| seuif97::sx(a, b, o),
];
const NAMES: [&str; 12] = ["pt\0", "ph\0", "ps\0", "hs\0", "pv\0", "tv\0", "th\0", "ts\0", "px\0", "tx\0", "hx\0", "sx\0"];
extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}
#[cfg(target_arch = "x86")]
std::arch::global_asm!(r#"
    .globl _start
_start:
    xor ebp, ebp
    mov eax, [esp]
    lea edx, [esp + 4]
    and esp, -16
    push ebp
    push ebp
    push ebp
    push ebp
    push ebp
    push edx
    push eax
    lea ecx, [main]
    push ecx
    call __libc_start_main
    hlt
    .globl vf_call
vf_call:
    push ebp
    mov ebp, esp
    push esi
    push edi
    push ebx
    mov edi, esp
    and esp, -16
    sub esp, 12
    mov eax, [ebp + 8]
    mov ecx, [ebp + 12]
    push dword ptr [ecx + 16]
    push dword ptr [ecx + 12]
    push dword ptr [ecx + 8]
    push dword ptr [ecx + 4]
    push dword ptr [ecx]
    mov esi, esp
    call eax
    mov eax, esp
    sub eax, esi
    mov ecx, [ebp + 16]
    fstp qword ptr [ecx]
    mov esp, edi
    pop ebx
    pop edi
    pop esi
    pop ebp
    ret
"#);
#[cfg(target_arch = "x86")]
extern "C" { fn vf_call(f: *mut c_void, args: *const u32, ret: *mut f64) -> i32; }
#[cfg(target_arch = "x86")]
fn exported(f: *mut c_void, a: u64, b: u64, o: i16) -> (u64, i64) {
    let args = [a as u32, (a >> 32) as u32, b as u32, (b >> 32) as u32, o as i32 as u32];
    let mut r = f64::from_bits(MISSING);
    let n = unsafe { vf_call(f, args.as_ptr(), &mut r) };
    (r.to_bits(), n as i64)
}
#[cfg(not(target_arch = "x86"))]
fn exported(f: *mut c_void, a: u64, b: u64, o: i16) -> (u64, i64) {
    let g: extern "C" fn(f64, f64, i16) -> f64 = unsafe { std::mem::transmute(f) };
    (g(f64::from_bits(a), f64::from_bits(b), o).to_bits(), 0)
}
fn native(k: usize, a: u64, b: u64, o: i16) -> u64 {
    std::panic::catch_unwind(|| RUST[k](f64::from_bits(a), f64::from_bits(b), o as i32).to_bits()).unwrap_or(PANIC)
}
#[no_mangle]
pub extern "C" fn main(argc: c_int, argv: *const *const c_char) -> c_int {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(argc > 1);
    let path = unsafe { CStr::from_ptr(*argv.add(1)) };
    let lib = unsafe { dlopen(path.as_ptr(), 2) };
    if lib.is_null() { eprintln!("vfbind: cannot load {:?}", path); return 3; }
    let sym: Vec<*mut c_void> = NAMES.iter().map(|n| unsafe { dlsym(lib, n.as_ptr() as *const c_char) }).collect();
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::BufWriter::new(std::io::stdout().lock()));
    loop {
        let mut h = [0u8; 32];
        if i.read_exact(&mut h).is_err() { return 0; }
        let w = |k: usize| u64::from_ne_bytes(h[k * 8..k * 8 + 8].try_into().unwrap());
        let (k, a, b, n) = (w(0) as usize, w(1), w(2), w(3) as usize);
        let mut ids = vec![0u8; n * 8];
        if i.read_exact(&mut ids).is_err() { return 0; }
        for c in ids.chunks(8) {
            let id = i64::from_ne_bytes(c.try_into().unwrap()) as i16;
            let (x, n) = if sym[k].is_null() { (MISSING, 0) } else { exported(sym[k], a, b, id) };
            for v in [x, native(k, a, b, id), n as u64] { o.write_all(&v.to_ne_bytes()).unwrap(); }
        }
        o.flush().unwrap();
    }
}

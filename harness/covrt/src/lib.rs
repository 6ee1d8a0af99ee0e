//! Coverage callbacks of the guided build (never instrumented itself). One fuzzing thread per process.
//! Counts edges and remembers how close the two sides of comparisons came, while switched on.
#![allow(static_mut_refs)]
use core::arch::global_asm;
pub const EDGES: usize = 1 << 18;
pub const CMP: usize = 1 << 20;
static mut ON: bool = false;
static mut WORK: u64 = 0;
static mut NEXT: u32 = 1;
static mut COUNTS: [u8; EDGES] = [0; EDGES];
static mut TOUCHED: [u32; EDGES] = [0; EDGES];
static mut NT: usize = 0;
static mut STAMP: [u32; CMP] = [0; CMP];
static mut NOW: u32 = 1;
static mut CF: [u32; CMP] = [0; CMP];
static mut NC: usize = 0;

pub fn on(b: bool) { unsafe { ON = b } }
pub fn edges() -> u32 { unsafe { NEXT - 1 } }
/// edges executed so far, switched on or not: how much work was done
pub fn work() -> u64 { unsafe { WORK } }
/// forgets what was seen
pub fn reset() {
    unsafe {
        for i in 0..NT { COUNTS[TOUCHED[i] as usize] = 0; }
        NT = 0;
        NC = 0;
        NOW = NOW.wrapping_add(1);
        if NOW == 0 { STAMP.iter_mut().for_each(|x| *x = 0); NOW = 1; }
    }
}
/// feature numbers: comparisons below `CMP`, edge counts above
pub fn features(mut f: impl FnMut(u32)) {
    unsafe {
        for i in 0..NT {
            let e = TOUCHED[i];
            let b = match COUNTS[e as usize] { 1 => 0, 2 => 1, 3 => 2, 4..=7 => 3, 8..=15 => 4, 16..=31 => 5, 32..=127 => 6, _ => 7 };
            f(CMP as u32 + e * 8 + b);
        }
        for i in 0..NC { f(CF[i]); }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, z: *mut u32) {
    while a < z {
        if *a == 0 { *a = NEXT; if (NEXT as usize) < EDGES - 1 { NEXT += 1; } }
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    WORK += 1;
    if !ON { return; }
    let i = *g as usize;
    let c = COUNTS.get_unchecked_mut(i);
    if *c == 0 {
        if NT >= EDGES { return; }
        TOUCHED[NT] = i as u32;
        NT += 1;
    }
    *c = c.saturating_add(1);
}
#[no_mangle]
unsafe extern "C" fn covrt_cmp(a: u64, b: u64, pc: u64) {
    if !ON { return; }
    let d = a.wrapping_sub(b);
    let d = if d as i64 >= 0 { d } else { d.wrapping_neg() };
    let h = (pc.wrapping_mul(0x9E3779B97F4A7C15) >> 51) as usize; // 13 bits
    for f in [h << 7 | (64 - d.leading_zeros() as usize).min(63), h << 7 | 64 | ((a ^ b).count_ones() as usize).min(63)] {
        if STAMP[f] != NOW && NC < CMP { STAMP[f] = NOW; CF[NC] = f as u32; NC += 1; }
    }
}
// the comparison's own address is the caller's; values are sign extended
global_asm!(
    ".globl __sanitizer_cov_trace_cmp8", ".globl __sanitizer_cov_trace_const_cmp8",
    "__sanitizer_cov_trace_cmp8:", "__sanitizer_cov_trace_const_cmp8:",
    "mov rdx, [rsp]", "jmp {f}",
    ".globl __sanitizer_cov_trace_cmp4", ".globl __sanitizer_cov_trace_const_cmp4",
    "__sanitizer_cov_trace_cmp4:", "__sanitizer_cov_trace_const_cmp4:",
    "movsxd rdi, edi", "movsxd rsi, esi", "mov rdx, [rsp]", "jmp {f}",
    ".globl __sanitizer_cov_trace_cmp2", ".globl __sanitizer_cov_trace_const_cmp2",
    "__sanitizer_cov_trace_cmp2:", "__sanitizer_cov_trace_const_cmp2:",
    "movsx rdi, di", "movsx rsi, si", "mov rdx, [rsp]", "jmp {f}",
    ".globl __sanitizer_cov_trace_cmp1", ".globl __sanitizer_cov_trace_const_cmp1",
    "__sanitizer_cov_trace_cmp1:", "__sanitizer_cov_trace_const_cmp1:",
    "movzx edi, dil", "movzx esi, sil", "mov rdx, [rsp]", "jmp {f}",
    ".globl __sanitizer_cov_trace_switch", "__sanitizer_cov_trace_switch:", "ret",
    f = sym covrt_cmp,
);

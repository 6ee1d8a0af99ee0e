//! Thread-local free lists in front of the system allocator. The checks make and drop many tiny
//! vectors in eight threads, and glibc puts them all through one lock here.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;

const CLASSES: usize = 12; // 16 bytes .. 32 KiB
const CHUNK: usize = 1 << 20;
thread_local! {
    static FREE: [Cell<*mut u8>; CLASSES] = const { [const { Cell::new(null_mut()) }; CLASSES] };
    static LOCAL: Cell<bool> = const { Cell::new(false) };
    static BUMP: Cell<(*mut u8, usize)> = const { Cell::new((null_mut(), 0)) };
}
pub struct Local;
// what short-lived threads leave to their successors
type Estate = ([*mut u8; CLASSES], (*mut u8, usize));
struct Depot { n: usize, of: [Estate; 64] }
unsafe impl Send for Depot {}
static DEPOT: std::sync::Mutex<Depot> = std::sync::Mutex::new(Depot { n: 0, of: [([null_mut(); CLASSES], (null_mut(), 0)); 64] });
/// this thread is going to allocate a lot
pub fn local() { LOCAL.with(|l| l.set(true)); }
/// runs a short-lived thread's work with the memory an earlier one has left, and leaves it to the next
pub fn inherit<T>(f: impl FnOnce() -> T) -> T {
    let swap = |e: Estate| -> Estate { let old = FREE.with(|f| std::array::from_fn(|i| f[i].replace(e.0[i]))); (old, BUMP.with(|b| b.replace(e.1))) };
    let got = { let mut d = DEPOT.lock().unwrap_or_else(|e| e.into_inner()); if d.n > 0 { d.n -= 1; d.of[d.n] } else { ([null_mut(); CLASSES], (null_mut(), 0)) } };
    let own = swap(got);
    local();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    LOCAL.with(|l| l.set(false));
    let left = swap(own);
    let mut d = DEPOT.lock().unwrap_or_else(|e| e.into_inner());
    let n = d.n;
    if n < 64 { d.of[n] = left; d.n += 1; }
    match r { Ok(r) => r, Err(p) => std::panic::resume_unwind(p) }
}
fn class(l: &Layout) -> Option<usize> {
    if l.align() > 16 || l.size() > (16 << (CLASSES - 1)) { return None; }
    Some(l.size().max(16).next_power_of_two().trailing_zeros() as usize - 4)
}
unsafe impl GlobalAlloc for Local {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(c) = class(&l) else { return System.alloc(l) };
        let size = 16usize << c;
        let got = FREE.try_with(|f| {
            let p = f[c].get();
            if !p.is_null() { f[c].set(*(p as *mut *mut u8)); return p; }
            if !LOCAL.with(|l| l.get()) { return System.alloc(Layout::from_size_align_unchecked(size, 16)); }
            BUMP.with(|b| {
                let (mut at, mut left) = b.get();
                if left < size {
                    at = System.alloc(Layout::from_size_align_unchecked(CHUNK, 16));
                    if at.is_null() { return at; }
                    left = CHUNK;
                }
                b.set((at.add(size), left - size));
                at
            })
        });
        got.unwrap_or_else(|_| System.alloc(Layout::from_size_align_unchecked(size, 16)))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let Some(c) = class(&l) else { return System.dealloc(p, l) };
        let _ = FREE.try_with(|f| { *(p as *mut *mut u8) = f[c].get(); f[c].set(p); });
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        match (class(&l), class(&nl)) {
            (None, None) => System.realloc(p, l, n),
            (a, b) if a == b => p,
            _ => {
                let q = self.alloc(nl);
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    self.dealloc(p, l);
                }
                q
            }
        }
    }
}

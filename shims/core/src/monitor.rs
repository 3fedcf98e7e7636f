//! Run-time monitors shared by the stand-ins: the registry of shared regions (memory the process
//! allocator must never be asked to release) and the log of violations observed inside a stand-in.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

const N: usize = 4096;
static LO: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
static HI: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
static USED: AtomicUsize = AtomicUsize::new(0);
pub static BAD_FREES: AtomicUsize = AtomicUsize::new(0);
pub static REGIONS: AtomicUsize = AtomicUsize::new(0);
pub static OVERRUNS: AtomicUsize = AtomicUsize::new(0);
pub static ADVANCES: AtomicUsize = AtomicUsize::new(0);

pub fn register(lo: *mut u8, len: usize) {
    REGIONS.fetch_add(1, SeqCst);
    let n = USED.load(SeqCst);
    for i in 0..n {
        if LO[i].compare_exchange(0, lo as usize, SeqCst, SeqCst).is_ok() {
            HI[i].store(lo as usize + len.max(1), SeqCst);
            return;
        }
    }
    let i = USED.fetch_add(1, SeqCst);
    assert!(i < N);
    HI[i].store(lo as usize + len.max(1), SeqCst);
    LO[i].store(lo as usize, SeqCst);
}
pub fn unregister(lo: *mut u8) {
    for i in 0..USED.load(SeqCst) {
        if LO[i].load(SeqCst) == lo as usize {
            HI[i].store(0, SeqCst);
            LO[i].store(0, SeqCst);
            return;
        }
    }
}
pub fn in_region(p: *const u8) -> bool {
    let p = p as usize;
    (0..USED.load(SeqCst).min(N)).any(|i| LO[i].load(SeqCst) != 0 && LO[i].load(SeqCst) <= p && p < HI[i].load(SeqCst))
}
pub fn check_advance(_what: &str, lo: *mut u8, p: *mut u8, n: usize) {
    ADVANCES.fetch_add(1, SeqCst);
    if (p as usize) < lo as usize || p as usize - lo as usize > n {
        OVERRUNS.fetch_add(1, SeqCst);
    }
}
/// With AddressSanitizer: makes every access to `[lo, lo + n)` an error, or stops doing so.
pub fn fence(lo: *mut u8, n: usize, on: bool) {
    #[cfg(vp_asan)]
    {
        extern "C" {
            fn __asan_poison_memory_region(p: *const u8, n: usize);
            fn __asan_unpoison_memory_region(p: *const u8, n: usize);
        }
        match on {
            true => {
                FENCED.fetch_add(n, SeqCst);
                unsafe { __asan_poison_memory_region(lo, n) }
            }
            false => unsafe { __asan_unpoison_memory_region(lo, n) },
        }
    }
    let _ = (lo, n, on);
}
pub static FENCED: AtomicUsize = AtomicUsize::new(0);
/// Fences what lies between the end of a mapping and the end of its last page.
pub fn fence_tail(lo: *mut u8, len: usize, on: bool) {
    fence(unsafe { lo.add(len) }, len.max(1).next_multiple_of(4096) - len, on);
}
/// The first byte of `[p, p + n)` that may not be accessed, as AddressSanitizer sees it.
pub fn fenced(p: *const u8, n: usize) -> Option<usize> {
    #[cfg(vp_asan)]
    {
        extern "C" {
            fn __asan_region_is_poisoned(p: *const u8, n: usize) -> *const u8;
        }
        let q = unsafe { __asan_region_is_poisoned(p, n) };
        if !q.is_null() {
            return Some(q as usize - p as usize);
        }
    }
    let _ = (p, n);
    None
}
/// Bytes between the end of a region and the end of its last page, which start as zero.
pub fn check_tail(lo: *mut u8, len: usize) {
    let end = len.max(1).next_multiple_of(4096);
    let t = unsafe { std::slice::from_raw_parts(lo.add(len), end - len) };
    if t.iter().any(|x| *x != 0) {
        OVERRUNS.fetch_add(1, SeqCst);
    }
}
thread_local! {
    static LIVE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
}
/// Bytes this thread has allocated and not released.
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
fn add(n: isize) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
/// Global allocator that refuses (and counts) attempts to release memory inside a shared region.
pub struct MonAlloc;
unsafe impl GlobalAlloc for MonAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_region(p) {
            BAD_FREES.fetch_add(1, SeqCst);
            return;
        }
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_region(p) {
            BAD_FREES.fetch_add(1, SeqCst);
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            return q;
        }
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
/// In a server process: report to the directory the driver reads.
pub fn report_process() {
    if let Ok(d) = std::env::var("VP_MPI_DIR") {
        let r = std::env::var("VP_MPI_RANK").unwrap_or_default();
        let _ = std::fs::write(
            format!("{d}/monitor.{r}"),
            format!(
                "bad_frees={} overruns={} regions={} advances={}\n",
                BAD_FREES.load(SeqCst),
                OVERRUNS.load(SeqCst),
                REGIONS.load(SeqCst),
                ADVANCES.load(SeqCst)
            ),
        );
    }
}

//! Allocator seam: data spaces (page-aligned allocations of code under test)
//! go to fixed addresses between inaccessible pages, so that runs repeat
//! exactly and stray accesses fault; while a run is `armed`, every call is
//! recorded as a violation of the no-allocation property.
use crate::sim::try_sim;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;

const BASE: usize = 0x1000_0000_0000;
const STRIDE: usize = 64 << 20;
const SLOTS: usize = 16;
const PAGE: usize = 4096;
static mut USED: [usize; SLOTS] = [0; SLOTS];

unsafe fn note(size: usize) -> bool {
    if let Some(s) = try_sim() {
        if s.armed {
            s.rt_allocs += 1;
            s.rt_alloc_size = size;
        }
        return s.in_sut;
    }
    false
}

static mut FIRST: usize = 0;
/// Where the next data spaces go: the first free slot from this one on.
pub fn from_slot(n: usize) {
    unsafe { FIRST = n }
}

unsafe fn guarded(size: usize) -> *mut u8 {
    let used = &mut *(&raw mut USED);
    for k in 0..SLOTS {
        let i = (FIRST + k) % SLOTS;
        if used[i] == 0 {
            let len = (size + PAGE - 1) / PAGE * PAGE;
            let at = BASE + i * STRIDE;
            let p = libc::mmap(
                at as *mut libc::c_void,
                STRIDE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            if p as usize != at {
                return std::ptr::null_mut();
            }
            // 1 MiB of inaccessible space below, the rest above.
            let start = at + (1 << 20);
            if libc::mprotect(start as *mut libc::c_void, len, libc::PROT_READ | libc::PROT_WRITE) != 0 {
                return std::ptr::null_mut();
            }
            used[i] = start;
            return start as *mut u8;
        }
    }
    std::ptr::null_mut()
}

unsafe fn unguard(p: *mut u8) -> bool {
    let used = &mut *(&raw mut USED);
    for i in 0..SLOTS {
        if used[i] != 0 && used[i] == p as usize {
            libc::munmap((BASE + i * STRIDE) as *mut libc::c_void, STRIDE);
            used[i] = 0;
            return true;
        }
    }
    false
}

fn in_region(p: *mut u8) -> bool {
    (p as usize) >= BASE && (p as usize) < BASE + SLOTS * STRIDE
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let insut = note(l.size());
        if insut && l.align() >= PAGE {
            return guarded(l.size());
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let insut = note(l.size());
        if insut && l.align() >= PAGE {
            return guarded(l.size());
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(l.size());
        if in_region(p) && unguard(p) {
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        if in_region(p) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

/// Release regions left behind by a run that did not end normally.
pub fn reset() {
    unsafe {
        FIRST = 0;
        let used = &mut *(&raw mut USED);
        for i in 0..SLOTS {
            if used[i] != 0 {
                libc::munmap((BASE + i * STRIDE) as *mut libc::c_void, STRIDE);
                used[i] = 0;
            }
        }
    }
}

/// Number of data spaces currently allocated.
pub fn live() -> usize {
    unsafe { (*(&raw const USED)).iter().filter(|&&x| x != 0).count() }
}

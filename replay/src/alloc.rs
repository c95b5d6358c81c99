//! Checking allocator: red zones around every block, layout recorded in front of it, fresh memory
//! filled with a chosen byte. Violations are recorded, not raised.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

pub struct Guard;
const RED: usize = 64;
const MAGIC: u64 = 0x5afe_b10c_5afe_b10c;
pub static FILL: AtomicU8 = AtomicU8::new(0xA5);
pub static FLAGS: AtomicU32 = AtomicU32::new(0);
pub static LIVE: AtomicU64 = AtomicU64::new(0);
pub const ZERO: u32 = 1;
pub const LAYOUT: u32 = 2;
pub const REDZONE: u32 = 4;
pub const BADFREE: u32 = 8;

/// block: [size u64][align u64][magic u64][fill u64][red zone RED][user][red zone RED]
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            FLAGS.fetch_or(ZERO, SeqCst);
        }
        if l.align() > 16 {
            return System.alloc(l);
        }
        let total = 32 + RED + l.size() + RED;
        let p = System.alloc(Layout::from_size_align_unchecked(total, 16));
        if p.is_null() {
            return p;
        }
        let fill = FILL.load(SeqCst);
        let h = p as *mut u64;
        h.write(l.size() as u64);
        h.add(1).write(l.align() as u64);
        h.add(2).write(MAGIC);
        h.add(3).write(fill as u64);
        std::ptr::write_bytes(p.add(32), fill ^ 0x3c, RED);
        std::ptr::write_bytes(p.add(32 + RED), fill, l.size());
        std::ptr::write_bytes(p.add(32 + RED + l.size()), fill ^ 0x3c, RED);
        LIVE.fetch_add(1, SeqCst);
        p.add(32 + RED)
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        if l.align() > 16 {
            return System.dealloc(u, l);
        }
        let p = u.sub(32 + RED);
        let h = p as *mut u64;
        if h.add(2).read() != MAGIC {
            FLAGS.fetch_or(BADFREE, SeqCst);
            return;
        }
        let (size, align, fill) = (h.read() as usize, h.add(1).read() as usize, h.add(3).read() as u8);
        if size != l.size() || align != l.align() {
            FLAGS.fetch_or(LAYOUT, SeqCst);
        }
        for i in 0..RED {
            if p.add(32 + i).read() != fill ^ 0x3c || p.add(32 + RED + size + i).read() != fill ^ 0x3c {
                FLAGS.fetch_or(REDZONE, SeqCst);
                break;
            }
        }
        h.add(2).write(0xdead);
        LIVE.fetch_sub(1, SeqCst);
        System.dealloc(p, Layout::from_size_align_unchecked(32 + RED + size + RED, 16));
    }
}

pub fn take() -> Result<(), String> {
    let f = FLAGS.swap(0, SeqCst);
    let mut s = vec![];
    if f & ZERO != 0 {
        s.push("an allocation of size zero was requested")
    }
    if f & LAYOUT != 0 {
        s.push("memory was released with another layout than it was allocated with")
    }
    if f & REDZONE != 0 {
        s.push("memory outside an allocation was written")
    }
    if f & BADFREE != 0 {
        s.push("memory that is not a live allocation was released")
    }
    if s.is_empty() {
        Ok(())
    } else {
        Err(s.join("; "))
    }
}

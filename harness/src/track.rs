//! An allocation manager that watches: every block has red zones, an exact record of its layout,
//! a known fill before use and a poison after release, and stays in quarantine for a while.
use nanvm_lib::mem::manager::{Dealloc, Manager};
use std::{
    alloc::{alloc, dealloc, Layout},
    cell::{Cell, RefCell},
    collections::{BTreeMap, VecDeque},
    sync::atomic::AtomicIsize,
};

const ZONE: u8 = 0xA7;
const POISON: u8 = 0xDB;

#[derive(Clone, Copy)]
struct Rec {
    base: usize,
    outer: Layout,
    layout: Layout,
    gap: usize,
}

#[derive(Default)]
struct Registry {
    live: BTreeMap<usize, Rec>,
    dead: VecDeque<(usize, Rec)>,
    dead_bytes: usize,
    errors: Vec<String>,
    allocs: u64,
    frees: u64,
    bytes: usize,
    peak: usize,
}

thread_local! {
    static REG: RefCell<Registry> = RefCell::new(Registry::default());
    static FILL: Cell<u8> = const { Cell::new(0x5C) };
    static QUARANTINE: Cell<usize> = const { Cell::new(1 << 16) };
}

pub fn set_fill(f: u8) {
    FILL.with(|x| x.set(f));
}

/// Bytes of released blocks kept poisoned.
pub fn set_quarantine(n: usize) {
    QUARANTINE.with(|x| x.set(n));
}

impl Registry {
    fn check_zones(&self, p: usize, r: &Rec) -> Option<String> {
        unsafe {
            let inner = std::slice::from_raw_parts(r.base as *const u8, p - r.base);
            if let Some(i) = inner.iter().position(|&b| b != ZONE) {
                return Some(format!(
                    "write {} bytes before a block of {:?}",
                    inner.len() - i,
                    r.layout
                ));
            }
            let end = p + r.layout.size();
            let after = std::slice::from_raw_parts(end as *const u8, r.base + r.outer.size() - end);
            if let Some(i) = after.iter().position(|&b| b != ZONE) {
                return Some(format!("write {} bytes after a block of {:?}", i, r.layout));
            }
        }
        None
    }
    fn check_dead(&self, p: usize, r: &Rec) -> Option<String> {
        if let Some(e) = self.check_zones(p, r) {
            return Some(format!("after release: {e}"));
        }
        let b = unsafe { std::slice::from_raw_parts(p as *const u8, r.layout.size()) };
        b.iter()
            .position(|&x| x != POISON)
            .map(|i| format!("write at byte {i} of a released block of {:?}", r.layout))
    }
    fn alloc(&mut self, layout: Layout) -> *mut u8 {
        let align = layout.align();
        // odd multiples of the alignment only: nothing is aligned better than asked
        let unit = align.max(16);
        let gap = if align >= 16 { align } else { 16 + align };
        let size = match layout.size().checked_add(gap + 16 + 2 * unit) {
            Some(s) => s,
            None => return std::ptr::null_mut(),
        };
        let outer = match Layout::from_size_align(size, 2 * unit) {
            Ok(l) => l,
            Err(_) => return std::ptr::null_mut(),
        };
        let base = unsafe { alloc(outer) };
        if base.is_null() {
            return base;
        }
        let p = base as usize + gap;
        unsafe {
            std::ptr::write_bytes(base, ZONE, size);
            std::ptr::write_bytes(base.add(gap), FILL.with(|f| f.get()), layout.size());
        }
        self.live.insert(
            p,
            Rec {
                base: base as usize,
                outer,
                layout,
                gap,
            },
        );
        self.allocs += 1;
        self.bytes += layout.size();
        self.peak = self.peak.max(self.bytes);
        unsafe { base.add(gap) }
    }
    fn free(&mut self, ptr: *mut u8, layout: Layout) {
        let p = ptr as usize;
        self.frees += 1;
        let r = match self.live.remove(&p) {
            Some(r) => r,
            None => {
                let e = if self.dead.iter().any(|d| d.0 == p) {
                    format!("block of {layout:?} released twice")
                } else {
                    format!("release of {layout:?}, which was never allocated")
                };
                self.errors.push(e);
                return;
            }
        };
        if r.layout != layout {
            self.errors.push(format!(
                "allocated with {:?}, released with {layout:?}",
                r.layout
            ));
        }
        if let Some(e) = self.check_zones(p, &r) {
            self.errors.push(e);
        }
        self.bytes -= r.layout.size();
        unsafe { std::ptr::write_bytes((r.base as *mut u8).add(r.gap), POISON, r.layout.size()) };
        self.dead_bytes += r.outer.size();
        self.dead.push_back((p, r));
        let limit = QUARANTINE.with(|q| q.get());
        while self.dead_bytes > limit {
            self.evict();
        }
    }
    fn evict(&mut self) {
        if let Some((p, r)) = self.dead.pop_front() {
            if let Some(e) = self.check_dead(p, &r) {
                self.errors.push(e);
            }
            self.dead_bytes -= r.outer.size();
            unsafe { dealloc(r.base as *mut u8, r.outer) };
        }
    }
}

/// Number of live blocks.
pub fn live() -> usize {
    REG.with(|r| r.borrow().live.len())
}

pub fn live_bytes() -> usize {
    REG.with(|r| r.borrow().bytes)
}

/// Start of the live block containing the address.
pub fn block_of(p: usize) -> Option<(usize, Layout)> {
    REG.with(|r| {
        let r = r.borrow();
        let (&s, rec) = r.live.range(..=p).next_back()?;
        // a value without content lies at the end of its block
        (p <= s + rec.layout.size()).then_some((s, rec.layout))
    })
}

/// Blocks allocated so far on this thread.
pub fn allocs() -> u64 {
    REG.with(|r| r.borrow().allocs)
}

pub fn errors() -> Vec<String> {
    REG.with(|r| std::mem::take(&mut r.borrow_mut().errors))
}

/// Looks at all red zones and all quarantined blocks.
pub fn verify() -> Result<(), String> {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        if let Some(e) = r.errors.first() {
            return Err(e.clone());
        }
        let mut e = None;
        for (p, rec) in &r.live {
            e = e.or_else(|| r.check_zones(*p, rec));
        }
        for (p, rec) in &r.dead {
            e = e.or_else(|| r.check_dead(*p, rec));
        }
        match e {
            Some(e) => {
                r.errors.push(e.clone());
                Err(e)
            }
            None => Ok(()),
        }
    })
}

/// Forgets everything (a failed case must not disturb the next).
pub fn reset() -> (usize, Option<String>) {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        while !r.dead.is_empty() {
            r.evict();
        }
        let n = r.live.len();
        // leaked blocks stay allocated: something may still point there
        r.live.clear();
        r.bytes = 0;
        (n, std::mem::take(&mut r.errors).into_iter().next())
    })
}

/// The end of a case: nothing live, no complaints.
pub fn finish() -> Result<(), String> {
    let v = verify();
    let (n, e) = reset();
    v?;
    if let Some(e) = e {
        return Err(e);
    }
    if n > 0 {
        return Err(format!("{n} blocks never released"));
    }
    Ok(())
}

/// Plain counters.
#[derive(Clone, Copy, Debug)]
pub struct Track;

/// Atomic counters.
#[derive(Clone, Copy, Debug)]
pub struct TrackA;

impl Dealloc for Track {
    type BlockHeader = Cell<isize>;
    unsafe fn dealloc(ptr: *mut u8, layout: Layout) {
        REG.with(|r| r.borrow_mut().free(ptr, layout))
    }
}

impl Manager for Track {
    type Dealloc = Track;
    unsafe fn alloc(self, layout: Layout) -> *mut u8 {
        REG.with(|r| r.borrow_mut().alloc(layout))
    }
}

impl Dealloc for TrackA {
    type BlockHeader = AtomicIsize;
    unsafe fn dealloc(ptr: *mut u8, layout: Layout) {
        REG.with(|r| r.borrow_mut().free(ptr, layout))
    }
}

impl Manager for TrackA {
    type Dealloc = TrackA;
    unsafe fn alloc(self, layout: Layout) -> *mut u8 {
        REG.with(|r| r.borrow_mut().alloc(layout))
    }
}

//! The process's allocator with a ledger: exact layouts, leaks and extents of everything allocated
//! by this thread while recording.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashMap},
};

pub struct Ledger;

#[derive(Default)]
struct Book {
    live: BTreeMap<usize, Layout>,
    errors: Vec<String>,
    allocs: u64,
    bytes: usize,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static FILL: Cell<Option<u8>> = const { Cell::new(None) };
    /// Inside the ledger's own bookkeeping.
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static EXACT: Cell<bool> = const { Cell::new(false) };
    static PLACED: Cell<usize> = const { Cell::new(0) };
    static BOOK: RefCell<Book> = RefCell::new(Book::default());
    /// Blocks placed between red zones: where they begin, the block of the system, the gap.
    static ZONES: RefCell<HashMap<usize, (usize, Layout, usize)>> = RefCell::new(HashMap::new());
}

fn quiet<T>(f: impl FnOnce() -> T) -> T {
    BUSY.with(|b| {
        let old = b.replace(true);
        let r = f();
        b.set(old);
        r
    })
}

unsafe impl GlobalAlloc for Ledger {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let on = ON.with(|o| o.get()) && !BUSY.with(|b| b.get());
        let p = if on && EXACT.with(|e| e.get()) {
            place(layout)
        } else {
            System.alloc(layout)
        };
        if on && !p.is_null() {
            if let Some(f) = FILL.with(|f| f.get()) {
                std::ptr::write_bytes(p, f, layout.size());
            }
            quiet(|| {
                BOOK.with(|b| {
                    let mut b = b.borrow_mut();
                    b.allocs += 1;
                    b.bytes += layout.size();
                    b.live.insert(p as usize, layout);
                })
            });
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        if BUSY.with(|b| b.get()) {
            return System.dealloc(p, layout);
        }
        if PLACED.with(|n| n.get()) > 0 {
            if let Some((base, outer, gap)) =
                quiet(|| ZONES.with(|z| z.borrow_mut().remove(&(p as usize))))
            {
                return replace(p, layout, base, outer, gap);
            }
        }
        if ON.with(|o| o.get()) {
            let known = quiet(|| {
                BOOK.with(|b| {
                    let mut b = b.borrow_mut();
                    match b.live.remove(&(p as usize)) {
                        Some(l) => {
                            b.bytes -= l.size();
                            if l != layout {
                                b.errors.push(format!(
                                    "allocated with {l:?}, released with {layout:?}"
                                ));
                            }
                            Some(l)
                        }
                        None => None,
                    }
                })
            });
            if let Some(l) = known {
                std::ptr::write_bytes(p, 0xDB, l.size());
                return System.dealloc(p, l);
            }
        }
        System.dealloc(p, layout)
    }
}

const ZONE: u8 = 0xA7;

/// A block aligned no better than asked, between red zones.
unsafe fn place(layout: Layout) -> *mut u8 {
    let align = layout.align();
    let unit = align.max(16);
    let gap = if align >= 16 { align } else { 16 + align };
    let outer = match layout
        .size()
        .checked_add(gap + 16 + 2 * unit)
        .map(|s| Layout::from_size_align(s, 2 * unit))
    {
        Some(Ok(l)) => l,
        _ => return std::ptr::null_mut(),
    };
    let base = System.alloc(outer);
    if base.is_null() {
        return base;
    }
    std::ptr::write_bytes(base, ZONE, gap);
    let end = gap + layout.size();
    std::ptr::write_bytes(base.add(end), ZONE, outer.size() - end);
    PLACED.with(|n| n.set(n.get() + 1));
    let p = base.add(gap);
    quiet(|| {
        ZONES.with(|z| {
            z.borrow_mut()
                .insert(p as usize, (base as usize, outer, gap))
        })
    });
    p
}

/// Takes back what `place` gave.
unsafe fn replace(p: *mut u8, layout: Layout, base: usize, outer: Layout, gap: usize) {
    PLACED.with(|n| n.set(n.get() - 1));
    let base = base as *mut u8;
    quiet(|| {
        BOOK.with(|b| {
            let mut b = b.borrow_mut();
            // blocks of the monitor may outlive the recording
            if let Some(l) = b.live.remove(&(p as usize)) {
                b.bytes -= l.size();
                if l != layout {
                    b.errors
                        .push(format!("allocated with {l:?}, released with {layout:?}"));
                }
                let all = std::slice::from_raw_parts(base, outer.size());
                if let Some(i) = all[..gap].iter().rposition(|x| *x != ZONE) {
                    b.errors
                        .push(format!("write {} bytes before a block of {l:?}", gap - i));
                }
                if let Some(i) = all[gap + l.size()..].iter().position(|x| *x != ZONE) {
                    b.errors
                        .push(format!("write {i} bytes after a block of {l:?}"));
                }
            }
        })
    });
    std::ptr::write_bytes(base, 0xDB, outer.size());
    System.dealloc(base, outer)
}

/// Starts recording on this thread; every block is aligned exactly as asked and lies between red zones.
pub fn start_exact(fill: Option<u8>) {
    start(fill);
    EXACT.with(|e| e.set(true));
}

/// Starts recording on this thread.
pub fn start(fill: Option<u8>) {
    EXACT.with(|e| e.set(false));
    quiet(|| BOOK.with(|b| *b.borrow_mut() = Book::default()));
    FILL.with(|f| f.set(fill));
    ON.with(|o| o.set(true));
}

pub struct Report {
    pub live: Vec<(usize, Layout)>,
    pub errors: Vec<String>,
    pub allocs: u64,
}

/// Ends recording.
pub fn stop() -> Report {
    ON.with(|o| o.set(false));
    FILL.with(|f| f.set(None));
    let b = BOOK.with(|b| std::mem::take(&mut *b.borrow_mut()));
    Report {
        live: b.live.into_iter().collect(),
        errors: b.errors,
        allocs: b.allocs,
    }
}

/// Interrupts the recording, except inside `on`.
pub fn pause() {
    ON.with(|o| o.set(false));
}

/// Does something on the record.
pub fn on<T>(f: impl FnOnce() -> T) -> T {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            ON.with(|o| o.set(self.0));
        }
    }
    let _back = Back(ON.with(|o| o.replace(true)));
    f()
}

pub fn live_count() -> usize {
    quiet(|| BOOK.with(|b| b.borrow().live.len()))
}

/// Does something of the monitor's own, off the record.
pub fn off<T>(f: impl FnOnce() -> T) -> T {
    let old = ON.with(|o| o.replace(false));
    let r = f();
    ON.with(|o| o.set(old));
    r
}

pub fn live_bytes() -> usize {
    quiet(|| BOOK.with(|b| b.borrow().bytes))
}

/// The recorded allocation which contains the range.
pub fn containing(p: usize, size: usize) -> Option<(usize, Layout)> {
    quiet(|| {
        BOOK.with(|b| {
            let b = b.borrow();
            let (&s, l) = b.live.range(..=p).next_back()?;
            (p + size <= s + l.size()).then_some((s, *l))
        })
    })
}

pub fn errors() -> Vec<String> {
    quiet(|| BOOK.with(|b| b.borrow().errors.clone()))
}

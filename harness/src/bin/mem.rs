//! M01 and M02: ownership histories over every kind of value and every manager.
use nanvm_lib::{
    common::{cast::Cast, ref_mut::RefMut},
    js::{
        any::Any,
        any_cast::AnyCast,
        js_array::{new_array, JsArrayRef},
        js_bigint::{new_bigint, Sign},
        js_object::{new_object, JsObjectRef},
        js_string::{new_string, JsStringRef},
    },
    mem::{
        arena_hook::{with_arena, ArenaVisitor},
        flexible_array::{header::FlexibleArrayHeader, FlexibleArray},
        global::Global,
        local::Local,
        manager::{Dealloc, Manager},
        object::Object,
        ref_::Ref,
    },
};
use nanvm_monitor::{
    ensure, galloc,
    graph::history,
    kind,
    run::{args, drive, guarded, mix, Case, Kind, Tier, R},
    track::{self, Track, TrackA},
    val,
};
use std::{
    cell::{Cell, RefCell},
    mem::forget,
};

#[cfg(not(any(asan, miri)))]
#[global_allocator]
static ALLOC: galloc::Ledger = galloc::Ledger;

fn steps(c: &mut Case) -> usize {
    match c.tier {
        Tier::Tiny => 40,
        _ => c.rng.range(10, 160),
    }
}

fn any_manager(c: &mut Case, exclusive: bool) -> R {
    let n = steps(c);
    track::reset();
    match c.rng.below(8) {
        0..=2 => {
            track::set_fill(c.rng.u64() as u8);
            c.ev("plain counter histories", 1);
            history(c, Track, true, n, exclusive)?;
            track::finish()
        }
        3..=5 => {
            track::set_fill(c.rng.u64() as u8);
            c.ev("atomic counter histories", 1);
            history(c, TrackA, true, n, exclusive)?;
            track::finish()
        }
        6 => {
            c.ev("per-manager histories", 1);
            // references to the manager must outlive everything: a few bytes stay behind
            let local: &'static Local = Box::leak(Box::default());
            history(c, local, false, n, exclusive)?;
            ensure!(
                local.size() == 0,
                "{} bytes left in the manager",
                local.size()
            );
            Ok(())
        }
        _ => {
            c.ev("global histories", 1);
            galloc::start(Some(0xA3));
            let r = history(c, Global(), false, n, exclusive);
            let rep = galloc::stop();
            r?;
            match rep.errors.first() {
                Some(e) => Err(e.clone()),
                None => Ok(()),
            }
        }
    }
}

fn m01_history(c: &mut Case) -> R {
    any_manager(c, false)
}

fn m02_history(c: &mut Case) -> R {
    any_manager(c, true)
}

// ------------------------------------------------------------------ counts

/// Adds references that nobody holds.
#[inline(always)]
fn more<T: Object, D: Dealloc>(r: &Ref<T, D>, n: u64) {
    for _ in 0..n {
        forget(r.clone());
    }
}

/// Drops references that nobody holds.
#[inline(always)]
fn fewer<T: Object, D: Dealloc>(r: &Ref<T, D>, n: u64) {
    for _ in 0..n {
        unsafe { drop(std::ptr::read(r)) };
    }
}

fn refused<T: Object, D: Dealloc>(r: Ref<T, D>, owners: u64) -> Result<Ref<T, D>, String> {
    match r.try_to_mut_ref() {
        Ok(m) => {
            forget(m);
            Err(format!("exclusive access with {owners} owners"))
        }
        Err(r) => Ok(r),
    }
}

/// Very many references to one value. Exclusive access is asked for at every number of owners where
/// a count kept in fewer bits would look like one (and at all small numbers of owners).
fn counted<M: Manager, T: Object>(c: &mut Case, r: Ref<T, M::Dealloc>, n: u64) -> R {
    let mut stops: Vec<u64> = (1..40).chain([100, 1000, 4097, 100_000]).collect();
    for b in 5..40 {
        stops.extend([(1u64 << b) - 2, (1 << b) - 1, 1 << b, (1 << b) + 1, 3 << b]);
    }
    stops.push(n);
    stops.retain(|&s| s <= n);
    stops.sort();
    stops.dedup();
    let mut r = r;
    let mut others = 0;
    for &s in &stops {
        more(&r, s - others);
        others = s;
        r = refused(r, others + 1)?;
        c.ev("exclusive access refused", 1);
    }
    ensure!(track::live() == 1, "{} blocks live", track::live());
    for &s in stops.iter().rev() {
        fewer(&r, others - s);
        others = s;
        ensure!(
            track::live() == 1,
            "destroyed with {} owners left",
            others + 1
        );
        r = refused(r, others + 1)?;
    }
    fewer(&r, others);
    ensure!(track::live() == 1, "destroyed with one owner left");
    match r.try_to_mut_ref() {
        Ok(m) => drop(m),
        Err(_) => return Err("exclusive access refused to the only owner".into()),
    }
    c.ev("exclusive access given", 1);
    ensure!(track::live() == 0, "{} blocks live", track::live());
    c.ev("references counted", n);
    Ok(())
}

fn m01_count(c: &mut Case) -> R {
    track::reset();
    let n = match (c.tier, c.index) {
        (Tier::Tiny, _) => 300,
        // fast where the compiler joins the steps of a plain count
        (Tier::Quick, 0) if !cfg!(debug_assertions) => (1u64 << 32) + 3,
        (Tier::Thorough, 0..=1) => (1u64 << 32) + 3,
        (_, 0..=1) => (1 << 24) + 3,
        (_, 2..=5) => (1 << 16) + c.rng.below(5) as u64,
        _ => 1 << c.rng.range(4, 15),
    };
    c.sig(n);
    c.sample(|| format!("{n} references to one value"));
    if c.index % 2 == 0 {
        counted::<Track, _>(c, new_string(Track, [1, 2, 3]).to_ref(), n)?;
    } else {
        counted::<TrackA, _>(c, new_string(TrackA, [1, 2, 3]).to_ref(), n)?;
    }
    track::finish()
}

// ------------------------------------------------------------------ shapes

thread_local! {
    static DROPS: Cell<u64> = const { Cell::new(0) };
}

struct Counted(u64);

impl Drop for Counted {
    fn drop(&mut self) {
        DROPS.with(|d| d.set(d.get() + 1));
    }
}

struct CountedHead(Counted, u16);

impl FlexibleArrayHeader for CountedHead {
    fn len(&self) -> usize {
        self.1 as usize
    }
}

/// Chains, wide values and bare generic values released last, per kind.
fn shapes<M: Manager>(c: &mut Case, m: M) -> R {
    let size = if c.tier == Tier::Tiny { 12 } else { 1500 };
    // the last reference to each kind is a generic one
    let before = track::live();
    for k in 0..6 {
        let n = c.rng.below(6);
        let a: Any<M::Dealloc> = match k {
            0 => new_string(m, vec![7u16; n]).to_ref().move_to_any(),
            1 => new_bigint(m, Sign::Positive, vec![7u64; n])
                .to_ref()
                .move_to_any(),
            2 => new_bigint(m, Sign::Negative, vec![7u64; n + 1])
                .to_ref()
                .move_to_any(),
            3 => new_array(
                m,
                (0..n).map(|x| (x as f64).move_to_any()).collect::<Vec<_>>(),
            )
            .to_ref()
            .move_to_any(),
            4 => {
                let key = new_string(m, vec![8u16; n]).to_ref();
                let v: Vec<_> = (0..n)
                    .map(|_| (key.clone(), key.clone().move_to_any()))
                    .collect();
                drop(key);
                new_object(m, v).to_ref().move_to_any()
            }
            _ => {
                let e = new_array(m, []).to_ref();
                let v: Vec<_> = (0..n).map(|_| e.clone().move_to_any()).collect();
                new_array(m, v).to_ref().move_to_any()
            }
        };
        let copies: Vec<_> = (0..c.rng.below(4)).map(|_| a.clone()).collect();
        drop(a);
        if let Some(x) = copies.last() {
            let _ = x.get_type();
            if k != 4 || n > 0 {
                ensure!(
                    track::live() > before,
                    "kind {k} destroyed while referenced"
                );
            }
        }
        drop(copies);
        ensure!(
            track::live() == before,
            "kind {k}: {} blocks remain",
            track::live() - before
        );
    }
    c.ev("generic releases", 6);
    // a long chain of alternating containers
    let n = c.rng.range(1, size);
    let mut a: Any<M::Dealloc> = new_bigint(m, Sign::Negative, [1]).to_ref().move_to_any();
    for i in 0..n {
        a = if i % 2 == 0 {
            new_array(m, [a.clone(), a]).to_ref().move_to_any()
        } else {
            let k = new_string(m, [i as u16]).to_ref();
            new_object(m, [(k, a)]).to_ref().move_to_any()
        };
    }
    let want = before + 1 + n + n / 2;
    ensure!(
        track::live() == want,
        "chain of {n}: {} blocks, not {want}",
        track::live()
    );
    // peel some off, then release the rest
    for _ in 0..c.rng.below(n + 1) {
        a = match a.get_type() {
            nanvm_lib::js::type_::Type::Array => {
                let r: JsArrayRef<M::Dealloc> = a.try_move().map_err(|_| "array refused")?;
                r.items()[1].clone()
            }
            nanvm_lib::js::type_::Type::Object => {
                let r: JsObjectRef<M::Dealloc> = a.try_move().map_err(|_| "object refused")?;
                r.items()[0].1.clone()
            }
            _ => a,
        };
    }
    drop(a);
    ensure!(
        track::live() == before,
        "chain of {n}: {} blocks remain",
        track::live() - before
    );
    c.ev("chains", 1);
    // a wide value of one shared child
    let w = c.rng.size(size * 2);
    let s: JsStringRef<M::Dealloc> = new_string(m, [1, 2]).to_ref();
    let v: Vec<Any<M::Dealloc>> = (0..w).map(|_| s.clone().move_to_any()).collect();
    let arr = new_array(m, v).to_ref();
    let arr2 = arr.clone();
    drop(arr);
    ensure!(
        track::live() == before + 2,
        "wide value: {} blocks",
        track::live() - before
    );
    drop(arr2);
    ensure!(s.items() == [1, 2], "shared child changed");
    match s.try_to_mut_ref() {
        Ok(m) => drop(m),
        Err(_) => return Err(format!("{w} references were not all released")),
    }
    ensure!(
        track::live() == before,
        "wide value: {} blocks remain",
        track::live() - before
    );
    c.ev("wide values", 1);
    // elements and headers of a flexible array, fixed values
    let n = c.rng.below(300);
    DROPS.with(|d| d.set(0));
    let r = m
        .new(CountedHead(Counted(9), n as u16).constructor((0..n as u64).map(Counted)))
        .to_ref();
    let r2 = r.clone();
    drop(r);
    ensure!(
        DROPS.with(|d| d.get()) == 0,
        "elements destroyed while referenced"
    );
    let ok = r2.items().iter().enumerate().all(|(i, x)| x.0 == i as u64) && r2.header.0 .0 == 9;
    ensure!(ok, "elements changed");
    drop(r2);
    let d = DROPS.with(|d| d.get());
    ensure!(d == n as u64 + 1, "{d} of {} elements destroyed", n + 1);
    let r: Ref<FlexibleArray<Counted>, M::Dealloc> = m
        .flexible_array_new((0..n as u64).map(Counted).collect::<Vec<_>>())
        .to_ref();
    drop(r);
    let d = DROPS.with(|d| d.get());
    ensure!(
        d == 2 * n as u64 + 1,
        "{} of {n} elements destroyed",
        d - n as u64 - 1
    );
    DROPS.with(|d| d.set(0));
    drop(m.fixed_new(Counted(1)).to_ref());
    drop(m.fixed_new(Counted(1)));
    drop(m.fixed_new((Counted(1), 5u8)).to_ref());
    let z = m.fixed_new(()).to_ref();
    drop(z.clone());
    drop(z);
    let d = DROPS.with(|d| d.get());
    ensure!(d == 3, "{d} of 3 fixed values destroyed");
    c.ev("flexible and fixed releases", 5);
    c.sig(mix(n as u64) ^ w as u64);
    Ok(())
}

/// Every length of every dimension of a value: shared, partly taken out, released.
fn m01_sizes(c: &mut Case) -> R {
    track::reset();
    let (dim, n) = c.sweep(val::SIZED);
    let g = val::sized(&mut c.rng, dim, n);
    if c.rng.bool() {
        sizes_on(c, Track, &g)?;
    } else {
        sizes_on(c, TrackA, &g)?;
    }
    c.ev("lengths", 1);
    c.sig(mix((dim * 1_000_000 + n) as u64));
    track::finish()
}

fn sizes_on<M: Manager>(c: &mut Case, m: M, g: &val::G) -> R {
    use nanvm_monitor::val::{build, read, same, Cmp};
    let all = Cmp {
        identity: true,
        order: true,
    };
    let before = track::live();
    let a = build(m, g);
    let blocks = track::live() - before;
    let b = a.clone();
    // a child outlives its parent
    let mut children = vec![];
    let pick = (c.rng.below(1 << 16), c.rng.below(4));
    let mut i = 0;
    b.for_each(|_, v| {
        if i % 1024 == pick.0 % 1024 || i < pick.1 {
            children.push(v.clone());
        }
        i += 1;
        Ok::<(), ()>(())
    })
    .map_err(|_| "enumeration stopped")?;
    drop(a);
    ensure!(
        track::live() - before == blocks,
        "{} blocks of {blocks} while referenced",
        track::live() - before
    );
    same(&read(&b), g, all)?;
    let contents: Vec<_> = children.iter().map(read).collect();
    drop(b);
    for (x, y) in children.iter().zip(&contents) {
        same(&read(x), y, all)?;
    }
    drop(children);
    ensure!(
        track::live() == before,
        "{} blocks remain of {blocks}",
        track::live() - before
    );
    Ok(())
}

fn m01_shapes(c: &mut Case) -> R {
    track::reset();
    if c.rng.bool() {
        shapes(c, Track)?;
    } else {
        shapes(c, TrackA)?;
    }
    track::finish()
}

// ------------------------------------------------------------------ M02: small histories, all of them

/// Every sequence of operations of a given length over at most three references.
fn m02_all(c: &mut Case) -> R {
    track::reset();
    if c.index % 2 == 0 {
        all_sequences(c, Track)?;
    } else {
        all_sequences(c, TrackA)?;
    }
    track::finish()
}

fn all_sequences<M: Manager>(c: &mut Case, m: M) -> R {
    enum S<D: nanvm_lib::mem::manager::Dealloc> {
        Ref(JsStringRef<D>),
        Any(Any<D>),
        Mut(nanvm_lib::js::js_string::JsStringMutRef<D>),
    }
    let mut code = c.index / 2;
    c.sig(code);
    c.sample(|| format!("operation sequence {code}"));
    let mut v: Vec<S<M::Dealloc>> = vec![S::Ref(new_string(m, [10, 20]).to_ref())];
    let mut want = [10u16, 20];
    let mut changes = 0;
    for step in 0..8 {
        let op = code % 6;
        code /= 6;
        if v.is_empty() {
            break;
        }
        let last = v.len() - 1;
        match op {
            0 => {
                let x = match &v[0] {
                    S::Ref(r) => S::Ref(r.clone()),
                    S::Any(a) => S::Any(a.clone()),
                    S::Mut(_) => continue,
                };
                v.push(x);
            }
            1 => drop(v.remove(0)),
            2 => {
                let x = v.remove(0);
                v.insert(
                    0,
                    match x {
                        S::Ref(r) => S::Any(r.move_to_any()),
                        S::Any(a) => S::Ref(a.try_move().map_err(|_| "string refused")?),
                        S::Mut(r) => S::Ref(r.to_ref()),
                    },
                );
            }
            3 => v.swap(0, last),
            4 => {
                let n = v.len();
                let x = v.remove(0);
                let x = match x {
                    S::Ref(r) => {
                        let at = &*r as *const _ as usize;
                        match r.try_to_mut_ref() {
                            Ok(r) => {
                                ensure!(n == 1, "step {step}: exclusive access with {n} owners");
                                ensure!(&*r as *const _ as usize == at, "another value given");
                                c.ev("exclusive access given", 1);
                                S::Mut(r)
                            }
                            Err(r) => {
                                ensure!(n > 1, "step {step}: refused to the only owner");
                                ensure!(
                                    &*r as *const _ as usize == at,
                                    "another value handed back"
                                );
                                c.ev("exclusive access refused", 1);
                                S::Ref(r)
                            }
                        }
                    }
                    x => x,
                };
                v.insert(0, x);
            }
            _ => {
                if let S::Mut(r) = &mut v[0] {
                    changes += 1;
                    want[changes % 2] += 1;
                    r.items_mut()[changes % 2] += 1;
                    c.ev("changes in place", 1);
                }
            }
        }
        ensure!(
            track::live() == !v.is_empty() as usize,
            "step {step}: {} blocks",
            track::live()
        );
        for x in &v {
            let ok = match x {
                S::Ref(r) => r.items() == want,
                S::Mut(r) => r.items() == want,
                S::Any(a) => {
                    let b = a.try_ref::<nanvm_lib::js::js_string::JsString>();
                    b.map_err(|_| "string refused")?.object().items() == want
                }
            };
            ensure!(ok, "step {step}: content changed");
        }
    }
    Ok(())
}

/// An arena keeps no counts: exclusive access is always refused, references keep working.
fn m02_arena(c: &mut Case) -> R {
    struct V<'a, 'b>(&'a mut Case<'b>, R);
    impl ArenaVisitor for &mut V<'_, '_> {
        fn visit<M: Manager>(self, m: M) {
            self.1 = arena(self.0, m);
        }
    }
    fn arena<M: Manager>(c: &mut Case, m: M) -> R {
        let n = c.rng.range(1, 8);
        let words: Vec<u16> = (0..n).map(|_| c.rng.u64() as u16).collect();
        c.sig(words.iter().fold(n as u64, |h, w| mix(h ^ *w as u64)));
        let mut v = vec![new_string(m, words.clone()).to_ref()];
        for _ in 0..20 {
            let k = c.rng.below(v.len());
            match c.rng.below(4) {
                0 => {
                    let r = v[k].clone();
                    v.push(r);
                }
                1 if v.len() > 1 => drop(v.swap_remove(k)),
                2 => {
                    let a: Any<M::Dealloc> = v.swap_remove(k).move_to_any();
                    v.push(a.try_move().map_err(|_| "string refused")?);
                }
                _ => {
                    let r = v.swap_remove(k);
                    match r.try_to_mut_ref() {
                        Ok(_) => return Err("an arena gave exclusive access".into()),
                        Err(r) => v.push(r),
                    }
                    c.ev("arena refusals", 1);
                }
            }
            ensure!(v.iter().all(|r| r.items() == words), "content changed");
        }
        Ok(())
    }
    let mut buf = vec![0u8; 1024];
    let mut v = V(c, Ok(()));
    with_arena(&mut buf, &mut v);
    v.1
}

// ------------------------------------------------------------------ M06

/// What happened to each coin.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Coin {
    Unborn,
    Alive,
    Gone(u32),
}

thread_local! {
    static BANK: RefCell<Vec<Coin>> = const { RefCell::new(vec![]) };
    static TAKEN: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
    static NOTHINGS: Cell<i64> = const { Cell::new(0) };
}

fn open_bank() {
    BANK.with(|b| b.borrow_mut().clear());
    TAKEN.with(|b| b.borrow_mut().clear());
    NOTHINGS.with(|n| n.set(0));
}

/// A thing that knows when it is destroyed. Of several sizes.
#[derive(Debug)]
struct Thing<const N: usize> {
    id: u32,
    _pad: [u8; N],
}

impl<const N: usize> Thing<N> {
    fn new() -> Self {
        let id = BANK.with(|b| {
            b.borrow_mut().push(Coin::Alive);
            b.borrow().len() as u32 - 1
        });
        Thing {
            id,
            _pad: [id as u8; N],
        }
    }
    fn whole(&self) -> bool {
        self._pad.iter().all(|b| *b == self.id as u8) && state(self.id) == Coin::Alive
    }
}

fn state(id: u32) -> Coin {
    BANK.with(|b| b.borrow().get(id as usize).copied().unwrap_or(Coin::Unborn))
}

impl<const N: usize> Drop for Thing<N> {
    fn drop(&mut self) {
        let id = self.id as usize;
        BANK.with(|b| {
            if let Some(c) = b.borrow_mut().get_mut(id) {
                *c = match *c {
                    Coin::Gone(n) => Coin::Gone(n + 1),
                    _ => Coin::Gone(1),
                };
            }
        });
    }
}

/// Nothing at all, counted.
#[derive(Debug)]
struct Nothing();

impl Nothing {
    fn new() -> Self {
        NOTHINGS.with(|n| n.set(n.get() + 1));
        Nothing()
    }
}

impl Drop for Nothing {
    fn drop(&mut self) {
        NOTHINGS.with(|n| n.set(n.get() - 1));
    }
}

fn all_gone_once(but: &[u32]) -> R {
    BANK.with(|b| {
        for (i, c) in b.borrow().iter().enumerate() {
            ensure!(
                *c == Coin::Gone(1) || but.contains(&(i as u32)) && *c == Coin::Alive,
                "item {i} at the end: {c:?}"
            );
        }
        Ok(())
    })
}

/// Gives things one by one, and remembers which; can fail on the way.
struct Giver<const N: usize> {
    left: std::vec::IntoIter<Thing<N>>,
    says: usize,
    fails: Option<usize>,
}

impl<const N: usize> Iterator for Giver<N> {
    type Item = Thing<N>;
    fn next(&mut self) -> Option<Thing<N>> {
        if self.fails == Some(0) {
            panic!("giver");
        }
        self.fails = self.fails.map(|n| n - 1);
        let x = self.left.next();
        self.says = self.says.saturating_sub(1);
        if let Some(x) = &x {
            TAKEN.with(|t| t.borrow_mut().push(x.id));
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.says, Some(self.says))
    }
}

impl<const N: usize> ExactSizeIterator for Giver<N> {
    fn len(&self) -> usize {
        self.says
    }
}

/// A header with a thing of its own.
struct Label<const N: usize>(Thing<N>, usize);

impl<const N: usize> FlexibleArrayHeader for Label<N> {
    fn len(&self) -> usize {
        self.1
    }
}

fn in_order<const N: usize>(v: &[Thing<N>], ids: &[u32]) -> R {
    let got: Vec<u32> = v.iter().map(|t| t.id).collect();
    ensure!(got == ids, "items {got:?} instead of {ids:?}");
    ensure!(v.iter().all(|t| t.whole()), "an item is not what it was");
    Ok(())
}

fn built_of<const N: usize, M: Manager>(c: &mut Case, m: M, tiny: bool) -> R {
    let n = c.rng.size(if tiny { 6 } else { 60 });
    built_n::<N, M>(c, m, n)
}

/// Every length.
fn m06_sizes(c: &mut Case) -> R {
    open_bank();
    track::reset();
    let (dim, n) = c.sweep(4);
    c.ev("lengths", 1);
    match dim {
        0 => built_n::<0, _>(c, Track, n)?,
        1 => built_n::<4, _>(c, Track, n)?,
        2 => built_n::<9, _>(c, TrackA, n.min(20_000))?,
        _ => built_n::<60, _>(c, Global(), n.min(20_000))?,
    }
    track::finish()
}

fn built_n<const N: usize, M: Manager>(c: &mut Case, m: M, n: usize) -> R {
    let extra = if c.rng.chance(1, 4) {
        c.rng.below(5)
    } else {
        0
    };
    let things: Vec<Thing<N>> = (0..n + extra).map(|_| Thing::new()).collect();
    let ids: Vec<u32> = things.iter().take(n).map(|t| t.id).collect();
    let giver = Giver {
        left: things.into_iter(),
        says: n,
        fails: None,
    };
    let rest = |taken: usize| -> R {
        TAKEN.with(|t| {
            let t = t.borrow();
            ensure!(
                t.len() >= taken && t[..taken] == ids[..taken],
                "taken: {t:?}"
            );
            Ok(())
        })
    };
    let shared = c.rng.bool();
    if c.rng.bool() {
        let mut r = m.flexible_array_new(giver);
        rest(n)?;
        in_order(r.items(), &ids)?;
        let mut ids = ids.clone();
        if n > 1 {
            let (i, k) = (c.rng.below(n), c.rng.below(n));
            r.items_mut().swap(i, k);
            ids.swap(i, k);
        }
        in_order(r.items(), &ids)?;
        if shared {
            let r = r.to_ref();
            let s = r.clone();
            drop(r);
            in_order(s.items(), &ids)?;
        }
    } else {
        let label = Label(Thing::<N>::new(), n);
        let id = label.0.id;
        let r = m.new(label.constructor(giver));
        rest(n)?;
        in_order(r.items(), &ids)?;
        ensure!(
            r.header.0.id == id && r.header.0.whole(),
            "the header changed"
        );
        ensure!(
            r.header.is_empty() == (n == 0),
            "an array of {n} is empty: {}",
            r.header.is_empty()
        );
        if shared {
            let s = r.to_ref().clone();
            in_order(s.items(), &ids)?;
            ensure!(s.header.0.whole(), "the header changed");
        }
    }
    c.ev("arrays built", 1);
    c.ev("items placed", n as u64);
    c.sample(|| {
        format!(
            "{n} items of {} bytes, the source holds {extra} more",
            size_of::<Thing<N>>()
        )
    });
    c.sig(mix(n as u64) ^ (extra as u64) << 50 ^ (N as u64) << 40);
    all_gone_once(&[])
}

/// The source fails before all items are there: what was placed may stay, nothing is destroyed twice.
fn built_in_part<const N: usize, M: Manager>(c: &mut Case, m: M) -> R {
    let n = 1 + c.rng.size(20);
    let things: Vec<Thing<N>> = (0..n).map(|_| Thing::new()).collect();
    let k = c.rng.below(n);
    let giver = Giver {
        left: things.into_iter(),
        says: n,
        fails: Some(k),
    };
    let r = guarded(|| drop(m.flexible_array_new(giver)));
    ensure!(r.is_err(), "an array of {n} items, of which {k} were given");
    let placed: Vec<u32> = TAKEN.with(|t| t.borrow().clone());
    c.ev("sources that failed", 1);
    c.sig(mix(n as u64) ^ k as u64);
    all_gone_once(&placed)
}

fn fixed_one<const N: usize, M: Manager>(c: &mut Case, m: M) -> R {
    let t = Thing::<N>::new();
    let id = t.id;
    let mut r = m.fixed_new((t, c.rng.u64()));
    ensure!(
        r.0 .0.id == id && r.0 .0.whole(),
        "the value moved in changed"
    );
    let old = std::mem::replace(&mut r.0 .0, Thing::new());
    ensure!(old.id == id && old.whole(), "the value moved out changed");
    drop(old);
    let next = id + 1;
    let s = r.to_ref();
    let more: Vec<_> = (0..c.rng.below(4)).map(|_| s.clone()).collect();
    drop(s);
    ensure!(
        more.is_empty() == (state(next) != Coin::Alive),
        "{} owners, {:?}",
        more.len(),
        state(next)
    );
    drop(more);
    c.ev("single values", 1);
    c.sig(id as u64);
    all_gone_once(&[])
}

fn helpers<const N: usize>(c: &mut Case) -> R {
    // changed in place by a function
    let mut x = (Thing::<N>::new(), 5u64);
    let mut want = (x.0.id, 5u64);
    for _ in 0..c.rng.below(6) {
        let mut calls = 0;
        let how = c.rng.below(4);
        let k = c.rng.u64();
        let mut seen = 0;
        x.modify(|mut v| {
            calls += 1;
            seen = v.0.id;
            match how {
                0 => v,
                1 => (Thing::new(), k),
                2 => {
                    v.1 = k;
                    v
                }
                _ => {
                    // within itself
                    v.1.modify(|n| n ^ k);
                    v.0.modify(|_| Thing::new());
                    v
                }
            }
        });
        ensure!(
            calls == 1 && seen == want.0,
            "{calls} calls with {seen} instead of {}",
            want.0
        );
        match how {
            0 => {}
            1 => want = (BANK.with(|b| b.borrow().len() as u32 - 1), k),
            2 => want.1 = k,
            _ => want = (BANK.with(|b| b.borrow().len() as u32 - 1), want.1 ^ k),
        }
        ensure!(
            (x.0.id, x.1) == want && x.0.whole(),
            "{:?} instead of {want:?}",
            (x.0.id, x.1)
        );
        c.ev("changes by a function", 1);
    }
    drop(x);
    all_gone_once(&[])?;
    // arrays become vectors
    fn cast<const N: usize, const L: usize>() -> R {
        let a: [Thing<N>; L] = std::array::from_fn(|_| Thing::new());
        let ids: Vec<u32> = a.iter().map(|t| t.id).collect();
        let v: Vec<Thing<N>> = a.cast();
        in_order(&v, &ids)
    }
    cast::<N, 0>()?;
    cast::<N, 1>()?;
    cast::<N, 2>()?;
    cast::<N, 3>()?;
    cast::<N, 17>()?;
    if c.rng.chance(1, 8) {
        cast::<N, 64>()?;
        cast::<N, 300>()?;
    }
    c.ev("arrays made vectors", 5);
    let s = BANK.with(|b| b.borrow().len()) as u64;
    c.sig(s ^ want.1);
    all_gone_once(&[])
}

/// Values without a size are counted, too.
fn nothings<M: Manager>(c: &mut Case, m: M) -> R {
    let n = c.rng.size(300);
    let v: Vec<Nothing> = (0..n).map(|_| Nothing::new()).collect();
    let count = || NOTHINGS.with(|n| n.get());
    let r = m.flexible_array_new(v);
    ensure!(
        count() == n as i64 && r.items().len() == n,
        "{} of {n} values without a size",
        count()
    );
    let r = r.to_ref();
    let s = r.clone();
    drop(r);
    ensure!(
        count() == n as i64,
        "{} of {n} values without a size",
        count()
    );
    drop(s);
    ensure!(
        count() == 0,
        "{} of {n} values without a size left",
        count()
    );
    let r = m.fixed_new(Nothing::new());
    ensure!(count() == 1, "one value without a size is {}", count());
    drop(r);
    ensure!(count() == 0, "{} values without a size left", count());
    c.ev("values without a size", n as u64);
    Ok(())
}

/// The constructors of dynamic values take the items of any source in order.
fn sources<M: Manager>(c: &mut Case, m: M) -> R {
    let n = c.rng.size(40);
    let v: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    let k = c.rng.below(n + 1);
    let units: Vec<u16> = v.iter().map(|x| *x as u16).collect();
    let s = match c.rng.below(5) {
        0 => (
            new_string(m, units.iter().rev().copied()),
            units.iter().rev().copied().collect::<Vec<_>>(),
        ),
        1 => (
            new_string(m, units.iter().copied().skip(k)),
            units[k..].to_vec(),
        ),
        2 => (
            new_string(m, units.iter().copied().take(k)),
            units[..k].to_vec(),
        ),
        3 => (
            new_string(m, v.iter().map(|x| (x >> 9) as u16)),
            v.iter().map(|x| (x >> 9) as u16).collect(),
        ),
        _ => (new_string(m, units.clone()), units.clone()),
    };
    ensure!(s.0.items() == s.1, "a string of other units");
    let a = new_array(m, v.iter().map(|x| Any::<M::Dealloc>::move_from(*x as f64)));
    ensure!(
        a.items().len() == n,
        "an array of {} for {n}",
        a.items().len()
    );
    for (x, y) in a.items().iter().zip(&v) {
        ensure!(
            x.clone().try_move::<f64>() == Ok(*y as f64),
            "an array of other items"
        );
    }
    let key = |x: u64| new_string(m, [x as u16]).to_ref();
    let o = new_object(
        m,
        v.iter()
            .rev()
            .map(|x| (key(*x), Any::<M::Dealloc>::move_from(*x as f64)))
            .collect::<Vec<_>>(),
    );
    for ((q, x), y) in o.items().iter().zip(v.iter().rev()) {
        ensure!(
            q.items() == [*y as u16] && x.clone().try_move::<f64>() == Ok(*y as f64),
            "an object of other properties"
        );
    }
    ensure!(
        o.items().len() == n,
        "an object of {} for {n}",
        o.items().len()
    );
    c.ev("sources of dynamic values", 3);
    c.sig(mix(n as u64) ^ k as u64);
    Ok(())
}

fn m06_built(c: &mut Case) -> R {
    open_bank();
    track::reset();
    track::set_fill(c.rng.u64() as u8);
    let tiny = c.tier == Tier::Tiny;
    macro_rules! on {
        ($m:expr) => {
            match c.rng.below(8) {
                0 => built_of::<0, _>(c, $m, tiny)?,
                1 => built_of::<4, _>(c, $m, tiny)?,
                2 => built_of::<9, _>(c, $m, tiny)?,
                3 => built_of::<60, _>(c, $m, tiny)?,
                4 => fixed_one::<4, _>(c, $m)?,
                5 => fixed_one::<25, _>(c, $m)?,
                6 => nothings(c, $m)?,
                _ => sources(c, $m)?,
            }
        };
    }
    match c.rng.below(4) {
        0 => on!(Track),
        1 => on!(TrackA),
        2 => {
            let local: &'static Local = Box::leak(Box::default());
            on!(local);
            ensure!(
                local.size() == 0,
                "{} bytes left in the manager",
                local.size()
            );
        }
        _ => on!(Global()),
    }
    track::finish()
}

fn m06_helpers(c: &mut Case) -> R {
    open_bank();
    match c.rng.below(3) {
        0 => helpers::<0>(c),
        1 => helpers::<4>(c),
        _ => helpers::<33>(c),
    }
}

fn m06_failing(c: &mut Case) -> R {
    open_bank();
    track::reset();
    let r = if c.rng.bool() {
        built_in_part::<4, _>(c, Track)
    } else {
        built_in_part::<17, _>(c, TrackA)
    };
    let v = track::verify();
    // the block of the failed array stays behind
    track::reset();
    r.and(v)
}

fn main() {
    let a = args();
    if a.property == "NONE" {
        println!("READY");
        return;
    }
    let kinds: &[Kind] = match a.property.as_str() {
        "M01" => &[
            kind!(m01_history, 40_000, 2_000_000, 10),
            kind!(m01_sizes, 2_475, 9_900, 0),
            kind!(m01_shapes, 1_500, 60_000, 2),
            kind!(m01_count, 24, 40, 2),
        ],
        "M02" => &[
            kind!(m02_history, 40_000, 2_000_000, 8),
            // 6^8 sequences, twice: all of them in the thorough tier
            kind!(m02_all, 400_000, 3_359_232, 60),
            kind!(m02_arena, 4_000, 200_000, 3),
            kind!(m01_count, 24, 40, 2),
        ],
        "M06" => &[
            kind!(m06_built, 400_000, 20_000_000, 24),
            kind!(m06_sizes, 660, 6_600, 0),
            kind!(m06_helpers, 40_000, 1_000_000, 6),
            // what stays behind would be a leak for the interpreter
            kind!(m06_failing, 20_000, 1_000_000, 0),
        ],
        p => panic!("unknown property {p}"),
    };
    drive(&a, kinds);
}

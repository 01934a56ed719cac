//! M05: atomically counted values under threads.
use nanvm_lib::{
    js::{
        any::Any, any_cast::AnyCast, js_array::JsArray, js_array::JsArrayRef, js_bigint::JsBigint,
        js_object::JsObject, js_object::JsObjectRef, js_string::JsString, js_string::JsStringRef,
        type_::Type,
    },
    mem::{
        local::Local,
        manager::{Dealloc, Manager},
        object::Object,
        ref_::Ref,
    },
};
use nanvm_monitor::{
    ensure, kind,
    run::{args, drive, mix, Case, Kind, Rng, Tier, R},
    val::{build, gen_graph, gen_shape, Opt, DATA, G, V},
};
use std::{
    alloc::Layout,
    collections::HashMap,
    sync::{
        atomic::{AtomicIsize, AtomicU64, AtomicUsize, Ordering::*},
        Barrier, Mutex,
    },
    thread,
};

const MIRI: bool = cfg!(miri);

// ------------------------------------------------------------------ the manager

/// Atomic counters; keeps a record of its blocks that all threads share. (The interpreter keeps its own, and
/// the lock would order the threads where the code under test does not.)
#[derive(Debug, Clone, Copy)]
struct Shared;

static LIVE: AtomicIsize = AtomicIsize::new(0);
static BLOCKS: Mutex<Option<Blocks>> = Mutex::new(None);

#[derive(Default)]
struct Blocks {
    live: HashMap<usize, Layout>,
    /// Released, poisoned, not yet returned.
    dead: HashMap<usize, Layout>,
    errors: Vec<String>,
}

const POISON: u8 = 0xEE;

fn blocks<T>(f: impl FnOnce(&mut Blocks) -> T) -> T {
    let mut b = BLOCKS.lock().unwrap_or_else(|e| e.into_inner());
    f(b.get_or_insert_with(Blocks::default))
}

impl Dealloc for Shared {
    type BlockHeader = AtomicIsize;
    unsafe fn dealloc(p: *mut u8, layout: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        if MIRI {
            return std::alloc::dealloc(p, layout);
        }
        blocks(|b| match b.live.remove(&(p as usize)) {
            Some(l) => {
                if l != layout {
                    b.errors
                        .push(format!("allocated with {l:?}, released with {layout:?}"));
                }
                std::ptr::write_bytes(p, POISON, l.size());
                b.dead.insert(p as usize, l);
            }
            None => {
                let e = if b.dead.contains_key(&(p as usize)) {
                    "released twice"
                } else {
                    "never allocated"
                };
                b.errors.push(format!("block of {layout:?} {e}"));
            }
        })
    }
}

impl Manager for Shared {
    type Dealloc = Shared;
    unsafe fn alloc(self, layout: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        let p = std::alloc::alloc(layout);
        if !MIRI {
            blocks(|b| b.live.insert(p as usize, layout));
        }
        p
    }
}

/// After a case: everything returned, nothing written after its release.
fn settle() -> R {
    let live = LIVE.swap(0, Relaxed);
    let (errors, kept) = if MIRI {
        (vec![], 0)
    } else {
        blocks(|b| {
            let mut errors = std::mem::take(&mut b.errors);
            for (p, l) in b.dead.drain() {
                let s = unsafe { std::slice::from_raw_parts(p as *const u8, l.size()) };
                if s.iter().any(|x| *x != POISON) {
                    errors.push(format!("a block of {l:?} was written after its release"));
                }
                unsafe { std::alloc::dealloc(p as *mut u8, l) };
            }
            let kept = b.live.len();
            b.live.clear();
            (errors, kept)
        })
    };
    if let Some(e) = errors.first() {
        return Err(e.clone());
    }
    ensure!(
        live == 0 && kept == 0,
        "{live} blocks remain after the last reference"
    );
    Ok(())
}

struct Sendable<T>(T);
unsafe impl<T> Send for Sendable<T> {}
unsafe impl<T> Sync for Sendable<T> {}

impl<T> Sendable<T> {
    fn get(self) -> T {
        self.0
    }
}

// ------------------------------------------------------------------ the content

const K: u64 = 0x5bd1_e995_1234_5678;

/// What a case watches from outside the values.
#[derive(Default)]
struct Watch {
    destroyed: AtomicUsize,
    clock: AtomicU64,
    destroyed_at: AtomicU64,
    torn: AtomicUsize,
    uses: AtomicU64,
    exclusive: AtomicU64,
    refused: AtomicU64,
    clones: AtomicU64,
}

/// Two words that belong together, written one after the other.
struct Payload {
    a: u64,
    b: u64,
    watch: *const Watch,
}

impl Payload {
    fn new(a: u64, watch: &Watch) -> Payload {
        Payload { a, b: a ^ K, watch }
    }
    fn good(&self) -> R {
        let a = unsafe { std::ptr::read_volatile(&self.a) };
        if !MIRI {
            std::hint::spin_loop();
        }
        let b = unsafe { std::ptr::read_volatile(&self.b) };
        ensure!(
            a ^ K == b,
            "a reader sees a value destroyed or half written: {a:x} {b:x}"
        );
        Ok(())
    }
    fn put(&mut self, a: u64) {
        unsafe {
            std::ptr::write_volatile(&mut self.a, a);
            if !MIRI {
                for _ in 0..a % 30 {
                    std::hint::spin_loop();
                }
            }
            std::ptr::write_volatile(&mut self.b, a ^ K);
        }
    }
}

impl Drop for Payload {
    fn drop(&mut self) {
        let w = unsafe { &*self.watch };
        if self.good().is_err() {
            w.torn.fetch_add(1, Relaxed);
        }
        w.destroyed.fetch_add(1, Relaxed);
        if !MIRI {
            w.destroyed_at
                .fetch_max(w.clock.fetch_add(1, SeqCst), SeqCst);
        }
        self.a = !0;
        self.b = 0;
    }
}

// ------------------------------------------------------------------ one value, many threads

#[derive(Clone, Copy)]
enum Plan {
    /// Clone, read, drop, ask for exclusive access.
    Storm,
    /// Read and leave: the last one destroys.
    Farewell,
    /// All but one leave; the one waits for exclusive access.
    Heir,
    /// Nothing but clone and drop, as fast as possible.
    Hammer,
}

struct Job<'a, O: Object, D: Dealloc> {
    mine: Vec<Ref<O, D>>,
    rng: Rng,
    watch: &'a Watch,
    steps: usize,
    heir: bool,
    last_use: u64,
}

impl<O: Object, D: Dealloc> Job<'_, O, D> {
    fn stamp(&mut self) {
        if !MIRI {
            self.last_use = self.watch.clock.fetch_add(1, SeqCst);
        }
        self.watch.uses.fetch_add(1, Relaxed);
    }
    fn ask(&mut self, check: &dyn Fn(&O) -> R, put: &dyn Fn(&mut O, u64)) -> Result<bool, String> {
        let r = self.mine.pop().unwrap();
        match r.try_to_mut_ref() {
            Ok(mut m) => {
                ensure!(
                    self.mine.is_empty(),
                    "exclusive access given beside another reference of this thread"
                );
                for _ in 0..self.rng.range(1, 3) {
                    check(&m)?;
                    put(&mut m, self.rng.u64());
                }
                check(&m)?;
                self.watch.exclusive.fetch_add(1, Relaxed);
                self.mine.push(m.to_ref());
                Ok(true)
            }
            Err(r) => {
                self.mine.push(r);
                self.watch.refused.fetch_add(1, Relaxed);
                Ok(false)
            }
        }
    }
    fn run(
        mut self,
        plan: Plan,
        check: &dyn Fn(&O) -> R,
        put: &dyn Fn(&mut O, u64),
        others: &AtomicUsize,
    ) -> Result<u64, String> {
        match plan {
            Plan::Storm => {
                for _ in 0..self.steps {
                    if self.mine.is_empty() {
                        break;
                    }
                    let i = self.rng.below(self.mine.len());
                    match self.rng.below(10) {
                        0..=2 if self.mine.len() < 6 => {
                            let r = self.mine[i].clone();
                            self.watch.clones.fetch_add(1, Relaxed);
                            self.mine.push(r)
                        }
                        3..=5 if self.mine.len() > 1 || self.rng.chance(1, 20) => {
                            drop(self.mine.swap_remove(i))
                        }
                        6 | 7 => {
                            self.ask(check, put)?;
                        }
                        8 if !MIRI => thread::yield_now(),
                        _ => {
                            check(&self.mine[i])?;
                            self.stamp();
                        }
                    }
                }
            }
            Plan::Farewell => {
                for r in &self.mine {
                    check(r)?;
                }
                self.stamp();
            }
            Plan::Heir if self.heir => {
                // the others leave without a word
                let mut refused = 0;
                loop {
                    // (relaxed in the interpreter: it must not order the threads)
                    let alone = others.load(if MIRI { Relaxed } else { SeqCst }) == 0;
                    while self.mine.len() > 1 {
                        self.mine.pop();
                    }
                    if self.ask(check, put)? {
                        break;
                    }
                    // nothing orders their leaving before this look in the interpreter: it may come late
                    refused += alone as usize;
                    ensure!(
                        refused <= if MIRI { 2000 } else { 0 },
                        "exclusive access refused to the only reference"
                    );
                    thread::yield_now();
                }
                check(&self.mine[0])?;
                self.stamp();
            }
            Plan::Heir => {
                for r in &self.mine {
                    check(r)?;
                }
                self.stamp();
            }
            Plan::Hammer => {
                for _ in 0..self.steps {
                    let r = self.mine[0].clone();
                    let s = r.clone();
                    drop(r);
                    drop(s);
                }
                self.watch.clones.fetch_add(2 * self.steps as u64, Relaxed);
                check(&self.mine[0])?;
                self.stamp();
            }
        }
        while !self.mine.is_empty() {
            let i = self.rng.below(self.mine.len());
            drop(self.mine.swap_remove(i));
        }
        others.fetch_sub(1, if MIRI { Relaxed } else { SeqCst });
        Ok(self.last_use)
    }
}

/// Runs threads over one value. `keep`: the calling thread's reference goes last.
fn together<O: Object, D: Dealloc>(
    c: &mut Case,
    first: Ref<O, D>,
    watch: &Watch,
    parts: usize,
    keep: bool,
    check: impl Fn(&O) -> R,
    put: impl Fn(&mut O, u64),
) -> R {
    let plan = *c.rng.pick(&[
        Plan::Storm,
        Plan::Storm,
        Plan::Farewell,
        Plan::Heir,
        Plan::Hammer,
    ]);
    let n = if MIRI {
        c.rng.range(2, 3)
    } else {
        c.rng.range(2, 6)
    };
    let steps = match (plan, MIRI) {
        (Plan::Hammer, false) => c.rng.range(100, 3000),
        (_, false) => c.rng.range(5, 200),
        (Plan::Hammer, true) => 3,
        (_, true) => c.rng.range(2, 8),
    };
    let heir = c.rng.below(n);
    let mut jobs = vec![];
    for i in 0..n {
        let k = if matches!(plan, Plan::Heir | Plan::Hammer) {
            1
        } else {
            c.rng.range(1, 3)
        };
        let mine = (0..k).map(|_| first.clone()).collect();
        jobs.push(Job {
            mine,
            rng: Rng::new(c.rng.u64()),
            watch,
            steps,
            heir: i == heir,
            last_use: 0,
        });
    }
    // who is there besides the heir
    let others = AtomicUsize::new(n - 1 + keep as usize);
    let kept = if keep {
        Some(first)
    } else {
        drop(first);
        None
    };
    let heirs = if keep {
        matches!(plan, Plan::Heir)
    } else {
        false
    };
    let start = Barrier::new(n);
    let check = Sendable(&check as &dyn Fn(&O) -> R);
    let put = Sendable(&put as &dyn Fn(&mut O, u64));
    let slow = !MIRI && c.rng.chance(1, 3);
    let mut results = vec![];
    let mut kept = Sendable(kept);
    thread::scope(|s| {
        let (check, put, others, start) = (&check, &put, &others, &start);
        let hs: Vec<_> = jobs
            .into_iter()
            .map(|j| {
                let j = Sendable(j);
                s.spawn(move || {
                    let j = j.get();
                    if !MIRI && !slow {
                        start.wait();
                    }
                    j.run(plan, check.0, put.0, others)
                })
            })
            .collect();
        if heirs {
            // an heir needs this one to go, too
            kept.0 = None;
            others.fetch_sub(1, if MIRI { Relaxed } else { SeqCst });
        }
        for h in hs {
            results.push(h.join().unwrap_or_else(|_| Err("a thread panicked".into())));
        }
    });
    let mut last = 0;
    for r in results {
        last = last.max(r?);
    }
    if let Some(r) = kept.get() {
        ensure!(
            watch.destroyed.load(SeqCst) == 0,
            "destroyed while a reference remains"
        );
        (check.0)(&r)?;
        // all others are gone: it is exclusive
        match r.try_to_mut_ref() {
            Ok(mut m) => {
                (put.0)(&mut m, 42);
                (check.0)(&m)?;
                watch.exclusive.fetch_add(1, Relaxed);
            }
            Err(_) => {
                return Err(
                    "exclusive access refused to the last reference after all threads ended".into(),
                )
            }
        }
    } else if !MIRI && parts > 0 {
        let at = watch.destroyed_at.load(SeqCst);
        ensure!(at >= last, "destroyed at {at}, used at {last}");
    }
    let d = watch.destroyed.load(SeqCst);
    ensure!(d == parts, "{d} parts destroyed of {parts}");
    ensure!(
        watch.torn.load(SeqCst) == 0,
        "a part was destroyed while damaged"
    );
    c.ev("threads", n as u64);
    c.ev("uses", watch.uses.load(SeqCst));
    c.ev("references cloned by threads", watch.clones.load(SeqCst));
    c.ev("exclusive access given", watch.exclusive.load(SeqCst));
    c.ev("exclusive access refused", watch.refused.load(SeqCst));
    c.ev(
        match plan {
            Plan::Storm => "storms",
            Plan::Farewell => "farewells",
            Plan::Heir => "heirs",
            Plan::Hammer => "hammers",
        },
        1,
    );
    let h = mix(n as u64 ^ (steps as u64) << 8 ^ c.seed);
    c.sig(h);
    c.sample(|| format!("{n} threads, {steps} steps, {last} the last use"));
    Ok(())
}

fn m05_fixed(c: &mut Case) -> R {
    let r = fixed(c);
    let s = settle();
    r.and(s)
}

fn fixed(c: &mut Case) -> R {
    let w = Watch::default();
    let r = Shared.fixed_new(Payload::new(c.rng.u64(), &w)).to_ref();
    let keep = c.rng.chance(1, 3);
    together(c, r, &w, 1, keep, |o| o.0.good(), |o, x| o.0.put(x))
}

fn m05_array(c: &mut Case) -> R {
    let r = array(c);
    let s = settle();
    r.and(s)
}

fn array(c: &mut Case) -> R {
    let w = Watch::default();
    let n = c.rng.range(0, 5);
    let seed = c.rng.u64();
    let r = Shared
        .flexible_array_new((0..n).map(|i| Payload::new(mix(seed + i as u64), &w)))
        .to_ref();
    let keep = c.rng.chance(1, 3);
    let check = |o: &nanvm_lib::mem::flexible_array::FlexibleArray<Payload>| {
        ensure!(o.items().len() == n, "length changed");
        o.items().iter().try_for_each(|x| x.good())
    };
    together(c, r, &w, n, keep, check, |o, x| {
        o.items_mut().iter_mut().for_each(|p| p.put(x))
    })
}

/// The counting manager has atomic counters: threads may share its values while the owner's thread keeps one.
fn m05_local(c: &mut Case) -> R {
    let l = Local::default();
    let w = Watch::default();
    let r = (&l).fixed_new(Payload::new(c.rng.u64(), &w)).to_ref();
    // the owner keeps a reference until the others ended
    let kept = r.clone();
    let before = l.size();
    {
        let n = if MIRI { 2 } else { c.rng.range(2, 6) };
        let steps = if MIRI { 3 } else { c.rng.range(10, 2000) };
        let mut rs = vec![];
        for _ in 0..n {
            rs.push(Sendable(r.clone()));
        }
        let mut res = vec![];
        thread::scope(|s| {
            let hs: Vec<_> = rs
                .into_iter()
                .map(|x| {
                    s.spawn(move || -> R {
                        let x = x.get();
                        for _ in 0..steps {
                            let y = x.clone();
                            y.0.good()?;
                            match y.try_to_mut_ref() {
                                Ok(_) => {
                                    return Err("exclusive access given to a shared value".into())
                                }
                                Err(y) => drop(y),
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            for h in hs {
                res.push(h.join().unwrap_or_else(|_| Err("a thread panicked".into())));
            }
        });
        for r in res {
            r?;
        }
        c.ev("threads", n as u64);
        c.ev("references cloned by threads", (n * steps) as u64);
    }
    drop(r);
    ensure!(
        l.size() == before && w.destroyed.load(SeqCst) == 0,
        "released while a reference remains"
    );
    kept.0.good()?;
    let m = kept
        .try_to_mut_ref()
        .map_err(|_| "exclusive access refused to the last reference")?;
    drop(m);
    ensure!(
        w.destroyed.load(SeqCst) == 1,
        "destroyed {} times",
        w.destroyed.load(SeqCst)
    );
    ensure!(l.size() == 0, "{} bytes remain", l.size());
    c.ev("values of the counting manager", 1);
    let h = c.seed;
    c.sig(h);
    Ok(())
}

// ------------------------------------------------------------------ graphs of dynamic values

/// The content of one node against the model.
fn shallow(a: &Any<Shared>, g: &G, id: usize) -> R {
    let ok = match (&g.nodes[id], a.get_type()) {
        (V::Num(b), Type::Number) => a.clone().try_move::<f64>().map(|x| x.to_bits()) == Ok(*b),
        (V::Bool(b), Type::Bool) => a.clone().try_move::<bool>() == Ok(*b),
        (V::Null, Type::Null) => true,
        (V::Str(s), Type::String) => a.try_ref::<JsString>().unwrap().object().items() == s,
        (V::Big(_, w), Type::Bigint) => a.try_ref::<JsBigint>().unwrap().object().items() == w,
        (V::Arr(v), Type::Array) => {
            a.try_ref::<JsArray<Shared>>()
                .unwrap()
                .object()
                .items()
                .len()
                == v.len()
        }
        (V::Obj(v), Type::Object) => {
            let o = a.try_ref::<JsObject<Shared>>().unwrap().object().items();
            o.len() == v.len() && o.iter().zip(v).all(|(x, y)| x.0.items() == y.0)
        }
        _ => false,
    };
    ensure!(
        ok,
        "a thread sees a damaged value (kind {:?} for node {id})",
        a.get_type() as u8
    );
    Ok(())
}

fn child(a: &Any<Shared>, i: usize) -> Option<Any<Shared>> {
    match a.get_type() {
        Type::Array => a
            .try_ref::<JsArray<Shared>>()
            .unwrap()
            .object()
            .items()
            .get(i)
            .cloned(),
        Type::Object => a
            .try_ref::<JsObject<Shared>>()
            .unwrap()
            .object()
            .items()
            .get(i)
            .map(|x| x.1.clone()),
        _ => None,
    }
}

fn roam(
    mut mine: Vec<(Any<Shared>, usize)>,
    g: &G,
    rng: &mut Rng,
    steps: usize,
) -> Result<u64, String> {
    let mut n = 0;
    for _ in 0..steps {
        if mine.is_empty() {
            break;
        }
        let i = rng.below(mine.len());
        match rng.below(8) {
            0 if mine.len() < 12 => {
                let x = (mine[i].0.clone(), mine[i].1);
                mine.push(x)
            }
            1 | 2 if mine.len() > 1 || rng.chance(1, 10) => drop(mine.swap_remove(i)),
            3 | 4 => {
                // down into the value; perhaps leaving the parent
                let kids = g.children(mine[i].1);
                if !kids.is_empty() {
                    let k = rng.below(kids.len());
                    let x = child(&mine[i].0, k).ok_or("a child is missing")?;
                    if rng.bool() {
                        mine[i] = (x, kids[k]);
                    } else {
                        mine.push((x, kids[k]));
                    }
                }
            }
            5 => {
                // out of the generic value and back
                let (a, id) = mine.swap_remove(i);
                let a = match a.get_type() {
                    Type::Array => a
                        .try_move::<JsArrayRef<Shared>>()
                        .map_err(|_| "array refused")?
                        .move_to_any(),
                    Type::Object => a
                        .try_move::<JsObjectRef<Shared>>()
                        .map_err(|_| "object refused")?
                        .move_to_any(),
                    Type::String => {
                        let r = a
                            .try_move::<JsStringRef<Shared>>()
                            .map_err(|_| "string refused")?;
                        match r.try_to_mut_ref() {
                            Ok(m) => m.to_ref().move_to_any(),
                            Err(r) => r.move_to_any(),
                        }
                    }
                    _ => a,
                };
                mine.push((a, id));
            }
            _ => {
                shallow(&mine[i].0, g, mine[i].1)?;
                n += 1;
            }
        }
    }
    while !mine.is_empty() {
        let i = rng.below(mine.len());
        drop(mine.swap_remove(i));
    }
    Ok(n)
}

fn m05_graph(c: &mut Case) -> R {
    let r = graph(c);
    let s = settle();
    r.and(s)
}

fn graph(c: &mut Case) -> R {
    let o = Opt {
        nodes: if MIRI { 5 } else { *c.rng.pick(&[6, 20, 60]) },
        ..DATA
    };
    let g = if !MIRI && c.rng.chance(1, 4) {
        gen_shape(&mut c.rng, &o, 10)
    } else {
        gen_graph(&mut c.rng, &o)
    };
    let a: Any<Shared> = build(Shared, &g);
    let n = if MIRI { 2 } else { c.rng.range(2, 6) };
    let steps = if MIRI { 6 } else { c.rng.range(5, 300) };
    let mut jobs = vec![];
    for _ in 0..n {
        let k = c.rng.range(1, 3);
        let mine: Vec<_> = (0..k).map(|_| (a.clone(), g.root)).collect();
        jobs.push((Sendable(mine), Rng::new(c.rng.u64())));
    }
    drop(a);
    let start = Barrier::new(n);
    let mut res = vec![];
    thread::scope(|s| {
        let (g, start) = (&g, &start);
        let hs: Vec<_> = jobs
            .into_iter()
            .map(|(m, mut rng)| {
                s.spawn(move || {
                    let m = m.get();
                    if !MIRI {
                        start.wait();
                    }
                    roam(m, g, &mut rng, steps)
                })
            })
            .collect();
        for h in hs {
            res.push(h.join().unwrap_or_else(|_| Err("a thread panicked".into())));
        }
    });
    let mut uses = 0;
    for r in res {
        uses += r?;
    }
    c.ev("threads", n as u64);
    c.ev("uses", uses);
    c.ev("graphs of dynamic values", 1);
    c.sig(g.hash());
    Ok(())
}

fn main() {
    let a = args();
    if a.property == "NONE" {
        println!("READY");
        return;
    }
    let _ = Tier::Tiny;
    let kinds: &[Kind] = match a.property.as_str() {
        "M05" => &[
            kind!(m05_fixed, 16_000, 600_000, 6),
            kind!(m05_array, 10_000, 400_000, 3),
            kind!(m05_local, 3_000, 100_000, 1),
            kind!(m05_graph, 12_000, 500_000, 3),
        ],
        p => panic!("unknown property {p}"),
    };
    drive(&a, kinds);
}

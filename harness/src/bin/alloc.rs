//! M04: values are placed in bounds, aligned, apart from each other; what cannot be placed is refused.
use nanvm_lib::{
    js::any::Any,
    mem::{
        arena_hook::{with_arena, ArenaVisitor},
        flexible_array::{header::FlexibleArrayHeader, FlexibleArray},
        global::GLOBAL,
        local::Local,
        manager::{Dealloc, Manager},
        mut_ref::MutRef,
        object::Object,
        ref_::Ref,
    },
    parser::shared::ModuleCache,
    serializer::to_djs::to_djs,
};
use nanvm_monitor::{
    ensure,
    galloc::{self, Ledger},
    io::MemIo,
    kind,
    run::{args, drive, guarded, mix, Case, Kind, Rng, Tier, R},
    sys::{any_how, read_text},
    text::{write_module, Style, LOOSE},
    track::{self, Track},
    val::{build, gen_graph, read, same, Cmp, Opt, DATA},
};
use std::{
    alloc::Layout,
    io::Write,
    marker::PhantomData,
    mem::{align_of, size_of},
    os::unix::process::ExitStatusExt,
    process::{Command, Stdio},
};

#[global_allocator]
static LEDGER: Ledger = Ledger;

// ------------------------------------------------------------------ what is stored

/// Something with content that can be made from a number, and recognized.
trait Pat: Sized {
    fn make(seed: u64) -> Self;
    fn good(&self, seed: u64) -> bool;
}

fn byte(seed: u64, i: usize) -> u8 {
    mix(seed ^ (i as u64) << 40) as u8
}

macro_rules! shape {
    ($name:ident, $align:literal) => {
        #[repr(C, align($align))]
        struct $name<const N: usize>([u8; N]);
        impl<const N: usize> Pat for $name<N> {
            fn make(seed: u64) -> Self {
                $name(std::array::from_fn(|i| byte(seed, i)))
            }
            fn good(&self, seed: u64) -> bool {
                self.0.iter().enumerate().all(|(i, b)| *b == byte(seed, i))
            }
        }
    };
}

shape!(A1, 1);
shape!(A2, 2);
shape!(A4, 4);
shape!(A8, 8);
shape!(A16, 16);
shape!(A32, 32);
shape!(A64, 64);
shape!(A256, 256);
shape!(A4096, 4096);

macro_rules! integer {
    ($($t:ty),*) => { $(impl Pat for $t {
        fn make(seed: u64) -> Self {
            ((mix(seed) as u128) << 64 | mix(!seed) as u128) as $t
        }
        fn good(&self, seed: u64) -> bool {
            *self == Self::make(seed)
        }
    })* };
}

integer!(u8, u16, u32, u64, u128);

/// A header of its own layout: a length and something else.
#[repr(C)]
struct Hd<L: Copy, P: Pat> {
    len: L,
    more: P,
}

trait Len: Copy {
    fn of(n: usize) -> Self;
    fn get(self) -> usize;
}

macro_rules! length {
    ($($t:ty),*) => { $(impl Len for $t {
        fn of(n: usize) -> Self { n as $t }
        fn get(self) -> usize { self as usize }
    })* };
}

length!(u8, u16, u32, usize);

impl<L: Len, P: Pat> FlexibleArrayHeader for Hd<L, P> {
    fn len(&self) -> usize {
        self.len.get()
    }
}

trait Header: FlexibleArrayHeader {
    const MOST: usize;
    fn build(n: usize, seed: u64) -> Self;
    fn fine(&self, n: usize, seed: u64) -> bool;
}

impl Header for usize {
    const MOST: usize = usize::MAX;
    fn build(n: usize, _: u64) -> Self {
        n
    }
    fn fine(&self, n: usize, _: u64) -> bool {
        *self == n
    }
}

impl<L: Len, P: Pat> Header for Hd<L, P> {
    const MOST: usize = if size_of::<L>() == 8 {
        usize::MAX
    } else {
        (1 << (8 * size_of::<L>())) - 1
    };
    fn build(n: usize, seed: u64) -> Self {
        Hd {
            len: L::of(n),
            more: P::make(!seed),
        }
    }
    fn fine(&self, n: usize, seed: u64) -> bool {
        self.len.get() == n && self.more.good(!seed)
    }
}

// ------------------------------------------------------------------ what is alive

#[derive(Clone, Copy, Debug)]
struct Extent {
    start: usize,
    end: usize,
    align: usize,
}

/// A live value of whatever type.
trait Held {
    fn name(&self) -> &'static str;
    fn extent(&self) -> Extent;
    /// Where the parts begin and how they must be aligned.
    fn parts(&self) -> Vec<(usize, usize)>;
    fn good(&self) -> bool;
    /// New content, if the value has a single owner.
    fn rewrite(&mut self, seed: u64) -> bool;
    fn share(&mut self);
    /// Drops a reference but the last.
    fn release(&mut self) -> bool;
    fn exclusive(&mut self) -> Option<bool>;
    fn owners(&self) -> usize;
}

enum Own<T: Object, D: Dealloc> {
    Mut(Option<MutRef<T, D>>),
    Refs(Vec<Ref<T, D>>),
}

impl<T: Object, D: Dealloc> Own<T, D> {
    fn get(&self) -> &T {
        match self {
            Own::Mut(m) => m.as_ref().unwrap(),
            Own::Refs(v) => &v[0],
        }
    }
    fn get_mut(&mut self) -> Option<&mut T> {
        match self {
            Own::Mut(m) => Some(m.as_mut().unwrap()),
            Own::Refs(_) => None,
        }
    }
    fn share(&mut self) {
        match self {
            Own::Mut(m) => *self = Own::Refs(vec![m.take().unwrap().to_ref()]),
            Own::Refs(v) => {
                let r = v[v.len() - 1].clone();
                v.push(r)
            }
        }
    }
    fn release(&mut self) -> bool {
        match self {
            Own::Refs(v) if v.len() > 1 => {
                let n = v.len() / 2;
                v.swap_remove(n);
                true
            }
            _ => false,
        }
    }
    fn exclusive(&mut self) -> Option<bool> {
        match self {
            Own::Refs(v) => {
                let r = v.pop().unwrap();
                match r.try_to_mut_ref() {
                    Ok(m) => {
                        if v.is_empty() {
                            *self = Own::Mut(Some(m));
                        }
                        Some(true)
                    }
                    Err(r) => {
                        v.push(r);
                        Some(false)
                    }
                }
            }
            _ => None,
        }
    }
    fn owners(&self) -> usize {
        match self {
            Own::Mut(_) => 1,
            Own::Refs(v) => v.len(),
        }
    }
}

struct Flex<H: Header, T: Pat, D: Dealloc> {
    own: Own<FlexibleArray<T, H>, D>,
    n: usize,
    seed: u64,
}

macro_rules! forward {
    () => {
        fn share(&mut self) {
            self.own.share()
        }
        fn release(&mut self) -> bool {
            self.own.release()
        }
        fn exclusive(&mut self) -> Option<bool> {
            self.own.exclusive()
        }
        fn owners(&self) -> usize {
            self.own.owners()
        }
    };
}

fn item(seed: u64, i: usize) -> u64 {
    mix(seed.wrapping_add(i as u64 * 77))
}

impl<H: Header, T: Pat, D: Dealloc> Held for Flex<H, T, D> {
    fn name(&self) -> &'static str {
        std::any::type_name::<FlexibleArray<T, H>>()
    }
    fn extent(&self) -> Extent {
        let o = self.own.get();
        let start = o as *const _ as usize;
        let items = o.items().as_ptr() as usize;
        let end = items.wrapping_add(o.items().len().wrapping_mul(size_of::<T>()));
        Extent {
            start,
            end: end.max(start + size_of::<H>()),
            align: align_of::<H>().max(align_of::<T>()),
        }
    }
    fn parts(&self) -> Vec<(usize, usize)> {
        let o = self.own.get();
        vec![
            (&o.header as *const _ as usize, align_of::<H>()),
            (o.items().as_ptr() as usize, align_of::<T>()),
        ]
    }
    fn good(&self) -> bool {
        let o = self.own.get();
        o.header.fine(self.n, self.seed)
            && o.items().len() == self.n
            && o.items()
                .iter()
                .enumerate()
                .all(|(i, x)| x.good(item(self.seed, i)))
            && (size_of::<T>() == 0
                || o.items().as_ptr() as usize >= &o.header as *const _ as usize + size_of::<H>()
                || self.n == 0)
    }
    fn rewrite(&mut self, seed: u64) -> bool {
        let n = self.n;
        match self.own.get_mut() {
            Some(o) => {
                o.header = H::build(n, seed);
                for (i, x) in o.items_mut().iter_mut().enumerate() {
                    *x = T::make(item(seed, i));
                }
                self.seed = seed;
                true
            }
            None => false,
        }
    }
    forward!();
}

struct Fix<T: Pat, O: Object, D: Dealloc, F: Fn(&O) -> &T, W: Fn(&mut O) -> &mut T> {
    own: Own<O, D>,
    seed: u64,
    f: F,
    w: W,
}

impl<T: Pat, O: Object, D: Dealloc, F: Fn(&O) -> &T, W: Fn(&mut O) -> &mut T> Held
    for Fix<T, O, D, F, W>
{
    fn name(&self) -> &'static str {
        std::any::type_name::<T>()
    }
    fn extent(&self) -> Extent {
        let start = (self.f)(self.own.get()) as *const _ as usize;
        Extent {
            start,
            end: start + size_of::<T>(),
            align: align_of::<T>(),
        }
    }
    fn parts(&self) -> Vec<(usize, usize)> {
        vec![(
            (self.f)(self.own.get()) as *const _ as usize,
            align_of::<T>(),
        )]
    }
    fn good(&self) -> bool {
        (self.f)(self.own.get()).good(self.seed)
    }
    fn rewrite(&mut self, seed: u64) -> bool {
        match self.own.get_mut() {
            Some(o) => {
                *(self.w)(o) = T::make(seed);
                self.seed = seed;
                true
            }
            None => false,
        }
    }
    forward!();
}

// ------------------------------------------------------------------ how it is made

/// The space a value takes by itself.
struct Space {
    size: u128,
    align: usize,
}

fn up(n: u128, a: usize) -> u128 {
    let a = a as u128;
    (n + a - 1) / a * a
}

/// Pretends to have that many items; must never be asked for one.
struct Never<T>(usize, PhantomData<T>);

impl<T> Iterator for Never<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        println!("YIELDED");
        std::io::stdout().flush().unwrap();
        panic!("YIELDED memory for {} items", self.0)
    }
}

impl<T> ExactSizeIterator for Never<T> {
    fn len(&self) -> usize {
        self.0
    }
}

trait Maker<M: Manager> {
    fn name(&self) -> &'static str;
    fn most(&self) -> usize;
    fn item(&self) -> usize;
    fn space(&self, n: usize) -> Space;
    fn make<'a>(&self, m: M, n: usize, seed: u64) -> Box<dyn Held + 'a>
    where
        M: 'a;
    fn ask(&self, m: M, n: usize);
}

struct FlexOf<H, T>(PhantomData<(H, T)>);
/// Through the constructor of arrays (the header is the number of items).
struct PlainOf<T>(PhantomData<T>);
struct FixOf<T>(PhantomData<T>);

impl<M: Manager, H: Header + 'static, T: Pat + 'static> Maker<M> for FlexOf<H, T> {
    fn name(&self) -> &'static str {
        std::any::type_name::<FlexibleArray<T, H>>()
    }
    fn most(&self) -> usize {
        H::MOST
    }
    fn item(&self) -> usize {
        size_of::<T>()
    }
    fn space(&self, n: usize) -> Space {
        Space {
            size: up(size_of::<H>() as u128, align_of::<T>()) + n as u128 * size_of::<T>() as u128,
            align: align_of::<H>().max(align_of::<T>()),
        }
    }
    fn make<'a>(&self, m: M, n: usize, seed: u64) -> Box<dyn Held + 'a>
    where
        M: 'a,
    {
        let r = m.new(H::build(n, seed).constructor((0..n).map(|i| T::make(item(seed, i)))));
        Box::new(Flex::<H, T, M::Dealloc> {
            own: Own::Mut(Some(r)),
            n,
            seed,
        })
    }
    fn ask(&self, m: M, n: usize) {
        let never = Never(n, PhantomData::<T>);
        drop(m.new(H::build(n, 0).constructor(never)));
    }
}

impl<M: Manager, T: Pat + 'static> Maker<M> for PlainOf<T> {
    fn name(&self) -> &'static str {
        std::any::type_name::<FlexibleArray<T>>()
    }
    fn most(&self) -> usize {
        usize::MAX
    }
    fn item(&self) -> usize {
        size_of::<T>()
    }
    fn space(&self, n: usize) -> Space {
        Space {
            size: up(size_of::<usize>() as u128, align_of::<T>())
                + n as u128 * size_of::<T>() as u128,
            align: align_of::<usize>().max(align_of::<T>()),
        }
    }
    fn make<'a>(&self, m: M, n: usize, seed: u64) -> Box<dyn Held + 'a>
    where
        M: 'a,
    {
        let r = m.flexible_array_new((0..n).map(|i| T::make(item(seed, i))));
        Box::new(Flex::<usize, T, M::Dealloc> {
            own: Own::Mut(Some(r)),
            n,
            seed,
        })
    }
    fn ask(&self, m: M, n: usize) {
        drop(m.flexible_array_new(Never(n, PhantomData::<T>)));
    }
}

fn fixed<'a, T: Pat + 'a, O: Object + 'a, D: Dealloc + 'a>(
    m: MutRef<O, D>,
    seed: u64,
    f: impl Fn(&O) -> &T + 'a,
    w: impl Fn(&mut O) -> &mut T + 'a,
) -> Box<dyn Held + 'a> {
    Box::new(Fix {
        own: Own::Mut(Some(m)),
        seed,
        f,
        w,
    })
}

impl<M: Manager, T: Pat + 'static> Maker<M> for FixOf<T> {
    fn name(&self) -> &'static str {
        std::any::type_name::<T>()
    }
    fn most(&self) -> usize {
        0
    }
    fn item(&self) -> usize {
        0
    }
    fn space(&self, _: usize) -> Space {
        Space {
            size: size_of::<T>() as u128,
            align: align_of::<T>(),
        }
    }
    fn make<'a>(&self, m: M, _: usize, seed: u64) -> Box<dyn Held + 'a>
    where
        M: 'a,
    {
        fixed(m.fixed_new(T::make(seed)), seed, |o| &o.0, |o| &mut o.0)
    }
    fn ask(&self, _: M, _: usize) {}
}

type Makers<M> = Vec<Box<dyn Maker<M>>>;

fn makers<M: Manager>() -> Makers<M> {
    let mut v: Makers<M> = vec![];
    macro_rules! plain {
        ($($t:ty),*) => { $(v.push(Box::new(PlainOf::<$t>(PhantomData)));)* };
    }
    macro_rules! fix {
        ($($t:ty),*) => { $(v.push(Box::new(FixOf::<$t>(PhantomData)));)* };
    }
    macro_rules! flex {
        ($($h:ty => $($t:ty),*;)*) => { $($(v.push(Box::new(FlexOf::<$h, $t>(PhantomData)));)*)* };
    }
    plain!(
        u8,
        u16,
        u64,
        u128,
        A1<0>,
        A1<5>,
        A4<12>,
        A8<24>,
        A16<48>,
        A32<32>,
        A64<0>,
        A64<64>,
        A256<3>,
        A4096<1>
    );
    fix!(
        u8,
        u32,
        u128,
        A1<0>,
        A1<7>,
        A2<2>,
        A8<9>,
        A16<40>,
        A32<0>,
        A64<1>,
        A256<256>
    );
    flex!(
        Hd<u8, A1<0>> => u8, u64, A16<16>, A64<64>;
        Hd<u8, A1<2>> => A2<2>, A8<24>;
        Hd<u16, u8> => A4<12>;
        Hd<u32, A1<31>> => u32, A16<0>;
        Hd<u32, A16<16>> => u8, u64, A32<32>;
        Hd<usize, A1<1>> => u16, A16<16>;
        Hd<usize, A32<32>> => A2<6>;
        Hd<usize, A64<1>> => A1<3>, u128;
        Hd<usize, A64<64>> => u16, A64<0>;
        Hd<u16, A256<2>> => u32, A4<12>;
        Hd<usize, A1<3>> => A256<1>;
    );
    v
}

// ------------------------------------------------------------------ histories

#[derive(Clone, Copy)]
enum Zone {
    /// Blocks of the process's allocator.
    Ledger,
    /// Blocks of the tracking manager.
    Track,
    /// This memory, and nothing but.
    Arena(usize, usize),
}

fn number_of_items<M: Manager>(r: &mut Rng, k: &dyn Maker<M>, most: usize) -> usize {
    let n = if most > 4096 && r.bool() {
        // close to the largest
        most / k.item().max(1) - r.below(20).min(most / k.item().max(1))
    } else {
        r.size(if k.item() == 0 {
            40
        } else {
            (most / k.item().max(1)).max(1)
        })
    };
    let n = if r.chance(1, 40) { k.most() } else { n };
    n.min(k.most()).min(most / k.item().max(1))
}

/// What is known about the managers of a history.
struct Place<'x> {
    zone: Zone,
    size: Option<&'x dyn Fn(usize) -> usize>,
}

fn history<M: Manager>(c: &mut Case, ms: &[M], place: &Place, steps: usize, most: usize) -> R {
    let mk = makers::<M>();
    let mut live: Vec<(usize, Box<dyn Held + '_>)> = vec![];
    let mut tail = match place.zone {
        Zone::Arena(s, _) => s,
        _ => 0,
    };
    let mut h = 0u64;
    let arena = matches!(place.zone, Zone::Arena(..));
    for _ in 0..steps {
        let what = c.rng.below(if live.len() > 40 { 200 } else { 100 });
        let i = if live.is_empty() {
            0
        } else {
            c.rng.below(live.len())
        };
        if live.is_empty() || what < 45 {
            let k = &*mk[c.rng.below(mk.len())];
            let n = number_of_items(&mut c.rng, k, most);
            let seed = c.rng.u64();
            let who = c.rng.below(ms.len());
            let blocks = (galloc::live_count(), track::live());
            let m = ms[who];
            let r = guarded(|| galloc::on(|| k.make(m, n, seed)));
            let space = k.space(n);
            h = mix(h ^ space.size as u64 ^ (space.align as u64) << 32);
            let fits = match place.zone {
                Zone::Arena(_, e) => up(tail as u128, space.align) + space.size <= e as u128,
                _ => true,
            };
            let held = match (r, fits) {
                (Ok(v), true) => v,
                (Err(_), false) => {
                    c.ev("refusals of a full arena", 1);
                    for (_, v) in &live {
                        ensure!(
                            v.good(),
                            "a {} changed when {} of {n} was refused",
                            v.name(),
                            k.name()
                        );
                    }
                    continue;
                }
                (Ok(_), false) => {
                    return Err(format!(
                        "{} of {n} was placed where it does not fit",
                        k.name()
                    ))
                }
                (Err(e), true) => return Err(format!("{} of {n} was refused: {e}", k.name())),
            };
            let x = held.extent();
            if space.size > 0 || matches!(place.zone, Zone::Arena(..)) {
                ensure!(
                    (x.end - x.start) as u128 == space.size,
                    "{} of {n} takes {} bytes instead of {}",
                    k.name(),
                    x.end - x.start,
                    space.size
                );
            }
            for (p, a) in held.parts().into_iter().chain([(x.start, x.align)]) {
                ensure!(
                    p % a == 0,
                    "{} of {n} lies at {p:#x}, not aligned to {a}",
                    k.name()
                );
            }
            match place.zone {
                Zone::Ledger => {
                    let b = galloc::containing(x.start, x.end - x.start);
                    let (_, l) = b.ok_or_else(|| {
                        format!("{} of {n} does not lie inside an allocated block", k.name())
                    })?;
                    ensure!(
                        l.align() >= space.align,
                        "{} of {n} lies in a block aligned to {}",
                        k.name(),
                        l.align()
                    );
                }
                Zone::Track => {
                    let b = track::block_of(x.start)
                        .ok_or_else(|| format!("{} of {n} lies outside all blocks", k.name()))?;
                    ensure!(
                        x.end <= b.0 + b.1.size(),
                        "{} of {n} reaches beyond its block",
                        k.name()
                    );
                    ensure!(
                        track::live() == blocks.1 + 1,
                        "{} blocks allocated",
                        track::live() - blocks.1
                    );
                }
                Zone::Arena(s, e) => {
                    ensure!(
                        x.start >= s && x.end <= e,
                        "{} of {n} lies outside the arena",
                        k.name()
                    );
                    ensure!(
                        x.start >= tail,
                        "{} of {n} lies before the end of an earlier value",
                        k.name()
                    );
                    tail = x.end;
                }
            }
            for (_, o) in &live {
                let y = o.extent();
                ensure!(
                    x.end <= y.start || y.end <= x.start || x.start == x.end || y.start == y.end,
                    "{} of {n} overlaps a {}",
                    k.name(),
                    o.name()
                );
            }
            ensure!(
                held.good(),
                "{} of {n} does not have the content given",
                k.name()
            );
            c.ev("values placed", 1);
            if space.align > 16 {
                c.ev("values aligned to 32 or 64", 1);
            }
            c.sample(|| format!("{} of {n} placed at {:#x}..{:#x}", k.name(), x.start, x.end));
            live.push((who, held));
        } else if what < 60 {
            if live[i].1.rewrite(mix(h ^ what as u64)) {
                c.ev("rewritten in place", 1);
            }
        } else if what < 70 {
            live[i].1.share();
        } else if what < 80 {
            live[i].1.release();
        } else if what < 86 {
            let alone = live[i].1.owners() == 1;
            if let Some(given) = live[i].1.exclusive() {
                ensure!(
                    given == (alone && !arena),
                    "exclusive access to a {} with {} references",
                    live[i].1.name(),
                    live[i].1.owners()
                );
            }
        } else {
            ensure!(
                live[i].1.good(),
                "a {} changed before its release",
                live[i].1.name()
            );
            live.swap_remove(i);
            c.ev("values released", 1);
        }
        if let Some(v) = live.get(i) {
            ensure!(v.1.good(), "a {} changed", v.1.name());
        }
        if let Some(size) = &place.size {
            for who in 0..ms.len() {
                let sum: usize = live
                    .iter()
                    .filter(|v| v.0 == who)
                    .map(|v| {
                        let x = v.1.extent();
                        galloc::containing(x.start, x.end - x.start).map_or(0, |b| b.1.size())
                    })
                    .sum();
                ensure!(
                    size(who) == sum,
                    "the manager counts {} bytes of {sum}",
                    size(who)
                );
                c.ev("byte counts compared", 1);
            }
        }
    }
    for (_, v) in &live {
        ensure!(v.good(), "a {} changed", v.name());
    }
    c.rng.shuffle(&mut live);
    while let Some((_, v)) = live.pop() {
        ensure!(v.good(), "a {} changed before its release", v.name());
        drop(v);
    }
    if let Some(size) = &place.size {
        for who in 0..ms.len() {
            ensure!(
                size(who) == 0,
                "the manager counts {} bytes when nothing is left",
                size(who)
            );
        }
    }
    c.sig(h);
    Ok(())
}

/// The number of operations and the size of the largest block: a few histories have large ones.
fn scope(c: &mut Case) -> (usize, usize) {
    if c.tier != Tier::Tiny && c.rng.chance(1, 60) {
        c.ev("histories of large blocks", 1);
        return (
            c.rng.range(2, 12),
            *c.rng.pick(&[66_000, 140_000, 300_000, 3_000_000]),
        );
    }
    (steps(c), 4096)
}

fn steps(c: &mut Case) -> usize {
    if c.tier == Tier::Tiny {
        12
    } else {
        c.rng.range(5, 60)
    }
}

/// Within a recording of the process's allocator.
fn recorded(c: &mut Case, f: impl FnOnce(&mut Case) -> R) -> R {
    galloc::start_exact(None);
    galloc::pause();
    let r = f(c);
    let rep = galloc::stop();
    r?;
    ensure!(rep.errors.is_empty(), "{}", rep.errors[0]);
    ensure!(
        rep.live.is_empty(),
        "{} blocks not returned, one of {:?}",
        rep.live.len(),
        rep.live[0].1
    );
    c.ev("blocks recorded", rep.allocs);
    Ok(())
}

fn m04_global(c: &mut Case) -> R {
    recorded(c, |c| {
        let (n, most) = scope(c);
        history(
            c,
            &[GLOBAL],
            &Place {
                zone: Zone::Ledger,
                size: None,
            },
            n,
            most,
        )
    })
}

fn m04_local(c: &mut Case) -> R {
    recorded(c, |c| {
        let (n, most) = scope(c);
        let l: Vec<Local> = (0..c.rng.range(1, 3)).map(|_| Local::default()).collect();
        let ms: Vec<&Local> = l.iter().collect();
        let size = |i: usize| l[i].size();
        history(
            c,
            &ms,
            &Place {
                zone: Zone::Ledger,
                size: Some(&size),
            },
            n,
            most,
        )
    })
}

fn m04_track(c: &mut Case) -> R {
    let (n, most) = scope(c);
    history(
        c,
        &[Track],
        &Place {
            zone: Zone::Track,
            size: None,
        },
        n,
        most.min(300_000),
    )?;
    track::finish()
}

struct InArena<'a, 'b>(&'a mut Case<'b>, usize, usize, usize, R);

impl ArenaVisitor for &mut InArena<'_, '_> {
    fn visit<M: Manager>(self, m: M) {
        let place = Place {
            zone: Zone::Arena(self.1, self.2),
            size: None,
        };
        let n = steps(self.0);
        self.4 = history(self.0, &[m], &place, n, self.3)
    }
}

fn m04_arena(c: &mut Case) -> R {
    const GUARD: usize = 256;
    let size = match c.rng.below(5) {
        0 => c.rng.below(20),
        1 => c.rng.below(300),
        2 => 1024,
        3 if c.tier != Tier::Tiny && c.rng.chance(1, 30) => {
            c.ev("large arenas", 1);
            *c.rng.pick(&[65_536, 66_000, 131_072, 140_000, 1_100_000]) + c.rng.below(100)
        }
        _ => c.rng.below(8000),
    };
    let skew = c.rng.below(130);
    let mut all = vec![0x5Cu8; GUARD + skew + size + GUARD];
    let (from, to) = (GUARD + skew, GUARD + skew + size);
    let base = all.as_ptr() as usize;
    let most = *c.rng.pick(&[16, 64, 600, 9000]);
    let mut v = InArena(c, base + from, base + to, most, Ok(()));
    with_arena(&mut all[from..to], &mut v);
    v.4?;
    let touched = all[..from]
        .iter()
        .chain(&all[to..])
        .filter(|b| **b != 0x5C)
        .count();
    ensure!(touched == 0, "{touched} bytes around the arena written");
    c.ev("arenas", 1);
    Ok(())
}

// ------------------------------------------------------------------ refusals

/// A number of items whose size cannot be represented.
fn impossible<M: Manager>(r: &mut Rng, k: &dyn Maker<M>) -> Option<usize> {
    let s = k.item() as u128;
    if s == 0 || k.most() as u128 * s <= isize::MAX as u128 {
        return None;
    }
    let near = |r: &mut Rng| r.below(300) as i128 - 150;
    let n = match r.below(7) {
        0 => usize::MAX as i128 - r.below(3) as i128,
        // wraps around to a small size
        1 => ((1i128 << 64) + s as i128 - 1) / s as i128 + r.below(40) as i128,
        2 => ((1i128 << 64) * r.range(1, s as usize) as i128) / s as i128 + r.below(4) as i128,
        3 => (1i128 << 64) / s as i128 + near(r),
        4 => (1i128 << 63) / s as i128 + r.below(300) as i128,
        5 => (1i128 << 63) + near(r),
        _ => (r.u64() >> r.below(8)) as i128,
    };
    if n < 0
        || n > usize::MAX as i128
        || n as u128 > k.most() as u128
        || n as u128 * s <= isize::MAX as u128
    {
        return None;
    }
    Some(n as usize)
}

fn refuse<M: Manager>(c: &mut Case, m: M, sizes: &dyn Fn() -> usize) -> R {
    let mk = makers::<M>();
    let mut live: Vec<Box<dyn Held + '_>> = vec![];
    for _ in 0..3 {
        let k = &*mk[c.rng.below(mk.len())];
        let n = number_of_items(&mut c.rng, k, 60);
        let seed = c.rng.u64();
        if let Ok(v) = guarded(|| galloc::on(|| k.make(m, n, seed))) {
            live.push(v);
        }
    }
    let mut h = 0;
    for _ in 0..40 {
        let k = &*mk[c.rng.below(mk.len())];
        let Some(n) = impossible(&mut c.rng, k) else {
            continue;
        };
        let before = (galloc::live_count(), track::live(), sizes());
        let r = guarded(|| galloc::on(|| k.ask(m, n)));
        match r {
            Ok(()) => return Err(format!("{} of {n} was made", k.name())),
            Err(e) => ensure!(
                !e.contains("YIELDED"),
                "{} of {n}, beyond any memory, got some",
                k.name()
            ),
        }
        let after = (galloc::live_count(), track::live(), sizes());
        ensure!(
            before == after,
            "refusing {} of {n} changed the account from {before:?} to {after:?}",
            k.name()
        );
        for v in &live {
            ensure!(
                v.good(),
                "a {} changed when {} of {n} was refused",
                v.name(),
                k.name()
            );
        }
        c.ev("impossible requests refused", 1);
        c.sample(|| format!("{} of {n} refused", k.name()));
        h = mix(h ^ n as u64);
    }
    c.sig(h);
    Ok(())
}

struct Refusing<'a, 'b>(&'a mut Case<'b>, R);

impl ArenaVisitor for &mut Refusing<'_, '_> {
    fn visit<M: Manager>(self, m: M) {
        self.1 = refuse(self.0, m, &|| 0)
    }
}

fn m04_refusals(c: &mut Case) -> R {
    recorded(c, |c| match c.rng.below(4) {
        0 => refuse(c, GLOBAL, &|| 0),
        1 => {
            let l = Local::default();
            refuse(c, &l, &|| l.size())
        }
        2 => {
            refuse(c, Track, &|| 0)?;
            track::finish()
        }
        _ => {
            let mut b = vec![0u8; 700];
            let k = c.rng.below(64);
            let mut v = Refusing(c, Ok(()));
            with_arena(&mut b[k..], &mut v);
            v.1
        }
    })
}

/// The managers' own interface: any layout, served or not.
fn raw<M: Manager>(c: &mut Case, m: M, sizes: &dyn Fn() -> usize, counts: bool) -> R {
    let n = steps(c);
    let mut live: Vec<(*mut u8, Layout, u64)> = vec![];
    let mut h = 0;
    for _ in 0..n {
        let before = sizes();
        if live.is_empty() || c.rng.chance(3, 5) {
            let align = 1usize << c.rng.below(13);
            let unservable = c.rng.chance(1, 5);
            let size = if unservable {
                (1usize << c.rng.range(50, 63)) - c.rng.below(100) - align - 64
            } else {
                1 + c.rng.size(3000)
            };
            let l = Layout::from_size_align(size, align).map_err(|e| format!("monitor: {e}"))?;
            h = mix(h ^ size as u64 ^ (align as u64) << 48);
            // safe: the layout's size is not zero
            let p = match guarded(|| galloc::on(|| unsafe { m.alloc(l) })) {
                Ok(p) => p,
                Err(_) if unservable => std::ptr::null_mut(),
                Err(e) => return Err(format!("{l:?} was refused: {e}")),
            };
            if unservable {
                ensure!(p.is_null(), "{l:?} was served at {p:p}");
                ensure!(
                    sizes() == before,
                    "{l:?} was refused, but the manager counts {} bytes instead of {before}",
                    sizes()
                );
                c.ev("raw requests refused", 1);
                continue;
            }
            ensure!(!p.is_null(), "{l:?} was refused");
            ensure!(p as usize % align == 0, "{l:?} placed at {p:p}");
            let b = galloc::containing(p as usize, size);
            ensure!(b.is_some(), "{l:?} does not lie inside an allocated block");
            let seed = c.rng.u64();
            for i in 0..size {
                // safe: just allocated
                unsafe { p.add(i).write(byte(seed, i)) };
            }
            live.push((p, l, seed));
            c.ev("raw blocks placed", 1);
        } else {
            let (p, l, seed) = live.swap_remove(c.rng.below(live.len()));
            // safe: allocated above with this layout
            let bad = (0..l.size()).any(|i| unsafe { p.add(i).read() } != byte(seed, i));
            ensure!(!bad, "the content of {l:?} changed");
            galloc::on(|| unsafe { <M::Dealloc as Dealloc>::dealloc(p, l) });
        }
        if counts {
            let sum: usize = live
                .iter()
                .map(|x| galloc::containing(x.0 as usize, x.1.size()).map_or(0, |b| b.1.size()))
                .sum();
            ensure!(
                sizes() == sum,
                "the manager counts {} bytes of {sum}",
                sizes()
            );
        }
    }
    for (p, l, seed) in live {
        // safe: as above
        let bad = (0..l.size()).any(|i| unsafe { p.add(i).read() } != byte(seed, i));
        ensure!(!bad, "the content of {l:?} changed");
        galloc::on(|| unsafe { <M::Dealloc as Dealloc>::dealloc(p, l) });
    }
    ensure!(
        sizes() == 0,
        "the manager counts {} bytes when nothing is left",
        sizes()
    );
    c.sig(h);
    Ok(())
}

/// Blocks of any layout out of an arena.
struct RawArena<'c, 'd>(&'c mut Case<'d>, usize, usize, R);

impl ArenaVisitor for &mut RawArena<'_, '_> {
    fn visit<M: Manager>(self, m: M) {
        self.3 = raw_arena(self.0, m, self.1, self.2);
    }
}

fn raw_arena<M: Manager>(c: &mut Case, m: M, start: usize, end: usize) -> R {
    let mut tail = start;
    let mut live: Vec<(*mut u8, Layout, u64)> = vec![];
    for _ in 0..steps(c) {
        let top = if c.rng.bool() { 13 } else { 7 };
        let align = 1usize << c.rng.below(top);
        let size = match c.rng.below(12) {
            0 => (isize::MAX as usize - align) & !(align - 1),
            // all that is left, and one more
            1 => (end - tail).max(1),
            2 => (end - tail) + 1,
            _ => 1 + c.rng.size(200),
        };
        let l = Layout::from_size_align(size, align).map_err(|e| format!("monitor: {e}"))?;
        let at = (tail + align - 1) & !(align - 1);
        let fits = at as u128 + size as u128 <= end as u128;
        // safe: the layout's size is not zero
        let p = guarded(|| unsafe { m.alloc(l) }).unwrap_or(std::ptr::null_mut());
        ensure!(
            p.is_null() != fits,
            "{l:?} of an arena with {} bytes left: {p:p}",
            end - tail
        );
        if !fits {
            c.ev("raw requests refused by an arena", 1);
            continue;
        }
        let a = p as usize;
        ensure!(
            a % align == 0 && a >= tail && a + size <= end,
            "{l:?} placed at {p:p}, free is {tail:#x}..{end:#x}"
        );
        tail = a + size;
        let seed = c.rng.u64();
        for i in 0..size {
            // safe: just given
            unsafe { p.add(i).write(byte(seed, i)) };
        }
        live.push((p, l, seed));
        c.ev("raw blocks of an arena", 1);
    }
    for (p, l, seed) in live {
        // safe: as above
        let bad = (0..l.size()).any(|i| unsafe { p.add(i).read() } != byte(seed, i));
        ensure!(!bad, "the content of {l:?} changed");
        unsafe { <M::Dealloc as Dealloc>::dealloc(p, l) };
    }
    Ok(())
}

fn m04_raw(c: &mut Case) -> R {
    if c.rng.chance(1, 4) {
        let mut b = vec![0u8; c.rng.size(20_000) + 80];
        let k = c.rng.below(64);
        let b = &mut b[k..];
        let start = b.as_ptr() as usize;
        let end = start + b.len();
        let result = {
            let mut v = RawArena(&mut *c, start, end, Ok(()));
            with_arena(b, &mut v);
            v.3
        };
        result?;
        c.sig(start as u64 ^ end as u64);
        return Ok(());
    }
    recorded(c, |c| {
        if c.rng.chance(1, 4) {
            raw(c, GLOBAL, &|| 0, false)
        } else {
            let l = Local::default();
            raw(c, &l, &|| l.size(), true)
        }
    })
}

/// A number of items no machine has memory for, though its size is a number.
fn huge<M: Manager>(r: &mut Rng, k: &dyn Maker<M>) -> Option<usize> {
    let s = k.item() as u128;
    if s == 0 || (k.most() as u128) * s < 1 << 48 {
        return None;
    }
    let top = isize::MAX as u128 / s;
    let n = match r.below(3) {
        0 => top - r.below(200) as u128,
        1 => (1u128 << 47) * r.range(1, 1000) as u128 / s + r.below(50) as u128,
        _ => (top >> r.below(8)) - r.below(50) as u128,
    };
    Some(n.min(k.most() as u128) as usize)
}

fn child(seed: u64) {
    fn ask<M: Manager>(r: &mut Rng, m: M, who: &str) {
        let mk = makers::<M>();
        let k = loop {
            let i = r.below(mk.len());
            if huge(r, &*mk[i]).is_some() {
                break &*mk[i];
            }
        };
        let n = huge(r, k).unwrap();
        println!("ASKING {who} for {} of {n}", k.name());
        std::io::stdout().flush().unwrap();
        k.ask(m, n);
        println!("MADE");
    }
    let mut r = Rng::new(seed);
    if r.bool() {
        ask(&mut r, GLOBAL, "the global manager");
    } else {
        let l = Local::default();
        ask(&mut r, &l, "a counting manager");
    }
}

/// Requests the machine cannot serve end the process; memory is never handed out.
fn m04_aborts(c: &mut Case) -> R {
    let seed = c.rng.u64() >> 1;
    let o = Command::new(std::env::current_exe().unwrap())
        .args(["CHILD", &seed.to_string()])
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let said = String::from_utf8_lossy(&o.stdout).into_owned();
    ensure!(
        said.starts_with("ASKING"),
        "monitor: the other process said {said:?}"
    );
    let first = said.lines().next().unwrap_or("");
    ensure!(
        !said.contains("YIELDED") && !said.contains("MADE"),
        "{first} got memory"
    );
    let ok = o.status.signal() == Some(6) || matches!(o.status.code(), Some(n) if n != 0);
    ensure!(ok, "{first} ended with {}", o.status);
    let wrote = String::from_utf8_lossy(&o.stderr).into_owned();
    let touched = ["null pointer dereference", "unsafe precondition"]
        .iter()
        .any(|x| wrote.contains(x));
    ensure!(!touched, "{first} used memory that it did not get");
    c.ev("unservable requests refused", 1);
    c.sample(|| format!("{first}: {}", o.status));
    c.sig(seed);
    Ok(())
}

// ------------------------------------------------------------------ whole values

/// Documents read with a counting manager: it counts exactly what the value keeps alive.
fn m04_values(c: &mut Case) -> R {
    let local: &'static Local = Box::leak(Box::new(Local::default()));
    let nodes = if c.tier == Tier::Tiny {
        6
    } else {
        *c.rng.pick(&[5, 20, 60])
    };
    let g = gen_graph(&mut c.rng, &Opt { nodes, ..DATA });
    let read_it = c.rng.bool();
    recorded(c, |c| {
        let a: Any<&'static Local> = if read_it {
            let t = write_module(&mut c.rng, &g, g.root, Style::Mjs, &[], LOOSE);
            let how = any_how(&mut c.rng);
            let io = MemIo::new("/m");
            let mut cache = ModuleCache::default();
            let r = galloc::on(|| read_text(local, &io, &mut cache, "/m/root", &t, how));
            let (_, a) = r.map_err(|e| format!("{e} for {}", nanvm_monitor::text::clip(&t)))?;
            a
        } else {
            galloc::on(|| build(local, &g))
        };
        fn blocks<D: Dealloc>(a: &Any<D>, v: &mut std::collections::BTreeMap<usize, usize>) -> R {
            use nanvm_lib::js::{
                js_array::JsArray, js_bigint::JsBigint, js_object::JsObject, js_string::JsString,
            };
            fn add(
                v: &mut std::collections::BTreeMap<usize, usize>,
                p: usize,
            ) -> Result<bool, String> {
                let b = galloc::containing(p, 8).ok_or("a value lies outside all blocks")?;
                Ok(v.insert(b.0, b.1.size()).is_none())
            }
            if let Ok(x) = a.try_ref::<JsString>() {
                add(v, x.object() as *const _ as usize)?;
            } else if let Ok(x) = a.try_ref::<JsBigint>() {
                add(v, x.object() as *const _ as usize)?;
            } else if let Ok(x) = a.try_ref::<JsArray<D>>() {
                if add(v, x.object() as *const _ as usize)? {
                    for y in x.object().items() {
                        blocks(y, v)?;
                    }
                }
            } else if let Ok(x) = a.try_ref::<JsObject<D>>() {
                if add(v, x.object() as *const _ as usize)? {
                    for (k, y) in x.object().items() {
                        add(v, &**k as *const _ as usize)?;
                        blocks(y, v)?;
                    }
                }
            }
            Ok(())
        }
        let mut v = Default::default();
        blocks(&a, &mut v)?;
        let sum: usize = v.values().sum();
        ensure!(
            local.size() == sum,
            "the manager counts {} bytes, the value keeps {} in {} blocks",
            local.size(),
            sum,
            v.len()
        );
        same(
            &read(&a),
            &g,
            Cmp {
                identity: false,
                order: false,
            },
        )?;
        let js = galloc::on(|| to_djs(a.clone(), true));
        ensure!(
            local.size() == sum,
            "writing the value changed the count from {sum} to {}",
            local.size()
        );
        drop(js);
        drop(a);
        ensure!(
            local.size() == 0,
            "the manager counts {} bytes when nothing is left",
            local.size()
        );
        c.ev("whole values counted", 1);
        c.sig(g.hash());
        Ok(())
    })
}

fn main() {
    let v: Vec<String> = std::env::args().collect();
    if v.get(1).map(|s| s.as_str()) == Some("CHILD") {
        return child(v[2].parse().unwrap());
    }
    let a = args();
    if a.property == "NONE" {
        println!("READY");
        return;
    }
    let kinds: &[Kind] = match a.property.as_str() {
        "M04" => &[
            kind!(m04_global, 12_000, 600_000, 3),
            kind!(m04_local, 12_000, 600_000, 3),
            kind!(m04_track, 6_000, 300_000, 3),
            kind!(m04_arena, 30_000, 1_500_000, 6),
            kind!(m04_refusals, 4_000, 100_000, 1),
            kind!(m04_raw, 6_000, 200_000, 0),
            kind!(m04_aborts, 160, 4_000, 0),
            kind!(m04_values, 6_000, 300_000, 2),
        ],
        p => panic!("unknown property {p}"),
    };
    drive(&a, kinds);
}

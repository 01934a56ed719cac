//! V01: what is put into a generic value comes back, as that kind only.
use nanvm_lib::{
    common::bit_subset64::BitSubset64,
    js::{
        any::Any,
        any_cast::AnyCast,
        js_array::{new_array, JsArray, JsArrayRef},
        js_bigint::{new_bigint, JsBigint, JsBigintRef, Sign},
        js_object::{new_object, JsObject, JsObjectRef},
        js_string::{new_string, JsString, JsStringRef},
        null::Null,
        type_::Type,
        visitor::{to_visitor, Visitor},
    },
    mem::{
        global::GLOBAL,
        manager::{Dealloc, Manager},
        object::Object,
        ref_::Ref,
    },
};
use nanvm_monitor::text as text_of;
use nanvm_monitor::{
    ensure,
    galloc::{self, Ledger},
    kind,
    run::{args, drive, guarded, mix, Case, Kind, Rng, Tier, R},
    track::{self, Track, TrackA},
    val::{
        self, build, gen_bigint, gen_graph, gen_shape, gen_units, read, same, Cmp, Opt, DATA, G, V,
    },
};
use std::{
    collections::HashSet,
    hash::{BuildHasher, RandomState},
};

#[global_allocator]
static LEDGER: Ledger = Ledger;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Num,
    Bool,
    Null,
    Str,
    Obj,
    Arr,
    Big,
}

const KINDS: [K; 7] = [K::Num, K::Bool, K::Null, K::Str, K::Obj, K::Arr, K::Big];

fn kind_of(t: Type) -> K {
    match t {
        Type::Number => K::Num,
        Type::Bool => K::Bool,
        Type::Null => K::Null,
        Type::String => K::Str,
        Type::Object => K::Obj,
        Type::Array => K::Arr,
        Type::Bigint => K::Big,
    }
}

fn is<D: Dealloc>(a: &Any<D>, k: K) -> bool {
    match k {
        K::Num => a.is::<f64>(),
        K::Bool => a.is::<bool>(),
        K::Null => a.is::<Null>(),
        K::Str => a.is::<JsStringRef<D>>(),
        K::Obj => a.is::<JsObjectRef<D>>(),
        K::Arr => a.is::<JsArrayRef<D>>(),
        K::Big => a.is::<JsBigintRef<D>>(),
    }
}

/// Whether the value can be taken out as that kind (and what comes out is released).
fn takes<D: Dealloc>(a: Any<D>, k: K) -> bool {
    match k {
        K::Num => a.try_move::<f64>().is_ok(),
        K::Bool => a.try_move::<bool>().is_ok(),
        K::Null => a.try_move::<Null>().is_ok(),
        K::Str => a.try_move::<JsStringRef<D>>().is_ok(),
        K::Obj => a.try_move::<JsObjectRef<D>>().is_ok(),
        K::Arr => a.try_move::<JsArrayRef<D>>().is_ok(),
        K::Big => a.try_move::<JsBigintRef<D>>().is_ok(),
    }
}

/// Where the block of that kind lies.
fn lies<D: Dealloc>(a: &Any<D>, k: K) -> Option<usize> {
    match k {
        K::Str => a
            .try_ref::<JsString>()
            .ok()
            .map(|b| b.object() as *const _ as usize),
        K::Obj => a
            .try_ref::<JsObject<D>>()
            .ok()
            .map(|b| b.object() as *const _ as usize),
        K::Arr => a
            .try_ref::<JsArray<D>>()
            .ok()
            .map(|b| b.object() as *const _ as usize),
        K::Big => a
            .try_ref::<JsBigint>()
            .ok()
            .map(|b| b.object() as *const _ as usize),
        _ => None,
    }
}

fn visited<D: Dealloc>(v: &Visitor<D>) -> K {
    match v {
        Visitor::Number(_) => K::Num,
        Visitor::Null => K::Null,
        Visitor::Bool(_) => K::Bool,
        Visitor::String(_) => K::Str,
        Visitor::Object(_) => K::Obj,
        Visitor::Array(_) => K::Arr,
        Visitor::Bigint(_) => K::Big,
    }
}

/// The value is of that kind, and of no other.
fn only<D: Dealloc>(a: &Any<D>, k: K) -> R {
    let t = kind_of(a.get_type());
    ensure!(t == k, "a {k:?} reports itself as {t:?}");
    for o in KINDS {
        ensure!(
            is(a, o) == (o == k),
            "is {o:?} of a {k:?} answers {}",
            is(a, o)
        );
        ensure!(
            takes(a.clone(), o) == (o == k),
            "taking a {k:?} out as {o:?}: {}",
            o != k
        );
        if matches!(o, K::Str | K::Obj | K::Arr | K::Big) {
            ensure!(
                lies(a, o).is_some() == (o == k),
                "borrowing a {k:?} as {o:?}: {}",
                o != k
            );
        }
    }
    let v = visited(&to_visitor(a.clone()));
    ensure!(v == k, "a {k:?} is visited as {v:?}");
    Ok(())
}

fn number<D: Dealloc>(bits: u64) -> R {
    let x = f64::from_bits(bits);
    let good = |y: f64| {
        if x.is_nan() {
            y.is_nan()
        } else {
            y.to_bits() == bits
        }
    };
    let a: Any<D> = Any::move_from(x);
    let b = a.clone();
    ensure!(
        kind_of(b.get_type()) == K::Num,
        "number {bits:016x} reports itself as {:?}",
        kind_of(b.get_type())
    );
    for o in KINDS {
        ensure!(
            is(&b, o) == (o == K::Num),
            "is {o:?} of number {bits:016x} answers {}",
            is(&b, o)
        );
        ensure!(lies(&b, o).is_none(), "number {bits:016x} lent as {o:?}");
    }
    let y = b
        .try_move::<f64>()
        .map_err(|_| format!("number {bits:016x} refused as a number"))?;
    ensure!(
        good(y),
        "number {bits:016x} came back as {:016x}",
        y.to_bits()
    );
    match to_visitor(a) {
        Visitor::Number(y) => ensure!(
            good(y),
            "number {bits:016x} visited as {:016x}",
            y.to_bits()
        ),
        v => return Err(format!("number {bits:016x} visited as {:?}", visited(&v))),
    }
    Ok(())
}

fn low_bits(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => 0xFFFF_FFFF_FFFF,
        3 => 1 << r.below(48),
        4 => 0xFFFF_FFFF_FFFF ^ (1 << r.below(48)),
        5 => r.below(64) as u64,
        // something that looks like an address
        6 => (r as *const _ as u64) & 0xFFFF_FFFF_FFFF,
        7 => 0x7FFF_0000_0000 | (r.u64() >> 32 & !7),
        _ => r.u64() >> 16,
    }
}

/// Every pattern of the upper sixteen bits (where kinds are told apart).
fn v01_tops(c: &mut Case) -> R {
    let per = 256u64;
    for i in 0..per {
        let top = (c.index * per + i) & 0xFFFF;
        let mut lows = vec![0, 1, 0xFFFF_FFFF_FFFF, 0x8000_0000_0000, 0x7FFF_FFFF_FFF8];
        lows.extend((0..6).map(|_| low_bits(&mut c.rng)));
        for low in lows {
            let bits = top << 48 | low;
            number::<Track>(bits)?;
            number::<TrackA>(bits)?;
            c.ev("numbers", 1);
            if f64::from_bits(bits).is_nan() {
                c.ev("not-a-number patterns", 1);
            }
        }
        c.ev("upper bit patterns", 1);
    }
    let i = c.index;
    c.sig(i);
    c.sample(|| {
        format!(
            "numbers with upper bits {:04x} to {:04x}",
            (i * per) & 0xFFFF,
            (i * per + per - 1) & 0xFFFF
        )
    });
    track::finish()
}

fn v01_numbers(c: &mut Case) -> R {
    let mut h = 0;
    for _ in 0..64 {
        let bits = match c.rng.below(6) {
            0 => c.rng.u64(),
            1 => (c.rng.below(20_000) as f64 - 10_000.0).to_bits(),
            2 => {
                ((c.rng.below(20_000) as f64 - 10_000.0) / (1 << c.rng.below(12)) as f64).to_bits()
            }
            // NaNs of all payloads and both signs
            3 => 0x7FF0_0000_0000_0000 | (c.rng.u64() & 1) << 63 | (c.rng.u64() >> 12).max(1),
            4 => 0xFFF8_0000_0000_0000 | c.rng.u64() >> 13,
            _ => {
                (c.rng.below(2) as u64) << 63
                    | (*c.rng.pick(&[0u64, 1, 2046, 2047]) << 52)
                    | *c.rng.pick(&[0u64, 1, (1 << 52) - 1])
            }
        };
        number::<Track>(bits)?;
        only(&Any::<Track>::move_from(f64::from_bits(bits)), K::Num)?;
        c.ev("numbers", 1);
        if f64::from_bits(bits).is_nan() {
            c.ev("not-a-number patterns", 1);
        }
        h = mix(h ^ bits);
        c.sample(|| format!("number {bits:016x}"));
    }
    // inside containers
    let m = Track;
    let v: Vec<u64> = (0..c.rng.range(1, 20))
        .map(|_| c.rng.u64() | if c.rng.bool() { 0xFFF8 << 48 } else { 0 })
        .collect();
    let a: Any<Track> = new_array(
        m,
        v.iter()
            .map(|x| f64::from_bits(*x).move_to_any())
            .collect::<Vec<_>>(),
    )
    .to_ref()
    .move_to_any();
    let arr = a
        .try_move::<JsArrayRef<Track>>()
        .map_err(|_| "array refused")?;
    ensure!(arr.items().len() == v.len(), "length changed");
    for (x, b) in arr.items().iter().zip(&v) {
        only(x, K::Num)?;
        let y: f64 = x.clone().try_move().unwrap();
        let x = f64::from_bits(*b);
        ensure!(
            if x.is_nan() {
                y.is_nan()
            } else {
                y.to_bits() == *b
            },
            "element {b:016x} came back as {:016x}",
            y.to_bits()
        );
    }
    drop(arr);
    c.sig(h);
    track::finish()
}

fn v01_simple(c: &mut Case) -> R {
    fn go<D: Dealloc>() -> R {
        for b in [false, true] {
            let a: Any<D> = b.move_to_any();
            only(&a, K::Bool)?;
            ensure!(
                matches!(to_visitor(a.clone()), Visitor::Bool(x) if x == b),
                "{b} visited as another"
            );
            ensure!(a.try_move::<bool>() == Ok(b), "{b} came back as another");
        }
        let a: Any<D> = Null().move_to_any();
        only(&a, K::Null)?;
        ensure!(a.try_move::<Null>().is_ok(), "null refused");
        Ok(())
    }
    go::<Track>()?;
    go::<TrackA>()?;
    go::<nanvm_lib::mem::global::Global>()?;
    c.ev("simple values", 9);
    c.sig(1);
    Ok(())
}

/// A referenced value goes in and out: same kind, same place, same content.
fn round<D: Dealloc, T: Object>(
    r: Ref<T, D>,
    k: K,
    items: impl Fn(&Ref<T, D>) -> R,
    c: &mut Case,
) -> R
where
    Ref<T, D>: AnyCast<D>,
{
    let other = if c.rng.bool() { Some(r.clone()) } else { None };
    items(&r)?;
    let mut a: Any<D> = r.move_to_any();
    let p = lies(&a, k).ok_or_else(|| format!("a {k:?} not lent as itself"))?;
    for _ in 0..c.rng.range(1, 4) {
        only(&a, k)?;
        let b = a.clone();
        ensure!(lies(&b, k) == Some(p), "a clone of a {k:?} lies elsewhere");
        // the original may go first
        a = if c.rng.bool() { b } else { a };
        let back = a
            .try_move::<Ref<T, D>>()
            .map_err(|_| format!("a {k:?} refused as itself"))?;
        items(&back)?;
        a = back.move_to_any();
        ensure!(lies(&a, k) == Some(p), "a {k:?} moved");
    }
    if let Some(o) = other {
        items(&o)?;
        if c.rng.bool() {
            drop(a);
            items(&o)?;
        }
    }
    Ok(())
}

fn v01_references(c: &mut Case) -> R {
    fn go<M: Manager>(m: M, c: &mut Case) -> R {
        let o = Opt {
            surrogates: true,
            ..DATA
        };
        let k = *c.rng.pick(&[K::Str, K::Obj, K::Arr, K::Big]);
        let mut h = k as u64;
        match k {
            K::Str => {
                let n = if c.rng.chance(1, 8) {
                    c.rng.size(3000)
                } else {
                    c.rng.size(20)
                };
                let mut s = gen_units(&mut c.rng, &o);
                while s.len() < n {
                    s.push(c.rng.u64() as u16);
                }
                h = s.iter().fold(h, |h, u| mix(h ^ *u as u64));
                let r = new_string(m, s.clone()).to_ref();
                round(
                    r,
                    k,
                    |r| {
                        if r.items() == s {
                            Ok(())
                        } else {
                            Err("units changed".into())
                        }
                    },
                    c,
                )?;
            }
            K::Big => {
                let V::Big(neg, w) = gen_bigint(&mut c.rng) else {
                    unreachable!()
                };
                h = w.iter().fold(h ^ neg as u64, |h, u| mix(h ^ u));
                let sign = if neg { Sign::Negative } else { Sign::Positive };
                let r = new_bigint(m, sign, w.clone()).to_ref();
                let good = |r: &JsBigintRef<M::Dealloc>| {
                    ensure!(
                        (r.sign() == Sign::Negative) == neg && r.items() == w,
                        "big integer changed"
                    );
                    Ok(())
                };
                round(r, k, good, c)?;
            }
            K::Arr => {
                let v: Vec<u64> = (0..c.rng.size(300)).map(|_| low_bits(&mut c.rng)).collect();
                h = v.iter().fold(h, |h, u| mix(h ^ u));
                let r = new_array(
                    m,
                    v.iter()
                        .map(|b| f64::from_bits(*b).move_to_any())
                        .collect::<Vec<_>>(),
                )
                .to_ref();
                let good = |r: &JsArrayRef<M::Dealloc>| {
                    ensure!(r.items().len() == v.len(), "length changed");
                    for (x, b) in r.items().iter().zip(&v) {
                        ensure!(
                            x.clone().try_move::<f64>().map(|x| x.to_bits()) == Ok(*b),
                            "element changed"
                        );
                    }
                    Ok(())
                };
                round(r, k, good, c)?;
            }
            _ => {
                let v: Vec<(Vec<u16>, bool)> = (0..c.rng.size(60))
                    .map(|_| (gen_units(&mut c.rng, &o), c.rng.bool()))
                    .collect();
                h = v.iter().fold(h, |h, u| {
                    u.0.iter()
                        .fold(mix(h ^ u.1 as u64), |h, x| mix(h ^ *x as u64))
                });
                let r = new_object(
                    m,
                    v.iter()
                        .map(|(k, b)| (new_string(m, k.clone()).to_ref(), b.move_to_any()))
                        .collect::<Vec<_>>(),
                )
                .to_ref();
                let good = |r: &JsObjectRef<M::Dealloc>| {
                    ensure!(r.items().len() == v.len(), "length changed");
                    for (x, (k, b)) in r.items().iter().zip(&v) {
                        ensure!(
                            x.0.items() == k && x.1.clone().try_move::<bool>() == Ok(*b),
                            "property changed"
                        );
                    }
                    Ok(())
                };
                round(r, k, good, c)?;
            }
        }
        c.ev("references", 1);
        c.sample(|| format!("{k:?} of content {h:016x}"));
        c.sig(h);
        Ok(())
    }
    match c.rng.below(3) {
        0 => go(Track, c)?,
        1 => go(TrackA, c)?,
        _ => return go(GLOBAL, c),
    }
    track::finish()
}

/// What `for_each` tells about a container.
fn children<D: Dealloc>(
    a: &Any<D>,
    stop: Option<usize>,
) -> (Vec<(Any<D>, Any<D>)>, Result<(), usize>) {
    let mut v = vec![];
    let r = a.for_each(|k, x| {
        v.push((k, x.clone()));
        match stop {
            Some(n) if v.len() == n + 1 => Err(n),
            _ => Ok(()),
        }
    });
    (v, r)
}

fn walk<D: Dealloc>(a: &Any<D>, c: &mut Case, seen: &mut HashSet<usize>) -> R {
    let k = kind_of(a.get_type());
    only(a, k)?;
    let want: Vec<(Result<u64, Vec<u16>>, Any<D>)> = match k {
        K::Arr => {
            let b = a.try_ref::<JsArray<D>>().unwrap().object();
            b.items()
                .iter()
                .enumerate()
                .map(|(i, x)| (Ok((i as f64).to_bits()), x.clone()))
                .collect()
        }
        K::Obj => {
            let b = a.try_ref::<JsObject<D>>().unwrap().object();
            b.items()
                .iter()
                .map(|x| (Err(x.0.items().to_vec()), x.1.clone()))
                .collect()
        }
        _ => vec![],
    };
    if matches!(k, K::Arr | K::Obj) && !seen.insert(lies(a, k).unwrap()) {
        return Ok(());
    }
    let stop = if c.rng.chance(1, 3) {
        Some(c.rng.below(want.len() + 2))
    } else {
        None
    };
    let (got, r) = children(a, stop);
    let n = match stop {
        Some(n) if n < want.len() => {
            ensure!(
                r == Err(n),
                "the error of child {n} of {} was reported as {r:?}",
                want.len()
            );
            c.ev("enumerations stopped", 1);
            n + 1
        }
        _ => {
            ensure!(r == Ok(()), "enumeration failed by itself");
            want.len()
        }
    };
    ensure!(got.len() == n, "{} children enumerated of {n}", got.len());
    for (i, ((gk, gv), (wk, wv))) in got.iter().zip(&want).enumerate() {
        match wk {
            Ok(bits) => {
                let x = gk.clone().try_move::<f64>();
                ensure!(
                    x.map(|x| x.to_bits()) == Ok(*bits),
                    "key {i} of an array is {x:?}"
                );
            }
            Err(s) => {
                only(gk, K::Str)?;
                let t = gk.try_ref::<JsString>().unwrap().object().items();
                ensure!(
                    t == s,
                    "key {i} of an object is {}",
                    nanvm_monitor::val::show(t)
                );
            }
        }
        ensure!(gv == wv, "child {i} is another value than the {i}th");
        c.ev("children", 1);
    }
    drop(got);
    // the visitor gives the very same container
    match (k, to_visitor(a.clone())) {
        (K::Arr, Visitor::Array(v)) => {
            ensure!(
                v.items().len() == want.len()
                    && v.items().iter().zip(&want).all(|(x, y)| *x == y.1),
                "visited array differs"
            )
        }
        (K::Obj, Visitor::Object(v)) => ensure!(
            v.items().len() == want.len()
                && v.items()
                    .iter()
                    .zip(&want)
                    .all(|(x, y)| x.1 == y.1 && Err(x.0.items().to_vec()) == y.0),
            "visited object differs"
        ),
        (K::Str, Visitor::String(v)) => {
            ensure!(
                v.items() == a.try_ref::<JsString>().unwrap().object().items(),
                "visited string differs"
            )
        }
        (K::Big, Visitor::Bigint(v)) => {
            let b = a.try_ref::<JsBigint>().unwrap().object();
            ensure!(
                v.items() == b.items() && v.sign() == b.sign(),
                "visited big integer differs"
            )
        }
        (K::Num | K::Bool | K::Null, v) => {
            ensure!(visited(&v) == k, "a {k:?} is visited as {:?}", visited(&v))
        }
        (_, v) => return Err(format!("a {k:?} is visited as {:?}", visited(&v))),
    }
    for (_, x) in &want {
        walk(x, c, seen)?;
    }
    Ok(())
}

/// Whole graphs: built, enumerated, read back, dismantled.
fn v01_graphs(c: &mut Case) -> R {
    let o = Opt {
        surrogates: true,
        nonfinite: true,
        ..DATA
    };
    let g: G = if c.rng.chance(1, 5) {
        gen_shape(&mut c.rng, &o, 8)
    } else {
        let nodes = if c.tier == Tier::Tiny {
            8
        } else {
            *c.rng.pick(&[10, 40, 120])
        };
        gen_graph(&mut c.rng, &Opt { nodes, ..o })
    };
    fn go<M: Manager>(m: M, c: &mut Case, g: &G) -> R {
        let a = build(m, g);
        let mut seen = HashSet::new();
        walk(&a, c, &mut seen)?;
        c.ev("containers", seen.len() as u64);
        same(
            &read(&a),
            g,
            Cmp {
                identity: true,
                order: true,
            },
        )?;
        // a clone outlives the original
        let b = a.clone();
        drop(a);
        same(
            &read(&b),
            g,
            Cmp {
                identity: true,
                order: true,
            },
        )?;
        Ok(())
    }
    c.sample(|| format!("graph {}", nanvm_monitor::text::clip(&g.canon())));
    match c.rng.below(3) {
        0 => go(Track, c, &g)?,
        1 => go(TrackA, c, &g)?,
        _ => return go(GLOBAL, c, &g),
    }
    c.sig(g.hash());
    c.ev("graphs", 1);
    track::finish()
}

/// Every length of every dimension.
fn v01_sizes(c: &mut Case) -> R {
    let (dim, n) = c.sweep(val::SIZED);
    let g = val::sized(&mut c.rng, dim, n);
    let a = build(Track, &g);
    let mut seen = HashSet::new();
    walk(&a, c, &mut seen)?;
    same(
        &read(&a),
        &g,
        Cmp {
            identity: true,
            order: true,
        },
    )?;
    let b = a.clone();
    drop(a);
    same(
        &read(&b),
        &g,
        Cmp {
            identity: true,
            order: true,
        },
    )?;
    drop(b);
    c.ev("lengths", 1);
    c.sig(mix((dim * 1_000_000 + n) as u64));
    track::finish()
}

/// Wide containers: no child is lost, far from the beginning, either.
fn v01_wide(c: &mut Case) -> R {
    let n = match c.index % 4 {
        0 => c.rng.range(255, 257),
        1 => c.rng.range(65_535, 65_537),
        2 => c.rng.range(1_000, 100_000),
        _ => c.rng.range(1, 300),
    };
    let m = Track;
    let a: Any<Track> = if c.rng.bool() {
        let v: Vec<_> = (0..n).map(|i| (i as f64 + 0.5).move_to_any()).collect();
        new_array(m, v).to_ref().move_to_any()
    } else {
        let k = new_string(m, [1u16, 2]).to_ref();
        let v: Vec<_> = (0..n)
            .map(|i| (k.clone(), (i as f64 + 0.5).move_to_any()))
            .collect();
        new_object(m, v).to_ref().move_to_any()
    };
    let mut i = 0usize;
    let arr = a.is::<JsArrayRef<Track>>();
    a.for_each(|k, v| {
        if arr && k.try_move::<f64>() != Ok(i as f64) {
            return Err(format!("key {i} differs"));
        }
        if v.clone().try_move::<f64>() != Ok(i as f64 + 0.5) {
            return Err(format!("child {i} differs"));
        }
        i += 1;
        Ok(())
    })?;
    ensure!(i == n, "{i} children enumerated of {n}");
    c.ev("wide containers", 1);
    c.sig(n as u64);
    drop(a);
    track::finish()
}

/// Nothing else of the process's memory is kept, either.
fn v01_ledger(c: &mut Case) -> R {
    galloc::start(None);
    let r = (|| {
        for _ in 0..8 {
            let s: Vec<u16> = (0..c.rng.size(40)).map(|_| c.rng.u64() as u16).collect();
            let a: Any<nanvm_lib::mem::global::Global> =
                new_string(GLOBAL, s.clone()).to_ref().move_to_any();
            let k = *c.rng.pick(&KINDS);
            let _ = takes(a.clone(), k);
            let v = new_array(GLOBAL, [a.clone(), a.clone(), a])
                .to_ref()
                .move_to_any();
            let _ = takes(v, *c.rng.pick(&KINDS));
        }
        Ok(())
    })();
    let rep = galloc::stop();
    ensure!(rep.errors.is_empty(), "{}", rep.errors[0]);
    ensure!(
        rep.live.is_empty(),
        "{} blocks not returned, the first of {:?}",
        rep.live.len(),
        rep.live[0].1
    );
    c.ev("ledgers balanced", 1);
    let s = c.rng.u64();
    c.sig(s);
    r
}

// ---------------------------------------------------------------- V02

/// A set of words: the bits of `mask` are those of `tag`, all others are free.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Words {
    tag: u64,
    mask: u64,
}

impl Words {
    fn member(&self, free: u64) -> u64 {
        self.tag | (free & !self.mask)
    }
    fn has(&self, w: u64) -> bool {
        (0..64).all(|i| self.mask >> i & 1 == 0 || (self.tag >> i ^ w >> i) & 1 == 0)
    }
    /// As the code makes it, in one of its ways.
    fn make(&self, r: &mut Rng) -> BitSubset64 {
        match r.below(3) {
            0 => BitSubset64::from_tag_and_mask(self.tag, self.mask),
            1 => BitSubset64::from_tag_and_superposition(self.tag, !self.mask),
            _ => BitSubset64::from_tag_and_union(self.tag, self.tag | !self.mask),
        }
    }
}

fn word(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << r.below(64),
        3 => u64::MAX << r.below(64),
        4 => r.u64() & r.u64() & r.u64(),
        _ => r.u64(),
    }
}

fn words(r: &mut Rng) -> Words {
    let mask = if r.bool() { word(r) } else { !word(r) };
    Words {
        tag: word(r) & mask,
        mask,
    }
}

fn is_set(x: BitSubset64, w: Words, what: &str) -> R {
    ensure!(
        (x.tag, x.mask) == (w.tag, w.mask)
            && x.superposition() == !w.mask
            && x.union() == w.tag | !w.mask,
        "{what}: tag {:x} mask {:x} superposition {:x} union {:x} instead of {w:x?}",
        x.tag,
        x.mask,
        x.superposition(),
        x.union()
    );
    Ok(())
}

fn refused(what: &str, f: impl FnOnce() -> BitSubset64) -> R {
    match guarded(f) {
        Err(_) => Ok(()),
        Ok(x) => Err(format!(
            "{what} is not refused: tag {:x} mask {:x}",
            x.tag, x.mask
        )),
    }
}

fn pair(c: &mut Case, a: Words, b: Words, probes: &[u64]) -> R {
    let (x, y) = (a.make(&mut c.rng), b.make(&mut c.rng));
    is_set(x, a, "made")?;
    for &w in probes {
        for (s, m) in [(x, a), (y, b)] {
            ensure!(s.has(w) == m.has(w), "{w:x} in {m:x?} is {}", s.has(w));
        }
        c.ev("membership tests", 1);
    }
    // the smallest set that has both
    let mask = a.mask & b.mask & !(a.tag ^ b.tag);
    let both = Words {
        tag: a.tag & mask,
        mask,
    };
    is_set(x.or_unchecked(y), both, &format!("{a:x?} or {b:x?}"))?;
    if a.mask == b.mask {
        is_set(x.or(y), both, &format!("{a:x?} or {b:x?}"))?;
        c.ev("joins", 1);
    } else if c.rng.chance(1, 16) {
        refused(&format!("{a:x?} or {b:x?}"), || x.or(y))?;
        c.ev("joins refused", 1);
    }
    // the common part
    if (a.tag ^ b.tag) & a.mask & b.mask == 0 {
        let w = Words {
            tag: a.tag | b.tag,
            mask: a.mask | b.mask,
        };
        is_set(x.and(y), w, &format!("{a:x?} and {b:x?}"))?;
        for &p in probes {
            ensure!(
                x.and(y).has(p) == (a.has(p) && b.has(p)),
                "{p:x} in {a:x?} and {b:x?}"
            );
        }
        c.ev("common parts", 1);
    } else if c.rng.chance(1, 16) {
        refused(&format!("{a:x?} and {b:x?}"), || x.and(y))?;
        c.ev("empty common parts refused", 1);
    }
    Ok(())
}

/// Random sets of words.
fn v02_sets(c: &mut Case) -> R {
    let a = words(&mut c.rng);
    let b = match c.rng.below(5) {
        0 => Words {
            tag: word(&mut c.rng) & a.mask,
            mask: a.mask,
        },
        1 => {
            // a part of it
            let mask = a.mask | word(&mut c.rng);
            Words {
                tag: a.member(c.rng.u64()) & mask,
                mask,
            }
        }
        2 => {
            let i = c.rng.below(64);
            Words {
                tag: a.tag ^ (a.mask & (1 << i)),
                mask: a.mask,
            }
        }
        _ => words(&mut c.rng),
    };
    let mut probes: Vec<u64> = vec![0, u64::MAX, a.tag, b.tag, a.mask, !a.mask];
    for _ in 0..6 {
        let f = word(&mut c.rng);
        let i = c.rng.below(64);
        probes.extend([
            a.member(f),
            b.member(f),
            a.member(f) ^ (1 << i),
            b.member(f) ^ (1 << i),
            f,
        ]);
    }
    pair(c, a, b, &probes)?;
    // every bit counts
    let x = a.make(&mut c.rng);
    let m = a.member(c.rng.u64());
    for i in 0..64 {
        ensure!(
            x.has(m ^ (1 << i)) == (a.mask >> i & 1 == 0),
            "bit {i} of {m:x} in {a:x?}"
        );
    }
    // in two
    let sub = match c.rng.below(4) {
        0 => word(&mut c.rng),
        1 => !a.mask,
        2 if a.mask != u64::MAX => loop {
            let b = 1 << c.rng.below(64);
            if b & a.mask == 0 {
                break b;
            }
        },
        _ => word(&mut c.rng) & !a.mask,
    };
    if sub == 0 || sub & a.mask != 0 {
        refused(&format!("{a:x?} split by {sub:x}"), || x.split(sub).0)?;
        c.ev("splits refused", 1);
    } else {
        let (l, h) = x.split(sub);
        is_set(
            l,
            Words {
                tag: a.tag,
                mask: a.mask | sub,
            },
            &format!("lower part of {a:x?} by {sub:x}"),
        )?;
        is_set(
            h,
            Words {
                tag: a.tag | sub,
                mask: a.mask | sub,
            },
            &format!("upper part of {a:x?} by {sub:x}"),
        )?;
        c.ev("splits", 1);
    }
    // tags with bits outside of the mask are no sets
    let t = word(&mut c.rng);
    if t & a.mask != t {
        refused(&format!("tag {t:x} mask {:x}", a.mask), || {
            BitSubset64::from_tag_and_mask(t, a.mask)
        })?;
        refused(&format!("tag {t:x} superposition {:x}", !a.mask), || {
            BitSubset64::from_tag_and_superposition(t, !a.mask)
        })?;
        c.ev("sets refused", 1);
    }
    // words with bits that have to be one
    let z = BitSubset64::<u64>::from_tag(t);
    for &p in &probes {
        ensure!(
            z.has(p) == (p & t == t),
            "{p:x} in the words with the bits {t:x}"
        );
    }
    is_set(z, Words { tag: t, mask: t }, "made of a tag")?;
    // in and out
    let v = word(&mut c.rng) & !a.mask;
    let w = x.raw_value_to_subset_value(v);
    ensure!(w == a.member(v) && x.has(w), "{v:x} in {a:x?} is {w:x}");
    ensure!(
        x.typed_value_to_subset_value(v) == w,
        "{v:x} in {a:x?}, typed"
    );
    ensure!(
        x.subset_value_to_typed_value(w) == v,
        "{v:x} comes out of {a:x?} as {:x}",
        x.subset_value_to_typed_value(w)
    );
    let p = x.cast::<*const u16>();
    ensure!(
        p.typed_value_to_subset_value(v as *const u16) == w,
        "pointer {v:x} in {a:x?}"
    );
    ensure!(
        p.subset_value_to_typed_value(w) as u64 == v,
        "pointer {v:x} out of {a:x?}"
    );
    let one = 1u64 << c.rng.below(64);
    let truth = BitSubset64::from_tag_and_mask(a.tag & !1, a.mask & !1).cast::<bool>();
    for b in [false, true] {
        let w = truth.typed_value_to_subset_value(b);
        ensure!(
            w == (a.tag & !1) | b as u64 && truth.subset_value_to_typed_value(w) == b,
            "{b} in {a:x?}"
        );
    }
    c.ev("values in and out", 1);
    c.sig(mix(a.tag) ^ mix(a.mask) ^ mix(b.tag) ^ one);
    c.sample(|| format!("{a:x?} {b:x?}"));
    Ok(())
}

/// Every pair of sets over a few bits, every word.
fn v02_small(c: &mut Case) -> R {
    const N: usize = 4;
    let mut at = [0u64; N];
    for i in 0..N {
        at[i] = loop {
            let b = 1u64 << c.rng.below(64);
            if !at[..i].contains(&b) {
                break b;
            }
        };
    }
    let spread = |n: usize| {
        (0..N)
            .filter(|i| n >> i & 1 == 1)
            .map(|i| at[i])
            .sum::<u64>()
    };
    let rest = words(&mut c.rng);
    let all = spread((1 << N) - 1);
    let mut sets = vec![];
    for mask in 0..1 << N {
        for tag in (0..1 << N).filter(|t| t & mask == *t) {
            let mask = spread(mask) | (rest.mask & !all);
            sets.push(Words {
                tag: spread(tag) | (rest.tag & !all),
                mask,
            });
        }
    }
    let free = c.rng.u64();
    let probes: Vec<u64> = (0..1 << N)
        .map(|w| spread(w) | (rest.member(free) & !all))
        .collect();
    for &a in &sets {
        for &b in &sets {
            pair(c, a, b, &probes)?;
        }
    }
    c.ev("pairs of small sets", (sets.len() * sets.len()) as u64);
    c.sig(mix(all) ^ rest.tag);
    Ok(())
}

// ---------------------------------------------------------------- V03

/// What makes a value the one it is.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Self_ {
    Num(u64),
    Bool(bool),
    Null,
    /// The how manieth value made.
    Made(usize),
}

fn v03_pool<M: Manager>(c: &mut Case, m: M) -> R {
    type P<D> = Vec<(Any<D>, Self_)>;
    let n = if c.tier == Tier::Tiny {
        8
    } else {
        c.rng.range(4, 60)
    };
    let mut pool: P<M::Dealloc> = vec![];
    let mut made = 0;
    let some: [u64; 12] = [
        0,
        1 << 63,
        1,
        0x3ff0_0000_0000_0000,
        0xbff0_0000_0000_0000,
        0x7ff0_0000_0000_0000,
        0xfff0_0000_0000_0000,
        0x7fef_ffff_ffff_ffff,
        0x000f_ffff_ffff_ffff,
        0x4000_0000_0000_0000,
        0x4000_0000_0000_0001,
        0x0000_7f00_0000_1000,
    ];
    for _ in 0..n {
        let (a, id): (Any<M::Dealloc>, _) = match c.rng.below(12) {
            0 | 1 => {
                let b = *c.rng.pick(&some);
                (f64::from_bits(b).move_to_any(), Self_::Num(b))
            }
            2 => {
                let b = low_bits(&mut c.rng);
                (f64::from_bits(b).move_to_any(), Self_::Num(b))
            }
            3 => {
                let b = c.rng.bool();
                (b.move_to_any(), Self_::Bool(b))
            }
            4 => (Null().move_to_any(), Self_::Null),
            5 | 6 if !pool.is_empty() => {
                // the very same, by way of another kind of reference now and then
                let (a, id) = pool[c.rng.below(pool.len())].clone();
                let a = match a.clone().try_move::<JsStringRef<M::Dealloc>>() {
                    Ok(r) if c.rng.bool() => r.clone().move_to_any(),
                    _ => a,
                };
                (a, id)
            }
            k => {
                // equal in content to others, but another value
                made += 1;
                let u = c.rng.below(3) as u64;
                let a = match k {
                    7 | 5 => new_string(m, [u as u16]).to_ref().move_to_any(),
                    8 | 6 => new_bigint(m, Sign::Positive, if u == 0 { vec![] } else { vec![u] })
                        .to_ref()
                        .move_to_any(),
                    9 => new_array(
                        m,
                        (0..u).map(|x| (x as f64).move_to_any()).collect::<Vec<_>>(),
                    )
                    .to_ref()
                    .move_to_any(),
                    10 if !pool.is_empty() => {
                        let i = c.rng.below(pool.len());
                        new_array(m, [pool[i].0.clone()]).to_ref().move_to_any()
                    }
                    10 => new_array(m, []).to_ref().move_to_any(),
                    _ => new_object(
                        m,
                        (0..u)
                            .map(|x| (new_string(m, [x as u16]).to_ref(), true.move_to_any()))
                            .collect::<Vec<_>>(),
                    )
                    .to_ref()
                    .move_to_any(),
                };
                (a, Self_::Made(made))
            }
        };
        pool.push((a, id));
    }
    let h = RandomState::new();
    for (i, (a, x)) in pool.iter().enumerate() {
        for (b, y) in &pool {
            ensure!((a == b) == (x == y), "{x:?} == {y:?} is {}", a == b);
            ensure!((a != b) == (x != y), "{x:?} != {y:?} is {}", a != b);
            ensure!(
                x != y || h.hash_one(a) == h.hash_one(b),
                "the same {x:?} with two hashes"
            );
        }
        c.ev("comparisons", pool.len() as u64);
        // strings also as references
        if let Ok(r) = a.clone().try_move::<JsStringRef<M::Dealloc>>() {
            for (b, y) in &pool[..i] {
                if let Ok(s) = b.clone().try_move::<JsStringRef<M::Dealloc>>() {
                    ensure!(
                        (r == s) == (x == y),
                        "references to the strings {x:?} and {y:?}: {}",
                        r == s
                    );
                    ensure!(
                        x != y || h.hash_one(&r) == h.hash_one(&s),
                        "the same {x:?} with two hashes"
                    );
                    c.ev("comparisons of references", 1);
                }
            }
        }
    }
    // sets and maps by identity
    let want: HashSet<Self_> = pool.iter().map(|p| p.1).collect();
    let mut set: HashSet<Any<M::Dealloc>> = HashSet::new();
    let mut seen: HashSet<Self_> = HashSet::new();
    for (a, x) in &pool {
        let fresh = seen.insert(*x);
        ensure!(
            set.insert(a.clone()) == fresh,
            "{x:?} in the set: {}",
            !fresh
        );
    }
    ensure!(
        set.len() == want.len(),
        "{} values in a set of {}",
        set.len(),
        want.len()
    );
    for (a, x) in &pool {
        ensure!(set.contains(a), "{x:?} not found");
        if c.rng.chance(1, 3) {
            ensure!(set.remove(a) == seen.remove(x), "{x:?} taken out");
            ensure!(!set.contains(a), "{x:?} still found");
            set.insert(a.clone());
            seen.insert(*x);
        }
    }
    c.ev("sets", 1);
    // none of this counts as a reference
    drop(set);
    let k = c.rng.below(pool.len());
    let (a, x) = pool.swap_remove(k);
    let held = pool.iter().any(|p| p.1 == x);
    if !held {
        if let Ok(r) = a.try_move::<JsStringRef<M::Dealloc>>() {
            // it may lie in a container
            let inside = pool.iter().any(|p| {
                let mut f = false;
                let _ = p.0.for_each::<()>(|_, v| {
                    f |= v
                        .clone()
                        .try_move::<JsStringRef<M::Dealloc>>()
                        .map(|s| s == r)
                        == Ok(true);
                    Ok(())
                });
                f
            });
            ensure!(
                r.try_to_mut_ref().is_ok() == !inside,
                "exclusive access after comparing"
            );
            c.ev("exclusive access after comparing", 1);
        }
    }
    let s = pool.iter().fold(0, |h, p| {
        mix(h ^ match p.1 {
            Self_::Num(b) => b,
            Self_::Bool(b) => 2 + b as u64,
            Self_::Null => 5,
            Self_::Made(n) => n as u64 + 100,
        })
    });
    c.sample(|| {
        text_of::clip(
            &pool
                .iter()
                .map(|p| format!("{:x?}", p.1))
                .collect::<Vec<_>>()
                .join(" "),
        )
    });
    c.sig(s);
    Ok(())
}

fn v03_identity(c: &mut Case) -> R {
    track::reset();
    match c.rng.below(3) {
        0 => v03_pool(c, Track)?,
        1 => v03_pool(c, TrackA)?,
        _ => v03_pool(c, GLOBAL)?,
    }
    track::finish()
}

fn main() {
    let a = args();
    if a.property == "NONE" {
        println!("READY");
        return;
    }
    let kinds: &[Kind] = match a.property.as_str() {
        "V01" => &[
            kind!(v01_tops, 256, 16_384, 2),
            kind!(v01_numbers, 60_000, 1_000_000, 4),
            kind!(v01_simple, 1, 1, 1),
            kind!(v01_references, 200_000, 3_000_000, 8),
            kind!(v01_graphs, 80_000, 1_500_000, 4),
            kind!(v01_sizes, 2_475, 9_900, 0),
            kind!(v01_wide, 1_000, 10_000, 0),
            kind!(v01_ledger, 4_000, 100_000, 2),
        ],
        "V02" => &[
            kind!(v02_sets, 200_000, 20_000_000, 20),
            kind!(v02_small, 100, 10_000, 0),
        ],
        "V03" => &[kind!(v03_identity, 120_000, 6_000_000, 12)],
        p => panic!("unknown property {p}"),
    };
    drive(&a, kinds);
}

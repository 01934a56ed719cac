//! S01, S02, S03: what is written, against independent readers.
use nanvm_lib::{
    app,
    js::any::Any,
    mem::{
        global::GLOBAL,
        manager::{Dealloc, Manager},
    },
    parser::shared::ModuleCache,
    serializer::{to_djs::to_djs, to_json::to_json},
};
use nanvm_monitor::{
    ensure,
    io::MemIo,
    kind,
    run::{args, drive, hash_str, mix, Case, Kind, Rng, Tier, R},
    sys::{any_how, read_text, How},
    text::{
        self, lex, module, write_json, write_module, Dt, Layout, NoImports, Style, LOOSE, STRICT,
    },
    track::{self, Track, TrackA},
    tree::{gen_tree, Shape},
    val::{
        self, build, gen_graph, gen_number, gen_shape, gen_units, same, units, Cmp, Opt, DATA, G,
        JSON, SHARED, V, VALUE,
    },
};
use std::process::{Command, Stdio};

const ORDERED: Cmp = Cmp {
    identity: false,
    order: true,
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Format {
    Json,
    Cjs,
    Mjs,
}

const FORMATS: [Format; 3] = [Format::Json, Format::Cjs, Format::Mjs];

fn write_any<D: Dealloc>(a: Any<D>, f: Format) -> Option<String> {
    match f {
        Format::Json => to_json(a),
        Format::Cjs => to_djs(a, true),
        Format::Mjs => to_djs(a, false),
    }
    .ok()
}

/// Builds the value with some manager and writes it; everything must be given back.
fn write(r: &mut Rng, g: &G, f: Format) -> Result<Option<String>, String> {
    fn go<M: Manager>(m: M, g: &G, f: Format) -> Result<Option<String>, String> {
        let a = build(m, g);
        let s = write_any(a.clone(), f);
        // writing changes nothing
        same(
            &val::read(&a),
            g,
            Cmp {
                identity: true,
                order: true,
            },
        )
        .map_err(|e| format!("changed by writing: {e}"))?;
        Ok(s)
    }
    match r.below(4) {
        0 | 1 => go(GLOBAL, g, f),
        2 => {
            track::reset();
            let s = go(Track, g, f)?;
            track::finish()?;
            Ok(s)
        }
        _ => {
            track::reset();
            let s = go(TrackA, g, f)?;
            track::finish()?;
            Ok(s)
        }
    }
}

fn read_system(r: &mut Rng, t: &str) -> Result<(Dt, G), String> {
    let io = MemIo::new("/m");
    let mut cache = ModuleCache::default();
    let how = any_how(r);
    read_text(GLOBAL, &io, &mut cache, "/m/root", t, how)
        .map(|(d, a)| (d, val::read(&a)))
        .map_err(|e| format!("the reader refuses it ({e})"))
}

fn has_half(g: &G) -> bool {
    let lone = |s: &[u16]| char::decode_utf16(s.iter().copied()).any(|c| c.is_err());
    g.nodes.iter().any(|v| match v {
        V::Str(s) => lone(s),
        V::Obj(v) => v.iter().any(|e| lone(&e.0)),
        _ => false,
    })
}

// ------------------------------------------------------------------ S01

fn json_ok(c: &mut Case, g: &G) -> R {
    let s = write(&mut c.rng, g, Format::Json)?.ok_or("refused to write as JSON")?;
    let e = |e: String| format!("{e}; written {}", text::clip(&s));
    let w = text::json(&s).map_err(|x| e(format!("invalid JSON: {x}")))?;
    same(&w, g, ORDERED).map_err(e)?;
    if has_half(g) {
        c.ev("strings with half a surrogate pair", 1);
    } else {
        let (d, got) = read_system(&mut c.rng, &s).map_err(e)?;
        ensure!(d == Dt::Json, "{}", e(format!("read back as {d:?}")));
        same(&got, g, VALUE).map_err(e)?;
        c.ev("read back", 1);
    }
    if c.rng.chance(1, 3) && !s.contains("__proto__") {
        c.node("json", &s, &w.canon());
    }
    c.ev("values written", 1);
    c.ev("bytes written", s.len() as u64);
    c.sample(|| text::clip(&s));
    c.sig(hash_str(&s));
    Ok(())
}

fn s01_values(c: &mut Case) -> R {
    let n = *c.rng.pick(&[1, 6, 40, 200]);
    let share = *c.rng.pick(&[0, 0, 20]);
    let g = if c.rng.chance(1, 10) {
        gen_shape(&mut c.rng, &Opt { share, ..JSON }, 9)
    } else {
        gen_graph(
            &mut c.rng,
            &Opt {
                nodes: n,
                share,
                proto: true,
                ..JSON
            },
        )
    };
    if g.tree_size() > 20_000 {
        return Ok(());
    }
    json_ok(c, &g)
}

/// Many numbers at once, bit for bit.
fn s01_numbers(c: &mut Case) -> R {
    let mut g = G::default();
    let v = (0..30)
        .map(|_| {
            let f = if c.rng.chance(1, 3) {
                // decimal edges: the shortest digits matter
                let m = c.rng.u64() >> c.rng.range(0, 60);
                let f: f64 = format!("{m}e{}", c.rng.range(0, 640) as i32 - 330)
                    .parse()
                    .unwrap();
                if f.is_finite() {
                    f
                } else {
                    0.1
                }
            } else {
                gen_number(&mut c.rng)
            };
            let f = if c.rng.bool() { f } else { -f };
            g.add(V::Num(f.to_bits()))
        })
        .collect();
    g.root = g.add(V::Arr(v));
    c.ev("numbers", 30);
    json_ok(c, &g)
}

/// Strings of any 16-bit units, as values and keys.
fn s01_strings(c: &mut Case) -> R {
    let mut g = G::default();
    let o = Opt {
        surrogates: true,
        proto: true,
        ..JSON
    };
    let v: Vec<usize> = (0..c.rng.range(1, 6))
        .map(|_| {
            let s: Vec<u16> = match c.rng.below(3) {
                0 => (0..c.rng.size(60)).map(|_| c.rng.u64() as u16).collect(),
                1 => (0..c.rng.size(30))
                    .map(|_| 0xD7F0 + c.rng.below(0x820) as u16)
                    .collect(),
                _ => gen_units(&mut c.rng, &o),
            };
            let n = g.add(V::Null);
            if c.rng.chance(1, 3) {
                g.add(V::Obj(vec![(s, n)]))
            } else {
                g.add(V::Str(s))
            }
        })
        .collect();
    c.ev("strings", v.len() as u64);
    g.root = g.add(V::Arr(v));
    json_ok(c, &g)
}

/// Each 16-bit unit once, alone and next to others.
fn s01_units(c: &mut Case) -> R {
    let mut g = G::default();
    let from = c.index as u16 * 256;
    let v = (0..256u16)
        .map(|k| {
            let u = from + k;
            let s = match k % 3 {
                0 => vec![u],
                1 => vec![u, b'0' as u16],
                _ => vec![b'\\' as u16, u, b'"' as u16],
            };
            g.add(V::Str(s))
        })
        .collect();
    g.root = g.add(V::Arr(v));
    c.ev("single units", 256);
    json_ok(c, &g)
}

/// What JSON cannot hold is refused wherever it is.
fn s01_refused(c: &mut Case) -> R {
    let mut g = gen_graph(
        &mut c.rng,
        &Opt {
            nodes: 20,
            share: 10,
            ..JSON
        },
    );
    let bad = match c.rng.below(5) {
        0 => V::Num(f64::NAN.to_bits()),
        1 => V::Num(f64::INFINITY.to_bits()),
        2 => V::Num(f64::NEG_INFINITY.to_bits()),
        _ => val::gen_bigint(&mut c.rng),
    };
    let mut id = g.add(bad);
    for _ in 0..c.rng.below(4) {
        let other = g.root;
        id = match c.rng.below(4) {
            0 => g.add(V::Arr(vec![id])),
            1 => g.add(V::Arr(vec![other, id])),
            2 => g.add(V::Obj(vec![(units("x"), id), (units("y"), other)])),
            _ => g.add(V::Obj(vec![(units("z"), other), (units("a"), id)])),
        };
    }
    g.root = id;
    let r = write(&mut c.rng, &g, Format::Json)?;
    ensure!(
        r.is_none(),
        "written as {}",
        text::clip(&r.unwrap_or_default())
    );
    c.ev("refused values", 1);
    c.sig(g.hash());
    Ok(())
}

/// Values with more items, keys or units than 16-bit counters hold.
fn s01_vast(c: &mut Case) -> R {
    let mut g = G::default();
    let n = c.rng.vast();
    g.root = match c.rng.below(4) {
        0 => {
            let v = (0..n)
                .map(|i| g.add(V::Num((i as f64).to_bits())))
                .collect();
            g.add(V::Arr(v))
        }
        1 => {
            let v = (0..n)
                .map(|i| {
                    let x = if i % 3 == 0 {
                        V::Arr(vec![])
                    } else {
                        V::Bool(i % 2 == 0)
                    };
                    (units(&format!("k{i}")), g.add(x))
                })
                .collect::<std::collections::BTreeMap<_, _>>();
            g.add(V::Obj(v.into_iter().collect()))
        }
        2 => {
            let s: String = (0..n).map(|_| val::gen_char(&mut c.rng)).collect();
            g.add(V::Str(units(&s)))
        }
        _ => {
            let s = "k".repeat(n);
            let v = [n - 1, n].map(|i| (units(&s[..i]), g.add(V::Num((i as f64).to_bits()))));
            g.add(V::Obj(v.into()))
        }
    };
    c.ev("values of over 65000 parts", 1);
    json_ok(c, &g)
}

/// More shared containers, or uses of one, than 16-bit counters hold.
fn s02_vast(c: &mut Case) -> R {
    let mut g = G::default();
    let n = c.rng.vast();
    let v: Vec<_> = match c.rng.below(3) {
        0 => {
            let v: Vec<_> = (0..n)
                .map(|i| {
                    g.add(if i % 2 == 0 {
                        V::Arr(vec![])
                    } else {
                        V::Obj(vec![])
                    })
                })
                .collect();
            v.iter().chain(v.iter().rev()).copied().collect()
        }
        1 => {
            let x = g.add(V::Arr(vec![]));
            let y = g.add(V::Obj(vec![(units("a"), x)]));
            (0..n).map(|i| if i % 5 == 0 { x } else { y }).collect()
        }
        _ => (0..n)
            .map(|i| g.add(V::Num((i as f64).to_bits())))
            .collect(),
    };
    g.root = g.add(V::Arr(v));
    c.ev("values of over 65000 parts", 1);
    let cjs = c.rng.bool();
    module_ok(c, &g, cjs)
}

/// Every length of every dimension.
fn s01_sizes(c: &mut Case) -> R {
    let (dim, n) = c.sweep(val::SIZED_JSON);
    let g = val::sized(&mut c.rng, dim, n);
    c.ev("lengths", 1);
    json_ok(c, &g)
}

fn s02_sizes(c: &mut Case) -> R {
    let (dim, n) = c.sweep(val::SIZED);
    let g = val::sized(&mut c.rng, dim, n);
    c.ev("lengths", 1);
    let cjs = c.rng.bool();
    module_ok(c, &g, cjs)
}

fn s01_large(c: &mut Case) -> R {
    let mut g = G::default();
    match c.rng.below(3) {
        0 => {
            let mut top = g.add(V::Null);
            for _ in 0..c.rng.range(100, 1000) {
                let v = if c.rng.bool() {
                    V::Arr(vec![top])
                } else {
                    V::Obj(vec![(units("k"), top)])
                };
                top = g.add(v);
            }
            g.root = top;
        }
        1 => {
            let v = (0..c.rng.range(1000, 20_000))
                .map(|_| {
                    let f = gen_number(&mut c.rng);
                    g.add(V::Num(f.to_bits()))
                })
                .collect();
            g.root = g.add(V::Arr(v));
        }
        _ => {
            let n = c.rng.range(1000, 60_000);
            let s: String = (0..n).map(|_| val::gen_char(&mut c.rng)).collect();
            g.root = g.add(V::Str(units(&s)));
        }
    }
    c.ev("large values", 1);
    json_ok(c, &g)
}

// ------------------------------------------------------------------ S02

/// The most a module for the value may need: everything once.
fn bound(g: &G) -> usize {
    let leaf = |v: &V| match v {
        V::Num(_) => 1100,
        V::Str(s) => 2 + 6 * s.len(),
        V::Big(_, w) => 3 + 20 * w.len().max(1),
        _ => 8,
    };
    let mut n = 64;
    for &i in g.refs().keys() {
        let one = |c: usize| {
            1 + if g.is_container(c) {
                24
            } else {
                leaf(&g.nodes[c])
            }
        };
        n += match &g.nodes[i] {
            V::Arr(v) => 64 + v.iter().map(|&c| one(c)).sum::<usize>(),
            V::Obj(v) => {
                64 + v
                    .iter()
                    .map(|(k, c)| 3 + 6 * k.len() + one(*c))
                    .sum::<usize>()
            }
            v => leaf(v),
        };
    }
    n
}

fn module_ok(c: &mut Case, g: &G, cjs: bool) -> R {
    let f = if cjs { Format::Cjs } else { Format::Mjs };
    let s = write(&mut c.rng, g, f)?.ok_or_else(|| format!("refused to write as {f:?}"))?;
    let e = |e: String| format!("{e}; written {}", text::clip(&s));
    let most = bound(g);
    ensure!(
        s.len() <= most,
        "{}",
        e(format!(
            "{} bytes, everything once needs {most} at most",
            s.len()
        ))
    );
    let dt = if cjs { Dt::Cjs } else { Dt::Mjs };
    // the reference reader
    let mut w = G::default();
    if has_half(g) {
        c.ev("strings with half a surrogate pair", 1);
    } else {
        let l = lex(&s);
        let a = module(&l, &mut w, &mut NoImports)
            .map_err(|x| e(format!("the reference reader: {x:?}")))?;
        w.root = a.root;
        ensure!(a.dt == dt, "{}", e(format!("a module of kind {:?}", a.dt)));
        same(&w, g, SHARED).map_err(|x| e(format!("the reference reader: {x}")))?;
        // the system's reader
        let (d, got) = read_system(&mut c.rng, &s).map_err(e)?;
        ensure!(d == dt, "{}", e(format!("read back as {d:?}")));
        same(&got, g, SHARED).map_err(|x| e(format!("read back: {x}")))?;
        c.ev("read back", 1);
    }
    // the engine
    if c.rng.chance(1, 2) {
        c.node(if cjs { "cjs" } else { "mjs" }, &s, &g.canon());
    }
    c.ev("modules written", 1);
    c.ev("bytes written", s.len() as u64);
    let shared = g
        .refs()
        .iter()
        .filter(|(i, n)| **n > 1 && g.is_container(**i))
        .count();
    if shared > 0 {
        c.ev("modules with shared containers", 1);
        c.ev("shared containers", shared as u64);
    }
    c.sample(|| text::clip(&s));
    c.sig(hash_str(&s));
    Ok(())
}

fn s02_graphs(c: &mut Case) -> R {
    let n = *c.rng.pick(&[3, 12, 60, 200]);
    let share = *c.rng.pick(&[0, 15, 40, 70]);
    let nonfinite = c.rng.chance(1, 6);
    let g = gen_graph(
        &mut c.rng,
        &Opt {
            nodes: n,
            share,
            nonfinite,
            ..DATA
        },
    );
    let cjs = c.rng.bool();
    module_ok(c, &g, cjs)
}

/// Chains of diamonds, layered graphs, many users of a few values.
fn s02_shapes(c: &mut Case) -> R {
    let n = *c.rng.pick(&[4, 20, 60]);
    let g = gen_shape(&mut c.rng, &DATA, n);
    let cjs = c.rng.bool();
    c.ev("shapes", 1);
    module_ok(c, &g, cjs)
}

fn s02_leaves(c: &mut Case) -> R {
    let mut g = G::default();
    let o = Opt {
        surrogates: c.rng.chance(1, 4),
        nonfinite: true,
        ..DATA
    };
    let v: Vec<usize> = (0..c.rng.range(1, 20))
        .map(|_| {
            let v = if c.rng.chance(1, 3) {
                val::gen_bigint(&mut c.rng)
            } else {
                val::gen_leaf(&mut c.rng, &o)
            };
            g.add(v)
        })
        .collect();
    g.root = if v.len() == 1 { v[0] } else { g.add(V::Arr(v)) };
    c.ev("leaves", 1);
    let cjs = c.rng.bool();
    module_ok(c, &g, cjs)
}

/// NaN has no spelling in the data subset: refused, never another value.
fn s02_nan(c: &mut Case) -> R {
    let mut g = gen_graph(&mut c.rng, &Opt { nodes: 20, ..DATA });
    let nan = g.add(V::Num(f64::NAN.to_bits()));
    let other = g.root;
    g.root = match c.rng.below(4) {
        0 => nan,
        1 => g.add(V::Arr(vec![other, nan])),
        2 => {
            let x = g.add(V::Arr(vec![nan]));
            g.add(V::Arr(vec![x, other, x]))
        }
        _ => g.add(V::Obj(vec![(units("a"), other), (units("b"), nan)])),
    };
    let f = if c.rng.bool() {
        Format::Cjs
    } else {
        Format::Mjs
    };
    if let Some(s) = write(&mut c.rng, &g, f)? {
        // if it is written at all, it must be read as NaN
        c.node(if f == Format::Cjs { "cjs" } else { "mjs" }, &s, &g.canon());
        let (_, got) = read_system(&mut c.rng, &s)?;
        same(&got, &g, SHARED)?;
    }
    c.ev("values with NaN", 1);
    c.sig(g.hash());
    Ok(())
}

/// A recorded finding: JavaScript gives a key of this name another meaning.
fn s02_proto(c: &mut Case) -> R {
    let mut g = G::default();
    let x = if c.rng.bool() {
        g.add(V::Num(1f64.to_bits()))
    } else {
        g.add(V::Arr(vec![]))
    };
    g.root = g.add(V::Obj(vec![(units("__proto__"), x)]));
    for cjs in [true, false] {
        let s =
            write(&mut c.rng, &g, if cjs { Format::Cjs } else { Format::Mjs })?.ok_or("refused")?;
        let (_, got) = read_system(&mut c.rng, &s)?;
        same(&got, &g, SHARED).map_err(|e| format!("read back: {e}"))?;
        c.node_known(
            if cjs { "cjs" } else { "mjs" },
            &s,
            &g.canon(),
            "S02-proto-key",
        );
    }
    c.sig(g.hash());
    Ok(())
}

/// Deep and long chains of shared values.
fn s02_large(c: &mut Case) -> R {
    let mut g = G::default();
    let mut top = g.add(V::Arr(vec![]));
    let n = c.rng.range(100, 900);
    for i in 0..n {
        let v = match c.rng.below(4) {
            0 => V::Arr(vec![top, top]),
            1 => V::Obj(vec![(units("a"), top), (units("b"), top)]),
            2 => V::Arr(vec![top]),
            _ => {
                let x = g.add(V::Num((i as f64).to_bits()));
                V::Arr(vec![x, top, x])
            }
        };
        top = g.add(v);
    }
    g.root = top;
    c.ev("large values", 1);
    let cjs = c.rng.bool();
    module_ok(c, &g, cjs)
}

// ------------------------------------------------------------------ S03

fn outputs<D: Dealloc>(a: &Any<D>) -> Vec<Option<String>> {
    FORMATS.iter().map(|f| write_any(a.clone(), *f)).collect()
}

/// The outputs for a text, read by this process.
fn convert(t: &str, how: How) -> Result<Vec<Option<String>>, String> {
    let io = MemIo::new("/m");
    let mut cache = ModuleCache::default();
    let (_, a) = read_text(GLOBAL, &io, &mut cache, "/m/root", t, how)
        .map_err(|e| format!("{e} for {}", text::clip(t)))?;
    Ok(outputs(&a))
}

fn data(r: &mut Rng) -> G {
    loop {
        let n = *r.pick(&[3, 12, 60]);
        let g = if r.chance(1, 4) {
            gen_shape(r, &DATA, 10)
        } else {
            let share = *r.pick(&[0, 25, 60]);
            let big = r.bool();
            gen_graph(
                r,
                &Opt {
                    nodes: n,
                    share,
                    big,
                    ..DATA
                },
            )
        };
        if g.tree_size() < 3000 {
            return g;
        }
    }
}

fn differ(a: &[Option<String>], b: &[Option<String>], what: &str) -> R {
    for (f, (x, y)) in FORMATS.iter().zip(a.iter().zip(b)) {
        if x != y {
            let s = |x: &Option<String>| {
                x.as_ref()
                    .map(|s| text::clip(s))
                    .unwrap_or("refused".into())
            };
            return Err(format!("{what}: as {f:?} {} and {}", s(x), s(y)));
        }
    }
    Ok(())
}

/// The same value built again, elsewhere, by other managers.
fn s03_repeat(c: &mut Case) -> R {
    let g = data(&mut c.rng);
    let a = build(GLOBAL, &g);
    let first = outputs(&a);
    differ(&first, &outputs(&a), "written twice")?;
    // other addresses
    let junk: Vec<Any<_>> = (0..c.rng.below(20)).map(|_| build(GLOBAL, &g)).collect();
    let b = build(GLOBAL, &g);
    drop(junk);
    differ(&first, &outputs(&b), "built twice")?;
    drop(a);
    differ(&first, &outputs(&build(GLOBAL, &g)), "built later")?;
    track::reset();
    differ(
        &first,
        &outputs(&build(Track, &g)),
        "built by another manager",
    )?;
    track::finish()?;
    // the same graph, numbered in another order
    let h = val::read(&b);
    differ(
        &first,
        &outputs(&build(GLOBAL, &h)),
        "built in another order",
    )?;
    c.ev("repetitions", 5);
    c.sig(g.hash());
    c.sample(|| text::clip(first[2].as_deref().unwrap_or("refused")));
    Ok(())
}

/// Converting an output again gives the same bytes.
fn s03_again(c: &mut Case) -> R {
    let g = data(&mut c.rng);
    let st = *c.rng.pick(&[Style::Mjs, Style::Cjs]);
    let t = write_module(&mut c.rng, &g, g.root, st, &[], LOOSE);
    let how = any_how(&mut c.rng);
    let first = convert(&t, how)?;
    for (k, f) in FORMATS.iter().enumerate() {
        if let Some(s) = &first[k] {
            let how = any_how(&mut c.rng);
            let again = convert(s, how)?;
            ensure!(
                again[k].as_ref() == Some(s),
                "as {f:?} first {}, then {}",
                text::clip(s),
                text::clip(again[k].as_deref().unwrap_or("refused"))
            );
            c.ev("outputs converted again", 1);
            // modules keep sharing: the other formats agree, too
            if *f != Format::Json {
                differ(&first, &again, "converted again")?;
            }
        }
    }
    c.sig(g.hash());
    Ok(())
}

/// One value in many layouts.
fn s03_layouts(c: &mut Case) -> R {
    let g = data(&mut c.rng);
    let mut first: Option<(String, Vec<Option<String>>)> = None;
    for _ in 0..4 {
        let st = *c.rng.pick(&[Style::Mjs, Style::Cjs, Style::Bare]);
        let base = if st == Style::Bare { STRICT } else { LOOSE };
        let l = Layout {
            shuffle: true,
            repeated_keys: c.rng.chance(1, 4),
            newlines: c.rng.bool(),
            ..base
        };
        let t = write_module(&mut c.rng, &g, g.root, st, &[], l);
        let how = any_how(&mut c.rng);
        let o = convert(&t, how)?;
        match &first {
            None => first = Some((t, o)),
            Some((t1, o1)) => {
                differ(o1, &o, "two layouts")
                    .map_err(|e| format!("{e} for {} and {}", text::clip(t1), text::clip(&t)))?;
                c.ev("layouts compared", 1);
            }
        }
    }
    c.sig(g.hash());
    c.sample(|| text::clip(&first.unwrap().0));
    Ok(())
}

/// JSON in many layouts.
fn s03_json(c: &mut Case) -> R {
    let n = *c.rng.pick(&[5, 30, 100]);
    let g = gen_graph(&mut c.rng, &Opt { nodes: n, ..JSON });
    let l = Layout {
        shuffle: true,
        ..STRICT
    };
    let t = write_json(&mut c.rng, &g, l);
    let u = write_json(&mut c.rng, &g, l);
    let a = convert(&t, How::Eager)?;
    let b = convert(&u, How::Lazy)?;
    differ(&a, &b, "two layouts")
        .map_err(|e| format!("{e} for {} and {}", text::clip(&t), text::clip(&u)))?;
    let again = convert(a[0].as_ref().ok_or("refused")?, How::File)?;
    differ(&a, &again, "converted again")?;
    c.ev("layouts compared", 1);
    c.ev("outputs converted again", 1);
    c.sig(hash_str(&t));
    Ok(())
}

/// A tree of modules and one module with everything in place: the same bytes, through the program's entry.
fn s03_trees(c: &mut Case) -> R {
    let n = *c.rng.pick(&[2, 5, 9]);
    let m = gen_tree(
        &mut c.rng,
        &Shape {
            modules: n,
            nodes: 7,
            cycles: false,
            node: None,
            plain: false,
        },
    );
    let (g, roots) = m.tree.truth.as_ref().unwrap();
    let mut g = g.clone();
    g.root = roots[0];
    let io = m.tree.io();
    for ext in ["o.json", "o.d.cjs", "o.d.mjs"] {
        let mut seen: Option<(bool, Option<Vec<u8>>)> = None;
        for turn in 0..3 {
            let input = if turn < 2 {
                m.asked[0].clone()
            } else {
                let t = write_module(&mut c.rng, &g, g.root, Style::Mjs, &[], LOOSE);
                io.put("/one.d.mjs", t.as_bytes());
                "/one.d.mjs".to_string()
            };
            io.0.borrow_mut().args = vec!["nanvm".into(), input, format!("/out/{ext}")];
            io.0.borrow_mut().files.remove(&format!("/out/{ext}"));
            let r = app::run(&io).is_ok();
            let got = (r, io.get(&format!("/out/{ext}")));
            match &seen {
                None => seen = Some(got),
                Some(s) => ensure!(
                    *s == got,
                    "as {ext} {:?} and then {:?} of {}",
                    s.1.as_ref()
                        .map(|x| text::clip(&String::from_utf8_lossy(x))),
                    got.1
                        .as_ref()
                        .map(|x| text::clip(&String::from_utf8_lossy(x))),
                    m.tree.show()
                ),
            }
        }
    }
    c.ev("module trees", 1);
    c.sig(g.hash());
    Ok(())
}

/// Other processes: other addresses, other hash seeds.
fn s03_processes(c: &mut Case) -> R {
    let n = if c.tier == Tier::Thorough { 60 } else { 25 };
    let from = c.seed >> 1;
    let run = || -> Result<String, String> {
        let o = Command::new(std::env::current_exe().unwrap())
            .args(["CHILD", &from.to_string(), &n.to_string()])
            .stdin(Stdio::null())
            .output()
            .map_err(|e| e.to_string())?;
        ensure!(
            o.status.success(),
            "the other process ended with {}: {}",
            o.status,
            String::from_utf8_lossy(&o.stderr)
        );
        Ok(String::from_utf8_lossy(&o.stdout).into_owned())
    };
    let own = batch(from, n);
    let k = if c.tier == Tier::Thorough { 6 } else { 3 };
    for _ in 0..k {
        let o = run()?;
        if o != own {
            let (a, b) = own
                .lines()
                .zip(o.lines())
                .find(|(a, b)| a != b)
                .unwrap_or(("", ""));
            return Err(format!(
                "in another process {}, here {}",
                text::clip(b),
                text::clip(a)
            ));
        }
        c.ev("other processes", 1);
        c.ev("values compared between processes", n);
    }
    c.sig(from);
    Ok(())
}

fn batch(from: u64, n: u64) -> String {
    let mut s = String::new();
    for i in 0..n {
        let mut r = Rng::new(mix(from ^ i));
        let g = if i % 2 == 0 {
            data(&mut r)
        } else {
            gen_shape(&mut r, &DATA, 8)
        };
        let t = write_module(&mut r, &g, g.root, Style::Mjs, &[], LOOSE);
        match convert(&t, How::Eager) {
            Ok(o) => {
                for x in &o[if g.tree_size() < 5000 { 0 } else { 1 }..] {
                    s.push_str(x.as_deref().unwrap_or("refused"));
                    s.push('\n');
                }
            }
            Err(e) => s.push_str(&e),
        }
    }
    s
}

fn main() {
    let a = args();
    let kinds: &[Kind] = match a.property.as_str() {
        "NONE" => {
            println!("READY");
            return;
        }
        "CHILD" => {
            print!(
                "{}",
                batch(a.extra[0].parse().unwrap(), a.extra[1].parse().unwrap())
            );
            return;
        }
        "S01" => &[
            kind!(s01_values, 24_000, 2_000_000, 2),
            kind!(s01_numbers, 16_000, 2_000_000, 1),
            kind!(s01_strings, 16_000, 1_000_000, 2),
            kind!(s01_units, 256, 256, 0),
            kind!(s01_refused, 6_000, 200_000, 2),
            kind!(s01_vast, 64, 2_000, 0),
            kind!(s01_sizes, 1_980, 19_800, 0),
            kind!(s01_large, 120, 4_000, 0),
        ],
        "S02" => &[
            kind!(s02_graphs, 48_000, 1_500_000, 2),
            kind!(s02_shapes, 24_000, 500_000, 1),
            kind!(s02_leaves, 12_000, 500_000, 2),
            kind!(s02_nan, 2_000, 50_000, 1),
            kind!(s02_vast, 48, 1_500, 0),
            kind!(s02_sizes, 2_475, 24_750, 0),
            kind!(s02_large, 200, 4_000, 0),
            kind!(s02_proto, 8, 8, 0),
        ],
        "S03" => &[
            kind!(s03_repeat, 18_000, 500_000, 1),
            kind!(s03_again, 18_000, 500_000, 1),
            kind!(s03_layouts, 24_000, 700_000, 1),
            kind!(s03_json, 8_000, 500_000, 1),
            kind!(s03_trees, 8_000, 200_000, 0),
            kind!(s03_processes, 40, 400, 0),
        ],
        p => panic!("unknown property {p}"),
    };
    drive(&a, kinds);
}

//! P01, P02, P03: texts against independent readers, and hostile texts.
use nanvm_lib::{
    js::any::Any,
    mem::{global::GLOBAL, manager::Manager},
    parser::{
        any_state::AnyState,
        const_state::ConstState,
        json_state::JsonState,
        root_state::{RootState, RootStatus},
        shared::{JsonElement, ModuleCache, ParseError, ParsingStatus},
    },
    serializer::{to_djs::to_djs, to_json::to_json},
    tokenizer::{create_transition_maps, tokenize, JsonToken, TokenizerState},
};
use nanvm_monitor::{
    ensure,
    hostile::{hostile_text, style, world, SPECS},
    io::MemIo,
    kind,
    run::{args, drive, hash_str, mix, Case, Kind, Rng, Tier, R},
    sys::{any_how, read_text, why, How},
    text::{
        self, lex, mutate, near, write_json, write_module, Accept, Dt, Layout, Stop, Style, Why,
        LOOSE, STRICT,
    },
    track::{self, Track},
    val::{self, gen_graph, gen_shape, same, Cmp, Opt, DATA, G, JSON, SHARED, V, VALUE},
};
use std::process::{Command, Stdio};

fn kind_of(r: &Result<Dt, Why>) -> String {
    match r {
        Ok(d) => format!("accepted as {d:?}"),
        Err(w) => format!("rejected ({w:?})"),
    }
}

/// Reads with one of the entry points, returns the model of the value.
fn system(c: &mut Case, t: &str) -> Result<(Dt, G), ParseError> {
    let how = any_how(&mut c.rng);
    system_how(t, how)
}

fn system_how(t: &str, how: How) -> Result<(Dt, G), ParseError> {
    let (io, _) = world();
    let mut cache = ModuleCache::default();
    read_text(GLOBAL, &io, &mut cache, "/m/root", t, how).map(|(d, a)| (d, val::read(&a)))
}

/// The reference's answer.
fn reference(t: &str) -> (Result<Accept, Stop>, G) {
    let (_, mut f) = world();
    let mut g = G::default();
    let r = f.run(&mut g, "/m/root", t);
    if let Ok(a) = &r {
        g.root = a.root;
    }
    (r, g)
}

/// The system and the reference on one text.
fn compare(c: &mut Case, t: &str, cmp: Cmp) -> R {
    let (want, wg) = reference(t);
    let got = system(c, t);
    let line = |g: &Result<Dt, Why>, w: &str| format!("{}, not {w}: {}", kind_of(g), text::clip(t));
    match (&want, &got) {
        (Err(Stop::Unspecified), _) => c.ev("texts whose reading is not specified", 1),
        (Ok(a), Ok((d, g))) => {
            ensure!(*d == a.dt, "{}", line(&Ok(*d), &format!("{:?}", a.dt)));
            same(g, &wg, cmp).map_err(|e| format!("{e} of {}", text::clip(t)))?;
            c.ev("accepted", 1);
            c.ev(
                match d {
                    Dt::Json => "read as JSON",
                    Dt::Djs => "read as bare modules",
                    Dt::Cjs => "read as CommonJS",
                    Dt::Mjs => "read as ES modules",
                },
                1,
            );
        }
        (Ok(a), Err(_)) if a.lenient => c.ev("refused extensions", 1),
        (Ok(a), Err(e)) => return Err(line(&Err(why(e)), &format!("accepted as {:?}", a.dt))),
        (Err(Stop::Reject(w)), Ok((d, _))) => {
            return Err(line(&Ok(*d), &format!("rejected ({w:?})")))
        }
        (Err(Stop::Reject(w)), Err(e)) => {
            let e = why(e);
            ensure!(e == *w, "{}", line(&Err(e), &format!("{w:?}")));
            c.ev("rejected", 1);
            match w {
                Why::Syntax => {}
                Why::Read => c.ev("rejected as unreadable", 1),
                Why::Cycle => c.ev("rejected as circular", 1),
            }
        }
    }
    Ok(())
}

fn layout(r: &mut Rng, strict: bool) -> Layout {
    let base = if strict { STRICT } else { LOOSE };
    Layout {
        newlines: r.chance(3, 4),
        shuffle: r.bool(),
        repeated_keys: r.chance(1, 3),
        ..base
    }
}

// ------------------------------------------------------------------ P01

fn half(v: &V) -> bool {
    let lone = |s: &[u16]| char::decode_utf16(s.iter().copied()).any(|c| c.is_err());
    match v {
        V::Str(s) => lone(s),
        V::Obj(v) => v.iter().any(|e| lone(&e.0)),
        _ => false,
    }
}

fn strict_json(c: &mut Case, t: &str) -> R {
    match text::json(t) {
        // strings of the system's tokens have no halves of pairs: reported as an error
        Ok(w) if w.nodes.iter().any(half) => {
            let e = system(c, t).err();
            ensure!(e.is_some(), "accepted half a pair in {}", text::clip(t));
            c.ev("texts with half a surrogate pair", 1);
        }
        Ok(w) => {
            let r = system(c, t);
            match r {
                Ok((d, g)) => {
                    ensure!(d == Dt::Json, "read as {d:?}: {}", text::clip(t));
                    same(&g, &w, VALUE).map_err(|e| format!("{e} of {}", text::clip(t)))?;
                    c.ev("valid JSON texts", 1);
                }
                Err(e) => return Err(format!("{e} for valid JSON {}", text::clip(t))),
            }
        }
        Err(_) => {
            c.ev("invalid JSON texts", 1);
            compare(c, t, VALUE)?;
        }
    }
    Ok(())
}

fn json_value(c: &mut Case) -> G {
    let n = *c.rng.pick(&[1, 5, 40, 200]);
    if c.rng.chance(1, 12) {
        gen_shape(&mut c.rng, &Opt { share: 0, ..JSON }, 8)
    } else {
        gen_graph(&mut c.rng, &Opt { nodes: n, ..JSON })
    }
}

/// Valid texts of known values.
fn p01_valid(c: &mut Case) -> R {
    let g = json_value(c);
    if g.tree_size() > 5000 {
        return Ok(());
    }
    let l = layout(&mut c.rng, true);
    let t = write_json(&mut c.rng, &g, l);
    let w = text::json(&t).map_err(|e| format!("monitor: {e} in {}", text::clip(&t)))?;
    same(&w, &g, VALUE).map_err(|e| format!("monitor: {e} in {}", text::clip(&t)))?;
    strict_json(c, &t)?;
    c.sample(|| text::clip(&t));
    c.sig(hash_str(&t));
    if c.rng.chance(1, 4) {
        // the engine's parser
        if let Ok((_, got)) = system(c, &t) {
            c.node("json", &t, &got.canon());
        }
    }
    Ok(())
}

/// Every place where a text may end too early.
fn p01_cuts(c: &mut Case) -> R {
    let g = gen_graph(&mut c.rng, &Opt { nodes: 14, ..JSON });
    let l = layout(&mut c.rng, true);
    let t = write_json(&mut c.rng, &g, l);
    let mut n = 0;
    for (i, _) in t.char_indices() {
        n += 1;
        if n > 150 {
            break;
        }
        strict_json(c, &t[..i])?;
        c.ev("cut texts", 1);
    }
    c.sig(hash_str(&t));
    Ok(())
}

/// One or a few tokens or characters changed.
fn p01_mutants(c: &mut Case) -> R {
    let g = gen_graph(&mut c.rng, &Opt { nodes: 20, ..JSON });
    let l = layout(&mut c.rng, true);
    let t = write_json(&mut c.rng, &g, l);
    for _ in 0..4 {
        let m = mutate(&mut c.rng, &t);
        strict_json(c, &m)?;
        c.ev("changed texts", 1);
        c.sig(hash_str(&m));
        c.sample(|| text::clip(&m));
        // an engine's strings may have halves of pairs (strict_json has looked at the refusal)
        let halves = text::json(&m).is_ok_and(|w| w.nodes.iter().any(half));
        if !halves && c.rng.chance(1, 6) {
            // what the engine takes for JSON is JSON here, too
            match system(c, &m) {
                Ok((Dt::Json, got)) => c.node("json?", &m, &got.canon()),
                Ok(_) => {}
                Err(_) => c.node("json?", &m, "rejected"),
            }
        }
    }
    Ok(())
}

/// Big values: deep, wide, long strings.
fn p01_large(c: &mut Case) -> R {
    let mut g = G::default();
    let what = c.rng.below(4);
    match what {
        0 => {
            let n = c.rng.range(100, 1000);
            let mut top = g.add(V::Null);
            for _ in 0..n {
                let v = if c.rng.bool() {
                    V::Arr(vec![top])
                } else {
                    V::Obj(vec![(val::units("k"), top)])
                };
                top = g.add(v);
            }
            g.root = top;
        }
        1 => {
            let n = c.rng.range(1000, 30_000);
            let v = (0..n)
                .map(|i| g.add(V::Num((i as f64).to_bits())))
                .collect();
            g.root = g.add(V::Arr(v));
        }
        2 => {
            let n = c.rng.range(200, 2000);
            let v = (0..n)
                .map(|i| {
                    let x = g.add(V::Bool(i % 2 == 0));
                    (val::units(&format!("k{}", mix(i as u64) % 100_000)), x)
                })
                .collect::<std::collections::BTreeMap<_, _>>();
            g.root = g.add(V::Obj(v.into_iter().collect()));
        }
        _ => {
            let n = c.rng.range(1000, 60_000);
            let s: String = (0..n).map(|_| val::gen_char(&mut c.rng)).collect();
            g.root = g.add(V::Str(val::units(&s)));
        }
    }
    let l = Layout {
        comments: false,
        repeated_keys: false,
        ..STRICT
    };
    let t = write_json(&mut c.rng, &g, l);
    let (d, got) = system(c, &t).map_err(|e| format!("{e} for a text of {} bytes", t.len()))?;
    ensure!(d == Dt::Json, "read as {d:?}");
    same(&got, &g, VALUE)?;
    c.ev("large texts", 1);
    c.sig(hash_str(&t));
    Ok(())
}

/// Short texts over the alphabet of JSON, systematically.
fn p01_short(c: &mut Case) -> R {
    const T: [&str; 16] = [
        "{", "}", "[", "]", ":", ",", "\"a\"", "\"\"", "1", "-2.5e1", "null", "true", "false",
        "\"b\"", "\"a\"", " \n",
    ];
    let mut n = c.index;
    let mut t = String::new();
    // all texts of up to four tokens, then longer ones at random
    if n < 16 + 256 + 4096 + 65536 {
        let mut len = 1;
        let mut all = 16;
        while n >= all {
            n -= all;
            all *= 16;
            len += 1;
        }
        for _ in 0..len {
            t.push_str(T[(n % 16) as usize]);
            n /= 16;
        }
    } else {
        for _ in 0..c.rng.range(5, 14) {
            t.push_str(T[c.rng.below(16)]);
        }
    }
    strict_json(c, &t)?;
    c.ev("token sequences", 1);
    c.sig(hash_str(&t));
    Ok(())
}

/// Values with more items, keys, units or gaps than 16-bit counters hold.
fn vast_value(c: &mut Case, g: &mut G) {
    let n = c.rng.vast();
    g.root = match c.rng.below(5) {
        0 => {
            let v = (0..n)
                .map(|i| g.add(V::Num((i as f64).to_bits())))
                .collect();
            g.add(V::Arr(v))
        }
        1 => {
            let v = (0..n)
                .map(|i| {
                    let x = if i % 3 == 0 {
                        V::Arr(vec![])
                    } else {
                        V::Num((i as f64).to_bits())
                    };
                    (val::units(&format!("k{i}")), g.add(x))
                })
                .collect::<std::collections::BTreeMap<_, _>>();
            g.add(V::Obj(v.into_iter().collect()))
        }
        2 => {
            let s: String = (0..n).map(|_| val::gen_char(&mut c.rng)).collect();
            g.add(V::Str(val::units(&s)))
        }
        3 => {
            // keys longer than that, one of them the beginning of the other
            let s = "k".repeat(n);
            let v = [n - 1, n].map(|i| (val::units(&s[..i]), g.add(V::Num((i as f64).to_bits()))));
            g.add(V::Obj(v.into()))
        }
        _ => {
            let v = (0..n)
                .map(|i| {
                    let x = match i % 3 {
                        0 => V::Arr(vec![]),
                        1 => V::Obj(vec![]),
                        _ => {
                            let x = g.add(V::Bool(true));
                            V::Arr(vec![x])
                        }
                    };
                    g.add(x)
                })
                .collect();
            g.add(V::Arr(v))
        }
    };
}

/// Every length of every dimension.
fn p01_sizes(c: &mut Case) -> R {
    let (dim, n) = c.sweep(val::SIZED_JSON + text::SIZED_JSON);
    c.ev("lengths", 1);
    if dim >= val::SIZED_JSON {
        let t = text::sized(&mut c.rng, dim - val::SIZED_JSON, n);
        c.sig(hash_str(&t));
        let want = text::json(&t).map_err(|e| format!("monitor: {e} for {}", text::clip(&t)))?;
        let (d, got) = system(c, &t).map_err(|e| format!("{e} for {}", text::clip(&t)))?;
        ensure!(d == Dt::Json, "read as {d:?}");
        return same(&got, &want, VALUE).map_err(|e| format!("{e} of {}", text::clip(&t)));
    }
    let g = val::sized(&mut c.rng, dim, n);
    c.sig(g.hash());
    let l = Layout {
        comments: false,
        repeated_keys: c.rng.bool(),
        ..STRICT
    };
    let t = write_json(&mut c.rng, &g, l);
    let (d, got) = system(c, &t).map_err(|e| format!("{e} for {}", text::clip(&t)))?;
    ensure!(d == Dt::Json, "read as {d:?}");
    same(&got, &g, VALUE).map_err(|e| format!("{e} of {}", text::clip(&t)))
}

fn p02_sizes(c: &mut Case) -> R {
    let (dim, n) = c.sweep(text::SIZED + val::SIZED);
    c.ev("lengths", 1);
    let t = if dim < text::SIZED {
        text::sized(&mut c.rng, dim, n)
    } else {
        let g = val::sized(&mut c.rng, dim - text::SIZED, n);
        let st = style(&mut c.rng);
        write_module(&mut c.rng, &g, g.root, st, &[], LOOSE)
    };
    c.sig(hash_str(&t));
    compare(c, &t, SHARED)
}

fn p04_sizes(c: &mut Case) -> R {
    let (dim, n) = c.sweep(text::SIZED + val::SIZED);
    c.ev("lengths", 1);
    let t = if dim < text::SIZED {
        text::sized(&mut c.rng, dim, n)
    } else {
        let g = val::sized(&mut c.rng, dim - text::SIZED, n);
        let st = style(&mut c.rng);
        write_module(&mut c.rng, &g, g.root, st, &[], LOOSE)
    };
    p04_same(c, t)
}

fn p01_vast(c: &mut Case) -> R {
    let mut g = G::default();
    vast_value(c, &mut g);
    let repeated_keys = c.rng.bool();
    let t = write_json(
        &mut c.rng,
        &g,
        Layout {
            comments: false,
            repeated_keys,
            ..STRICT
        },
    );
    let (d, got) = system(c, &t).map_err(|e| format!("{e} for a text of {} bytes", t.len()))?;
    ensure!(d == Dt::Json, "read as {d:?}");
    same(&got, &g, VALUE)?;
    c.ev("texts of over 65000 parts", 1);
    c.sig(hash_str(&t));
    Ok(())
}

// ------------------------------------------------------------------ P02

/// Modules with more constants, uses or units in a name than 16-bit counters hold.
fn p02_vast(c: &mut Case) -> R {
    let n = c.rng.vast();
    let end = *c.rng.pick(&["export default ", "module.exports=", ""]);
    let list = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(",");
    let t = match c.rng.below(6) {
        // every constant used once, in another order
        0 => format!(
            "{}{end}[{}]",
            (0..n)
                .map(|i| format!("const c{i}=[]\n"))
                .collect::<String>(),
            list(&|i| format!("c{}", n - 1 - i))
        ),
        // the first and the last of many
        1 => format!(
            "{}{end}[c0,c{},c0,c{}]",
            (0..n)
                .map(|i| format!("const c{i}={{\"a\":{i}}}\n"))
                .collect::<String>(),
            n - 1,
            n / 2
        ),
        2 => format!("const a=[1],b=2"), // refused: one constant per statement
        3 => {
            let a = "n".repeat(n);
            format!("const {a}=[1]\nconst {a}n=[2]\n{end}[{a},{a}n,{a}]")
        }
        4 => format!(
            "const a=[1]\nconst b={{}}\n{end}[{}]",
            list(&|i| if i % 7 == 0 { "b".into() } else { "a".into() })
        ),
        // the last name is not defined
        _ => format!(
            "{}{end}[c0,c{n}]",
            (0..n)
                .map(|i| format!("const c{i}={i}\n"))
                .collect::<String>()
        ),
    };
    compare(c, &t, SHARED)?;
    c.ev("texts of over 65000 parts", 1);
    c.sample(|| text::clip(&t));
    c.sig(hash_str(&t));
    Ok(())
}

fn p04_vast(c: &mut Case) -> R {
    let mut g = G::default();
    vast_value(c, &mut g);
    let mut t = write_json(
        &mut c.rng,
        &g,
        Layout {
            comments: false,
            repeated_keys: false,
            ..STRICT
        },
    );
    if c.rng.bool() {
        t = format!("const a=1\nexport default {t}");
    }
    c.ev("texts of over 65000 parts", 1);
    p04_same(c, t)
}

fn add_imports(c: &mut Case, g: &mut G) -> Vec<(usize, String)> {
    // a value that comes from elsewhere: a placeholder the writer replaces by an import
    let mut v = vec![];
    for _ in 0..c.rng.range(1, 3) {
        let id = g.add(V::Null);
        v.push((id, SPECS[c.rng.below(6)].to_string()));
    }
    let mut kids: Vec<usize> = v.iter().map(|x| x.0).collect();
    kids.push(g.root);
    c.rng.shuffle(&mut kids);
    g.root = g.add(V::Arr(kids));
    v
}

fn module_value(c: &mut Case) -> G {
    let n = *c.rng.pick(&[3, 12, 40, 120]);
    if c.rng.chance(1, 5) {
        gen_shape(&mut c.rng, &DATA, 12)
    } else {
        gen_graph(&mut c.rng, &Opt { nodes: n, ..DATA })
    }
}

fn form(d: Dt) -> Option<&'static str> {
    match d {
        Dt::Cjs => Some("cjs"),
        Dt::Mjs => Some("mjs"),
        _ => None,
    }
}

/// Well-formed modules of known values.
fn p02_modules(c: &mut Case) -> R {
    let mut g = module_value(c);
    let st = style(&mut c.rng);
    let l = layout(&mut c.rng, false);
    let imports = if st != Style::Bare && c.rng.chance(1, 5) {
        add_imports(c, &mut g)
    } else {
        vec![]
    };
    let t = write_module(&mut c.rng, &g, g.root, st, &imports, l);
    let (want, wg) = reference(&t);
    match &want {
        Ok(a) => {
            if imports.is_empty() {
                same(&wg, &g, SHARED).map_err(|e| format!("monitor: {e} in {}", text::clip(&t)))?;
                let expect = match (st, a.dt) {
                    (Style::Bare, Dt::Json | Dt::Djs)
                    | (Style::Mjs, Dt::Mjs)
                    | (Style::Cjs, Dt::Cjs) => true,
                    _ => false,
                };
                ensure!(
                    expect,
                    "monitor: {st:?} gave {:?} in {}",
                    a.dt,
                    text::clip(&t)
                );
            } else {
                c.ev("modules with imports", 1);
            }
        }
        Err(e) => return Err(format!("monitor: {e:?} for {}", text::clip(&t))),
    }
    compare(c, &t, SHARED)?;
    c.ev("well-formed modules", 1);
    c.sample(|| text::clip(&t));
    c.sig(hash_str(&t));
    if imports.is_empty() && c.rng.chance(1, 3) && !lex(&t).raw_control {
        if let Ok((d, got)) = system(c, &t) {
            if let Some(f) = form(d) {
                c.node(f, &t, &got.canon());
            }
        }
    }
    Ok(())
}

/// A recorded finding: JavaScript gives a key of this name another meaning.
fn p02_proto(c: &mut Case) -> R {
    let v = *c.rng.pick(&["[]", "{\"a\":1}", "null"]);
    let key = *c
        .rng
        .pick(&["__proto__", "\"__proto__\"", "\"__prot\\u006f__\""]);
    for (form, head) in [("cjs", "module.exports="), ("mjs", "export default ")] {
        let t = format!("{head}{{{key}:{v}}}");
        compare(c, &t, SHARED)?;
        let (_, got) = system(c, &t).map_err(|e| format!("{e:?} for {t}"))?;
        c.node_known(form, &t, &got.canon(), "P02-proto-key");
        c.sig(hash_str(&t));
    }
    Ok(())
}

/// Broken modules.
fn p02_mutants(c: &mut Case) -> R {
    let mut g = gen_graph(&mut c.rng, &Opt { nodes: 14, ..DATA });
    let st = style(&mut c.rng);
    let l = layout(&mut c.rng, false);
    let imports = if st != Style::Bare && c.rng.chance(1, 5) {
        add_imports(c, &mut g)
    } else {
        vec![]
    };
    let t = write_module(&mut c.rng, &g, g.root, st, &imports, l);
    for _ in 0..4 {
        let m = mutate(&mut c.rng, &t);
        compare(c, &m, SHARED)?;
        c.ev("changed modules", 1);
        c.sig(hash_str(&m));
        c.sample(|| text::clip(&m));
        // whatever is accepted as a module means the same in the engine
        if c.rng.chance(1, 4)
            && !m.contains("require")
            && !m.contains("import")
            && !m.contains("__proto__")
        {
            let l = lex(&m);
            if !l.raw_control && l.unspecified.is_none() && matches!(reference(&m).0, Ok(_)) {
                if let Ok((d, got)) = system(c, &m) {
                    if let Some(f) = form(d) {
                        c.node(f, &m, &got.canon());
                        c.ev("changed modules still accepted", 1);
                    }
                }
            }
        }
    }
    Ok(())
}

/// All short sequences of tokens, then longer ones at random.
fn p02_short(c: &mut Case) -> R {
    const T: [&str; 26] = [
        "const ", "a ", "=", "1", "\n", ";", "export ", "default ", "module", ".", "exports", "[",
        "]", "{", "}", ":", ",", "\"x\"", "import ", "from ", "require", "(", ")", "b ", "null ",
        "2n ",
    ];
    const HEADS: [&str; 14] = [
        "",
        "const a=",
        "const a=1\n",
        "const a=1;",
        "export default ",
        "module.exports=",
        "import a from \"x\"\n",
        "const a=require(\"x\")\n",
        "[",
        "{",
        "{\"a\":",
        "const a=[1]\nexport default {",
        "const a={}\nmodule.exports=[",
        "import a from \"x\";",
    ];
    let mut n = c.index;
    let mut t = HEADS[(n % 14) as usize].to_string();
    n /= 14;
    if n < 1 + 26 + 676 {
        let mut len = 0;
        let mut all = 1;
        while n >= all {
            n -= all;
            all *= 26;
            len += 1;
        }
        for _ in 0..len {
            t.push_str(T[(n % 26) as usize]);
            n /= 26;
        }
    } else {
        for _ in 0..c.rng.range(3, 12) {
            t.push_str(T[c.rng.below(26)]);
        }
    }
    compare(c, &t, SHARED)?;
    c.ev("token sequences", 1);
    c.sig(hash_str(&t));
    Ok(())
}

/// Every filler in every place of a module, systematically; then two or more at random.
fn p02_slots(c: &mut Case) -> R {
    const HEADS: [(&str, &str); 18] = [
        ("", ""),
        ("\n", "\n"),
        ("const z=[1]\n", ""),
        ("const z=[1];", "\n"),
        ("export default ", ""),
        ("module.exports=", ""),
        ("import z from \"x\"\nexport default ", ""),
        ("const z=require(\"x\")\nmodule.exports=", ""),
        ("const z=require(\"x\")\n", ""),
        ("const z={}\nexport default ", "\n"),
        ("const z=\"q\";module.exports=", ""),
        ("const b=", "\nexport default b"),
        ("const z=[]\nconst b=", "\nmodule.exports=b"),
        ("const z=[]\nconst b=", "\nb"),
        ("import z from \"x\"\nconst b=", "\nexport default [b,z]"),
        (
            "const z=require(\"x\");const b=",
            ";module.exports={b:b,z:z}",
        ),
        ("const b=", ";import z from \"x\"\nexport default z"),
        ("const b=", ";const z=require(\"x\")\nmodule.exports=[z]"),
    ];
    const PLACES: [&str; 24] = [
        "@",
        "[@]",
        "[@,1]",
        "[1,@]",
        "[1,@,2]",
        "[1,2,@]",
        "[[1],@]",
        "[{},@]",
        "[[@]]",
        "[[[1],@],2]",
        "{\"a\":@}",
        "{\"a\":1,\"b\":@}",
        "{a:@}",
        "{a:@,b:1}",
        "{\"a\":[1,@]}",
        "[{\"a\":@}]",
        "[1,{\"k\":1,\"a\":@},3]",
        "{@:1}",
        "{\"k\":1,@:1}",
        "[1,{@:1}]",
        "{\"k\"@1}",
        "{\"k\":1@\"l\":2}",
        "[1@2]",
        "{\"k\":{}@}",
    ];
    const FILLERS: [&str; 60] = [
        "require(\"x\")",
        "require(\"./y.json\")",
        "require(\"none\")",
        "require(\"\")",
        "require(1)",
        "require()",
        "require",
        "require(",
        "require(\"x\",1)",
        "require [\"x\"]",
        "require\n(\"x\")",
        "require(\"x\")(1)",
        "z",
        "q",
        "z z",
        "1 2",
        "1n",
        "-1n",
        "1",
        "-1",
        "\"s\"",
        "[]",
        "{}",
        "",
        ",",
        "null",
        "true",
        "false",
        "undefined",
        "NaN",
        "Infinity",
        "export",
        "const",
        "import",
        "module",
        "default",
        "exports",
        "from",
        ":",
        ";",
        "=",
        ".",
        "(1)",
        "...z",
        ".5",
        "\"a\":1",
        "a:1",
        "[,]",
        "{,}",
        "[1,,2]",
        "{\"a\":1,,}",
        "//c\n1",
        "/**/1",
        "\n1\n",
        "z.a",
        "[z,z]",
        "{z:z}",
        "{z}",
        "1,",
        ",1",
    ];
    let fill = |r: &mut Rng, mut n: u64, deep: bool| {
        let f = FILLERS[(n % 60) as usize];
        n /= 60;
        let mut v = PLACES[(n % 24) as usize].to_string();
        n /= 24;
        let h = HEADS[(n % 18) as usize];
        if deep {
            for _ in 0..r.range(1, 4) {
                v = match r.below(3) {
                    0 => v.replace('@', PLACES[r.below(24)]),
                    1 => PLACES[r.below(17)].replace('@', &v),
                    _ => PLACES[r.below(17)].replace('@', &format!("{},{v}", FILLERS[r.below(60)])),
                };
            }
        }
        format!("{}{}{}", h.0, v.replace('@', f), h.1)
    };
    const ALL: u64 = 60 * 24 * 18;
    let t = if c.index < ALL {
        fill(&mut c.rng, c.index, false)
    } else {
        let n = c.rng.below(ALL as usize) as u64;
        fill(&mut c.rng, n, true)
    };
    compare(c, &t, SHARED)?;
    c.ev("places filled", 1);
    c.sig(hash_str(&t));
    c.sample(|| text::clip(&t));
    Ok(())
}

/// Names without a definition, those that resemble known ones and those an engine knows among them, in every place.
fn p02_names(c: &mut Case) -> R {
    const NAMES: [&str; 60] = [
        "null",
        "true",
        "false",
        "undefined",
        "NaN",
        "Infinity",
        "globalThis",
        "this",
        "Null",
        "NULL",
        "True",
        "TRUE",
        "False",
        "FALSE",
        "nil",
        "None",
        "void",
        "yes",
        "no",
        "on",
        "off",
        "exports",
        "module",
        "Module",
        "default",
        "Default",
        "require",
        "Require",
        "REQUIRE",
        "import",
        "Import",
        "from",
        "const",
        "Const",
        "export",
        "let",
        "var",
        "function",
        "class",
        "new",
        "delete",
        "typeof",
        "async",
        "await",
        "yield",
        "Object",
        "Array",
        "Math",
        "JSON",
        "process",
        "console",
        "arguments",
        "eval",
        "__dirname",
        "__filename",
        "__proto__",
        "constructor",
        "_",
        "$",
        "zz",
    ];
    const HEADS: [(&str, &str); 12] = [
        ("", ""),
        ("const z=[1]\n", ""),
        ("const z=1\nconst zy=2\n", ""),
        ("export default ", ""),
        ("module.exports=", ""),
        ("const z=1\nexport default ", ""),
        ("import z from \"x\"\nexport default ", ""),
        ("const z=require(\"x\")\nmodule.exports=", ""),
        ("const b=", "\nexport default b"),
        ("const b=", "\nmodule.exports=b"),
        ("const b=", "\nb"),
        ("const z={}\nconst b=", "\n[b,z]"),
    ];
    const PLACES: [&str; 10] = [
        "@",
        "[@]",
        "[1,@]",
        "[[1],@,2]",
        "{\"a\":@}",
        "{a:@,b:1}",
        "{\"a\":1,\"b\":[@]}",
        "{@:1}",
        "@(\"x\")",
        "[@(\"x\"),1]",
    ];
    let n = c.index;
    let w = NAMES[(n % 60) as usize];
    let p = PLACES[(n / 60 % 10) as usize];
    let h = HEADS[(n / 600 % 12) as usize];
    let w = match n / 7200 {
        0 => w.to_string(),
        _ => {
            let w = if c.rng.chance(1, 4) {
                *c.rng.pick(&["z", "zy", "b"])
            } else {
                w
            };
            let mut w = near(&mut c.rng, w);
            if c.rng.chance(1, 4) {
                w = near(&mut c.rng, &w);
            }
            w
        }
    };
    let t = format!("{}{}{}", h.0, p.replace('@', &w), h.1);
    compare(c, &t, SHARED)?;
    c.ev("names", 1);
    c.sig(hash_str(&t));
    c.sample(|| text::clip(&t));
    Ok(())
}

/// Statements of all kinds in any order, names used before, after and without their definition.
fn p02_statements(c: &mut Case) -> R {
    let t = soup_of_statements(c);
    compare(c, &t, SHARED)?;
    c.ev("statement sequences", 1);
    c.sig(hash_str(&t));
    c.sample(|| text::clip(&t));
    Ok(())
}

fn soup_of_statements(c: &mut Case) -> String {
    let r = &mut c.rng;
    let mut t = String::new();
    let names = ["a", "b", "c", "d"];
    let value = |r: &mut Rng| -> String {
        let mut v = String::new();
        let n = names[r.below(4)];
        match r.below(9) {
            0 => v.push_str("1"),
            1 => v.push_str(n),
            2 => v.push_str(&format!("[{n},{}]", names[r.below(4)])),
            3 => v.push_str(&format!("{{\"p\":{n},q:[{n}]}}")),
            4 => v.push_str(&format!("require(\"{}\")", SPECS[r.below(8)])),
            5 => v.push_str("{}"),
            6 => v.push_str("[]"),
            7 => v.push_str(&format!("{{{n}:{n}}}")),
            _ => v.push_str("\"s\""),
        }
        v
    };
    let focus = r.below(3);
    for i in 0..r.range(0, 5) {
        let n = if r.chance(9, 10) {
            names[i.min(3)]
        } else {
            names[r.below(4)]
        };
        match r.below(12) {
            0..=6 => {
                let v = value(r);
                t.push_str(&format!("const {n}={v}"));
            }
            7 | 8 => t.push_str(&format!("import {n} from \"{}\"", SPECS[r.below(8)])),
            9 if focus != 1 => {
                let v = value(r);
                t.push_str(&format!("const {n}=[{v},{v}]"));
            }
            9 => t.push_str(&format!("export {n}")),
            10 => t.push_str(&format!("const {n}")),
            _ => t.push_str(&format!("const {n}={{\"x\":[[{}]]}}", names[r.below(4)])),
        }
        t.push_str(["\n", ";", ";\n", " ; ", "\n\n", "\n\n", ";\n", " "][r.below(8)]);
    }
    let v = value(r);
    match focus {
        0 => t.push_str(&format!("export default {v}")),
        1 => t.push_str(&format!("module.exports={v}")),
        _ => t.push_str(&v),
    }
    if r.chance(1, 8) {
        t.push_str(["\n", " ", "\n1", "[", ","][r.below(5)]);
    }
    t
}

// ------------------------------------------------------------------ P04

/// What an importing document gets for a path, asked for through the same cache.
fn supply<M: Manager + 'static>(
    m: M,
    io: &MemIo,
    cache: &mut ModuleCache<M::Dealloc>,
    path: &str,
) -> Result<Any<M::Dealloc>, ParseError> {
    let t = format!(
        "module.exports=require({})",
        text::quote(&mut Rng::new(1), &path.encode_utf16().collect::<Vec<_>>())
    );
    read_text(m, io, cache, "/m/root", &t, How::Eager).map(|r| r.1)
}

/// The state of the value that is being read.
fn value_state<M: Manager>(s: &mut JsonState<M>) -> Option<&mut AnyState<M>> {
    match s {
        JsonState::ParseRoot(r) => Some(&mut r.state),
        JsonState::ParseConst(ConstState { state, .. }) => Some(state),
        JsonState::ParseModule(state) => Some(state),
        _ => None,
    }
}

/// Pushes tokens one by one, supplies imports when told to (or when not), stops early when told to.
fn push_all<M: Manager + 'static>(
    c: &mut Case,
    m: M,
    tokens: Vec<JsonToken<M::Dealloc>>,
    helpful: bool,
    stop: Option<usize>,
) -> Result<Option<Result<(Dt, G), ParseError>>, String> {
    let (io, _) = world();
    let mut cache = ModuleCache::default();
    let mut state: JsonState<M> = JsonState::ParseRoot(RootState {
        status: RootStatus::Initial,
        state: Default::default(),
        new_line: true,
    });
    for (i, t) in tokens.into_iter().enumerate() {
        if stop == Some(i) {
            return Ok(None);
        }
        let wanted = match (&t, value_state(&mut state)) {
            (
                JsonToken::String(s),
                Some(AnyState {
                    status: ParsingStatus::ImportValue,
                    ..
                }),
            ) => Some(s.clone()),
            _ => None,
        };
        let failed = matches!(state, JsonState::Error(_));
        let (next, import) = state.push(m, t);
        state = next;
        c.ev("tokens pushed", 1);
        ensure!(
            !failed || matches!(state, JsonState::Error(_)),
            "an error went away"
        );
        ensure!(!failed || import.is_none(), "an import after an error");
        if let Some((id, path)) = import {
            c.ev("imports announced", 1);
            if helpful {
                let JsonState::ParseRoot(r) = &mut state else {
                    return Err(format!("import of {path:?} announced outside of the root"));
                };
                match supply(m, &io, &mut cache, &path) {
                    Ok(a) => {
                        r.state.consts.insert(id, a);
                    }
                    Err(e) => return Ok(Some(Err(e))),
                }
            }
        } else if let (Some(path), true) = (wanted, helpful) {
            c.ev("imports met in values", 1);
            match (value_state(&mut state), supply(m, &io, &mut cache, &path)) {
                (Some(s), Ok(a)) => s.current = JsonElement::Any(a),
                (_, Err(e)) => return Ok(Some(Err(e))),
                (None, _) => return Err(format!("import of {path:?} refused")),
            }
        }
    }
    Ok(Some(state.end().map(|r| {
        (nanvm_monitor::sys::dt(&r.data_type), val::read(&r.any))
    })))
}

fn p04_text(c: &mut Case) -> String {
    match c.rng.below(8) {
        0 => hostile_text(&mut c.rng),
        1 => {
            let g = json_value(c);
            let l = layout(&mut c.rng, true);
            write_json(&mut c.rng, &g, l)
        }
        2 => soup_of_statements(c),
        k => {
            let mut g = module_value(c);
            let st = style(&mut c.rng);
            let l = layout(&mut c.rng, false);
            let imports = if st != Style::Bare && c.rng.bool() {
                add_imports(c, &mut g)
            } else {
                vec![]
            };
            let t = write_module(&mut c.rng, &g, g.root, st, &imports, l);
            if k > 5 {
                mutate(&mut c.rng, &t)
            } else {
                t
            }
        }
    }
}

/// One token after the other against the whole document.
fn p04_pushed(c: &mut Case) -> R {
    let t = p04_text(c);
    p04_same(c, t)
}

fn p04_same(c: &mut Case, t: String) -> R {
    let tokens = tokenize(GLOBAL, t.clone());
    c.sample(|| text::clip(&t));
    c.sig(hash_str(&t));
    let want = system_how(&t, How::Eager);
    let got = push_all(c, GLOBAL, tokens, true, None)
        .map_err(|e| format!("{e}: {}", text::clip(&t)))?
        .unwrap();
    match (&want, &got) {
        (Ok((d, w)), Ok((e, g))) => {
            ensure!(
                d == e,
                "{e:?} instead of {d:?} from tokens of {}",
                text::clip(&t)
            );
            same(g, w, SHARED).map_err(|e| format!("{e} from tokens of {}", text::clip(&t)))?;
            c.ev("documents accepted", 1);
        }
        (Err(w), Err(g)) => {
            ensure!(
                w == g,
                "{g:?} instead of {w:?} from tokens of {}",
                text::clip(&t)
            );
            c.ev("documents refused", 1);
        }
        (w, g) => {
            let f = |r: &Result<(Dt, G), ParseError>| match r {
                Ok((d, _)) => format!("accepted as {d:?}"),
                Err(e) => format!("{e:?}"),
            };
            return Err(format!(
                "{} instead of {} from tokens of {}",
                f(g),
                f(w),
                text::clip(&t)
            ));
        }
    }
    Ok(())
}

/// Characters to tokens to states, imports not supplied, given up at any place.
fn p04_given_up(c: &mut Case) -> R {
    track::reset();
    let t = p04_text(c);
    c.sig(hash_str(&t));
    let r = (|| {
        let n = tokenize(GLOBAL, t.clone()).len();
        let tokens = if c.rng.bool() {
            tokenize(Track, t.clone())
        } else {
            let maps = create_transition_maps();
            let mut s = TokenizerState::default();
            t.chars()
                .flat_map(|x| s.push_mut(Track, x, &maps))
                .collect()
        };
        let stop = c.rng.chance(2, 3).then(|| c.rng.below(n + 1));
        let helpful = c.rng.chance(1, 4);
        let r = push_all(c, Track, tokens, helpful, stop)?;
        c.ev(
            if r.is_some() {
                "readings ended"
            } else {
                "readings given up"
            },
            1,
        );
        if let (false, Some(Ok(_))) = (helpful, &r) {
            let calls = lex(&t)
                .toks
                .windows(2)
                .any(|w| matches!(w, [text::Tok::Id(r), text::Tok::P('(')] if r == "require"));
            ensure!(
                !calls,
                "accepted without the imported value: {}",
                text::clip(&t)
            );
        }
        Ok(())
    })();
    r.and(track::finish())
}

// ------------------------------------------------------------------ P03

/// Reads and writes; only crashes and hangs count. The blocks must be given back.
fn survive(c: &mut Case, t: &str, how: How) -> R {
    fn go<M: Manager + 'static>(c: &mut Case, m: M, t: &str, how: How) -> R {
        let (io, _) = world();
        let mut cache = ModuleCache::default();
        match read_text(m, &io, &mut cache, "/m/root", t, how) {
            Ok((_, a)) => {
                c.ev("values", 1);
                let n = val::read(&a).tree_size();
                if n < 300_000 {
                    match to_json(a.clone()) {
                        Ok(s) => c.ev("bytes of JSON written", s.len() as u64),
                        Err(_) => c.ev("values refused as JSON", 1),
                    }
                } else {
                    c.ev("values too large for JSON", 1);
                }
                for cjs in [true, false] {
                    match to_djs(a.clone(), cjs) {
                        Ok(s) => c.ev("bytes of modules written", s.len() as u64),
                        Err(_) => c.ev("values refused as modules", 1),
                    }
                }
            }
            Err(_) => c.ev("errors", 1),
        }
        Ok(())
    }
    if c.rng.bool() {
        track::reset();
        go(c, Track, t, how)?;
        track::finish()
    } else {
        go(c, GLOBAL, t, how)
    }
}

fn p03_hostile(c: &mut Case) -> R {
    for _ in 0..4 {
        let t = hostile_text(&mut c.rng);
        let how = any_how(&mut c.rng);
        survive(c, &t, how)?;
        c.ev("hostile texts", 1);
        c.sig(hash_str(&t));
        c.sample(|| text::clip(&t));
    }
    Ok(())
}

/// Long texts: the time stays bounded (the supervisor ends a case that takes too long).
fn p03_long(c: &mut Case) -> R {
    let big = if c.tier == Tier::Tiny { 300 } else { 1 };
    let n = 100_000 / big;
    let (name, t): (&str, String) = match c.index % 24 {
        0 => ("digits", "9".repeat(n / 5)),
        1 => ("big integer", format!("{}n", "7".repeat(n / 5))),
        2 => ("fraction", format!("0.{}1", "0".repeat(n / 5))),
        3 => ("exponent", format!("1e{}", "9".repeat(n / 2))),
        4 => ("negative exponent", format!("1e-{}", "9".repeat(n / 2))),
        5 => ("string", format!("\"{}\"", "a\\u00e9".repeat(n / 7))),
        6 => ("open string", format!("\"{}", "x".repeat(n))),
        7 => ("name", "a".repeat(n)),
        8 => ("array", format!("[{}1]", "1,".repeat(n))),
        9 => (
            "object",
            format!(
                "{{{}\"z\":1}}",
                (0..n / 10)
                    .map(|i| format!("\"k{i}\":{i},"))
                    .collect::<String>()
            ),
        ),
        10 => (
            "same key",
            format!("{{{}\"a\":1}}", "\"a\":0,".repeat(n / 5)),
        ),
        11 => ("comment", format!("/*{}*/1", "*".repeat(n))),
        12 => ("open comment", format!("1/*{}", " *".repeat(n))),
        13 => ("lines", format!("{}1", "\n".repeat(n))),
        14 => ("line comments", format!("{}1", "//\n".repeat(n / 2))),
        15 => (
            "constants",
            (0..n / 50)
                .map(|i| format!("const c{i}=[]\n"))
                .collect::<String>()
                + "export default 1",
        ),
        16 => ("chain", {
            let mut s = String::from("const c0=[1]\n");
            for i in 1..n / 200 {
                s.push_str(&format!("const c{i}=[c{},c{}]\n", i - 1, i - 1));
            }
            s + &format!("export default c{}", n / 200 - 1)
        }),
        17 => (
            "many users",
            format!("const a=[1]\nexport default [{}a]", "a,".repeat(n / 2)),
        ),
        18 => ("errors", "@".repeat(n)),
        19 => ("minus signs", "-".repeat(n)),
        20 => (
            "escapes",
            format!("\"{}\"", "\\uD83D\\uDE00".repeat(n / 12)),
        ),
        21 => (
            "digits with exponent",
            format!("{}.{}e{}", "5".repeat(n / 10), "3".repeat(n / 10), n),
        ),
        22 => (
            "nesting",
            format!("{}{}", "[".repeat(1000 / big), "]".repeat(1000 / big)),
        ),
        _ => (
            "objects",
            format!(
                "{}1{}",
                "{\"a\":".repeat(1000 / big),
                "}".repeat(1000 / big)
            ),
        ),
    };
    let how = any_how(&mut c.rng);
    survive(c, &t, how)?;
    c.ev("long texts", 1);
    c.ev("bytes of long texts", t.len() as u64);
    c.sample(|| format!("{name}: {} bytes", t.len()));
    c.sig(hash_str(name));
    Ok(())
}

/// Values much larger than their text.
fn p03_diamonds(c: &mut Case) -> R {
    let n = c.rng.range(30, 120);
    let st = style(&mut c.rng);
    let first = ["[]", "[1]", "{}", "{a:1}", "1", "\"s\""][c.rng.below(6)];
    let mut t = format!("const c0={first}\n");
    // each step uses the one before twice, all in the same way or in different ones
    const STEPS: [&str; 9] = [
        "[@,@]",
        "{a:@,b:@}",
        "{\"a\":@,\"b\":[@]}",
        "[@,{\"x\":@},c0]",
        "[[@],[@]]",
        "[{x:@},{x:@}]",
        "{x:{x:@},y:{x:@}}",
        "{a:[@],b:[@]}",
        "[{},@,[],@]",
    ];
    let (a, b) = (c.rng.below(9), c.rng.below(9));
    let some = c.rng.below(3);
    for i in 1..n {
        let step = match some {
            0 => a,
            1 => *c.rng.pick(&[a, b]),
            _ => c.rng.below(9),
        };
        t.push_str(&format!(
            "const c{i}={}\n",
            STEPS[step].replace('@', &format!("c{}", i - 1))
        ));
    }
    t.push_str(match st {
        Style::Mjs => "export default ",
        Style::Cjs => "module.exports=",
        Style::Bare => "",
    });
    t.push_str(&format!("c{}", n - 1));
    survive(c, &t, How::File)?;
    c.ev("chains of shared values", 1);
    c.sig(hash_str(&t));
    Ok(())
}

/// A recorded finding: nesting far beyond the bound overflows the stack.
fn p03_deep(c: &mut Case) -> R {
    let what = ["array", "object"][c.index as usize % 2];
    let o = Command::new(std::env::current_exe().unwrap())
        .args(["CHILD", what, "300000"])
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    c.ev("very deep texts", 1);
    if !o.status.success() {
        c.known("P03-deep-nesting", || {
            format!("{what} nested 300000 times: {}", o.status)
        });
    }
    c.sig(hash_str(what));
    Ok(())
}

fn child(a: &[String]) {
    let n: usize = a[1].parse().unwrap();
    let t = match a[0].as_str() {
        "array" => format!("{}{}", "[".repeat(n), "]".repeat(n)),
        _ => format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n)),
    };
    let io = MemIo::new("/m");
    let mut cache = ModuleCache::default();
    let (_, a) = read_text(GLOBAL, &io, &mut cache, "/m/root", &t, How::Lazy)
        .ok()
        .unwrap();
    let n = to_json(a.clone()).unwrap().len() + to_djs(a, true).unwrap().len();
    println!("{n}");
}

fn main() {
    let a = args();
    let kinds: &[Kind] = match a.property.as_str() {
        "NONE" => {
            println!("READY");
            return;
        }
        "CHILD" => return child(&a.extra),
        "P01" => &[
            kind!(p01_short, 80_000, 400_000, 2),
            kind!(p01_valid, 24_000, 2_000_000, 2),
            kind!(p01_cuts, 1_600, 100_000, 1),
            kind!(p01_mutants, 24_000, 2_000_000, 2),
            kind!(p01_vast, 80, 3_000, 0),
            kind!(p01_sizes, 3_300, 33_000, 0),
            kind!(p01_large, 160, 4_000, 0),
        ],
        "P02" => &[
            kind!(p02_short, 24_000, 400_000, 4),
            kind!(p02_slots, 40_000, 1_000_000, 8),
            kind!(p02_names, 28_800, 1_000_000, 4),
            kind!(p02_statements, 40_000, 3_000_000, 4),
            kind!(p02_modules, 24_000, 1_500_000, 2),
            kind!(p02_mutants, 24_000, 2_000_000, 2),
            kind!(p02_vast, 48, 2_000, 0),
            kind!(p02_sizes, 6_435, 64_350, 0),
            kind!(p02_proto, 8, 8, 0),
        ],
        "P04" => &[
            kind!(p04_pushed, 60_000, 3_000_000, 4),
            kind!(p04_vast, 40, 1_500, 0),
            kind!(p04_sizes, 6_435, 64_350, 0),
            kind!(p04_given_up, 30_000, 1_000_000, 4),
        ],
        "P03" => &[
            kind!(p03_hostile, 80_000, 6_000_000, 6),
            kind!(p03_long, 48, 240, 0),
            kind!(p03_diamonds, 400, 10_000, 0),
            kind!(p03_deep, 2, 2, 0),
        ],
        p => panic!("unknown property {p}"),
    };
    drive(&a, kinds);
}

//! I01, I02, I03: module trees on an in-memory file system which records and fails operations.
use nanvm_lib::{
    app,
    mem::{global::GLOBAL, manager::Manager},
    parser::{
        parser::Context,
        path::{concat, normalize, split},
        shared::ModuleCache,
    },
    serializer::{
        to_djs::{to_djs, WriteDjs},
        to_json::{to_json, WriteJson},
    },
};
use nanvm_monitor::{
    ensure,
    files::Files,
    io::{resolve, Fault, MemIo, Op, KINDS},
    kind,
    run::{args, drive, guarded, hash_str, json_str, mix, Case, Kind, Rng, R},
    sys::{read_file, read_over, why, How},
    text::{self, clip, Stop, Style, Why},
    track::{self, Track},
    tree::{gen_tree, Made, Shape, Tree},
    val::{self, gen_graph, same, Opt, DATA, G, JSON, SHARED},
};
use std::{collections::BTreeMap, fmt, io::ErrorKind};

const TREE: Shape = Shape {
    modules: 10,
    nodes: 8,
    cycles: false,
    node: None,
    plain: false,
};

/// Steps of a normal path: no empty or `.` steps, `..` only at the start of a relative one.
fn is_normal(p: &str) -> bool {
    let (abs, rest) = match p.strip_prefix('/') {
        Some(r) => (true, r),
        None => (false, p),
    };
    if rest.is_empty() {
        return true;
    }
    let mut low = false;
    for s in rest.split('/') {
        match s {
            "" | "." => return false,
            ".." if abs || low => return false,
            ".." => {}
            _ => low = true,
        }
    }
    true
}

struct Seen {
    got: Result<G, Why>,
    opened: Vec<String>,
    asked: Vec<String>,
}

fn run_on<M: Manager + 'static>(
    m: M,
    io: &MemIo,
    cache: &mut ModuleCache<M::Dealloc>,
    root: &str,
) -> Seen {
    io.clear_log();
    let got = match read_file(m, io, cache, root) {
        Ok((_, a)) => Ok(val::read(&a)),
        Err(e) => Err(why(&e)),
    };
    let asked = io
        .log()
        .iter()
        .filter_map(|o| match o {
            Op::Open { asked, .. } => Some(asked.clone()),
            _ => None,
        })
        .collect();
    Seen {
        got,
        opened: io.opened(),
        asked,
    }
}

fn fresh(c: &mut Case, io: &MemIo, root: &str) -> Result<Seen, String> {
    if c.rng.bool() {
        track::reset();
        let mut cache = ModuleCache::default();
        let s = run_on(Track, io, &mut cache, root);
        drop(cache);
        track::finish()?;
        Ok(s)
    } else {
        Ok(run_on(GLOBAL, io, &mut ModuleCache::default(), root))
    }
}

fn once(v: &[String]) -> R {
    let mut n: BTreeMap<&String, usize> = BTreeMap::new();
    for p in v {
        *n.entry(p).or_insert(0) += 1;
    }
    match n.iter().find(|x| *x.1 > 1) {
        Some((p, n)) => Err(format!("{p} was read {n} times")),
        None => Ok(()),
    }
}

fn sorted(v: &[String]) -> Vec<String> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn reference(t: &Tree, root: usize, extra: impl Fn(&mut Files)) -> (Result<G, Stop>, Vec<String>) {
    let mut f = Files {
        files: t.files(),
        ..Files::default()
    };
    extra(&mut f);
    let mut g = G::default();
    let r = f.root(&mut g, &t.modules[root].path);
    let reads = f.reads;
    match r {
        Ok(a) => {
            g.root = a.root;
            (Ok(g), reads)
        }
        Err(e) => (Err(e), reads),
    }
}

fn verdict(s: &Seen, want: &Result<G, Stop>, reads: &[String]) -> Result<bool, String> {
    once(&s.opened)?;
    for p in s.asked.iter().skip(1) {
        ensure!(
            is_normal(p),
            "an import was looked for at {p}, which is not in normal form"
        );
    }
    match (want, &s.got) {
        (Err(Stop::Unspecified), _) => return Ok(false),
        (Ok(w), Ok(g)) => {
            same(g, w, SHARED)?;
            ensure!(
                sorted(&s.opened) == sorted(reads),
                "read {:?}, not {reads:?}",
                s.opened
            );
        }
        (Ok(_), Err(e)) => return Err(format!("refused ({e:?}), must give a value")),
        (Err(Stop::Reject(w)), Ok(_)) => {
            return Err(format!("gives a value, must be refused ({w:?})"))
        }
        (Err(Stop::Reject(w)), Err(e)) => ensure!(e == w, "refused as {e:?}, not as {w:?}"),
    }
    Ok(true)
}

// ------------------------------------------------------------------ I01

fn i01_trees(c: &mut Case) -> R {
    let shape = Shape {
        modules: *c.rng.pick(&[2, 4, 8, 16]),
        ..TREE
    };
    let Made { tree, asked } = gen_tree(&mut c.rng, &shape);
    let io = tree.io();
    let (g, roots) = tree.truth.as_ref().unwrap();
    let mut g = g.clone();
    // the first module, and some others
    for root in [0, c.rng.below(tree.modules.len())] {
        let e = |e: String| format!("{e}; {} in {} of {}", asked[root], tree.cwd, tree.show());
        let s = fresh(c, &io, &asked[root])?;
        let (want, reads) = reference(&tree, root, |_| {});
        g.root = roots[root];
        match &want {
            Ok(w) => same(w, &g, SHARED).map_err(|x| e(format!("monitor: {x}")))?,
            Err(x) => return Err(e(format!("monitor: {x:?}"))),
        }
        verdict(&s, &want, &reads).map_err(e)?;
        // exactly the reachable files
        let reach: Vec<String> = tree
            .reach(root)
            .iter()
            .map(|&i| tree.modules[i].path.clone())
            .collect();
        ensure!(
            sorted(&s.opened) == sorted(&reach),
            "{}",
            e(format!("read {:?}, not {reach:?}", s.opened))
        );
        c.ev("module trees", 1);
        c.ev("files read", s.opened.len() as u64);
        if tree.modules[root].imports.len() > 1 {
            c.ev("modules with several imports", 1);
        }
    }
    c.sample(|| tree.show());
    if tree.modules.len() > 1 && !tree.modules[0].imports.is_empty() {
        c.sig(hash_str(&tree.show()));
    }
    Ok(())
}

/// Trees which a JavaScript engine loads, too.
fn i01_engine(c: &mut Case) -> R {
    let style = if c.rng.bool() { Style::Mjs } else { Style::Cjs };
    let Made { tree, asked } = gen_tree(
        &mut c.rng,
        &Shape {
            modules: 7,
            nodes: 6,
            cycles: false,
            node: Some(style),
            plain: false,
        },
    );
    let io = tree.io();
    let s = fresh(c, &io, &asked[0])?;
    match &s.got {
        Ok(g) => {
            let mut files = String::new();
            for m in &tree.modules {
                files.push_str(&format!("{}:{},", json_str(&m.path), json_str(&m.text)));
            }
            files.pop();
            let t = format!(
                "{{\"root\":{},\"files\":{{{files}}}}}",
                json_str(&tree.modules[0].path)
            );
            c.node("tree", &t, &g.canon());
            c.ev("trees for the JavaScript engine", 1);
            c.sig(hash_str(&t));
        }
        Err(e) => return Err(format!("refused ({e:?}): {}", tree.show())),
    }
    Ok(())
}

fn gen_path(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push('/');
    }
    for i in 0..r.below(8) {
        if i > 0 {
            s.push('/');
        }
        s.push_str(
            [
                "a", "b", ".", "..", "", "..", "c d", "...", ".x", "é", "a.json", "..b",
            ][r.below(12)],
        );
    }
    if r.chance(1, 8) {
        s.push('/');
    }
    s
}

/// The path functions against the file system's reading of a path.
fn i01_paths(c: &mut Case) -> R {
    let p = gen_path(&mut c.rng);
    let q = gen_path(&mut c.rng);
    // deep enough: the relative paths do not climb out
    let cwd = "/1/2/3/4/5/6/7/8/9/10/11/12/13/14/15/16/17/18";
    let n = normalize(&p);
    ensure!(is_normal(&n), "normalize({p:?}) is {n:?}");
    ensure!(
        n.starts_with('/') == p.starts_with('/'),
        "normalize({p:?}) is {n:?}"
    );
    ensure!(
        resolve(cwd, &n) == resolve(cwd, &p),
        "normalize({p:?}) is {n:?}, another file"
    );
    ensure!(
        normalize(&n) == n,
        "normalize({n:?}) is {:?}",
        normalize(&n)
    );
    let j = concat(&p, &q);
    ensure!(is_normal(&j), "concat({p:?}, {q:?}) is {j:?}");
    let w = resolve(&resolve(cwd, &p), &q);
    ensure!(resolve(cwd, &j) == w, "concat({p:?}, {q:?}) is {j:?}");
    // absolute as soon as one of them is
    let absolute = q.starts_with('/') || p.starts_with('/');
    ensure!(
        j.starts_with('/') == absolute,
        "concat({p:?}, {q:?}) is {j:?}"
    );
    let (d, f) = split(&n);
    if !n.is_empty() && n != "/" {
        ensure!(
            !f.contains('/') && !f.is_empty(),
            "split({n:?}) is {:?}",
            (d, f)
        );
        ensure!(
            concat(d, f) == n || f == "..",
            "split({n:?}) is {:?}",
            (d, f)
        );
    }
    c.ev("paths", 2);
    if p.contains("..") {
        c.ev("paths with parent steps", 1);
    }
    c.sig(hash_str(&format!("{p}\n{q}")));
    c.sample(|| format!("{p:?} + {q:?} = {j:?}"));
    Ok(())
}

/// Every length of a path, and every number of its steps.
fn i01_sizes(c: &mut Case) -> R {
    let (dim, n) = c.sweep(10);
    let name = |n: usize| -> String {
        (0..n.max(1))
            .map(|i| (b'a' + (i % 26) as u8) as char)
            .collect()
    };
    let few = n.min(10_001);
    // as it is written in the module, and where the file is
    let (text, place) = match dim {
        0 => (format!("./{}m", "./".repeat(few)), "m".to_string()),
        1 => (format!("./{}m", "d/../".repeat(few)), "m".into()),
        2 => {
            let d = "d/".repeat(few);
            (format!("./{d}{}m", "../".repeat(few)), "m".into())
        }
        3 => (format!("./{}", name(n)), name(n)),
        4 => (format!("./{}/m", name(n)), format!("{}/m", name(n))),
        5 => {
            let d = "d/".repeat(few);
            (format!("{d}m"), format!("{d}m"))
        }
        6 => (format!("./e{}m", "/".repeat(n.max(1))), "e/m".into()),
        7 => {
            let t = "\u{e9}".repeat(n.max(1));
            (format!("./{t}.mjs"), format!("{t}.mjs"))
        }
        8 => {
            let d: String = (0..few).map(|i| format!("{i}/")).collect();
            (format!("./{d}m"), format!("{d}m"))
        }
        _ => {
            // up by as many steps as the folders allow
            let d: String = (0..few).map(|i| format!("{i}/")).collect();
            (
                format!("{}d/{d}../{}m", "./".repeat(few % 3), "../".repeat(few)),
                "m".into(),
            )
        }
    };
    let io = MemIo::new("/w");
    let quote = '"';
    let main = match c.rng.below(3) {
        0 => format!("import a from {quote}{text}{quote}\nexport default [a,a]"),
        1 => format!("const a=require({quote}{text}{quote})\nmodule.exports=[a,a]"),
        _ => format!(
            "module.exports=[require({quote}{text}{quote}),require({quote}./{text}{quote})]"
        ),
    };
    io.put("m0", main.as_bytes());
    // which imports in its turn, from beside it
    io.put(&place, b"module.exports=[require(\"./z\"),1]");
    let beside = match place.rfind('/') {
        Some(i) => format!("{}/z", &place[..i]),
        None => "z".into(),
    };
    io.put(&beside, b"{\"z\":[]}");
    let mut f = Files {
        files: io.0.borrow().files.clone(),
        ..Files::default()
    };
    let mut g = G::default();
    let want = f.root(&mut g, "/w/m0").map(|a| {
        g.root = a.root;
        g
    });
    ensure!(want.is_ok(), "monitor: {:?}", want.as_ref().err());
    let reads = f.reads.clone();
    let s = fresh(c, &io, "m0")?;
    let e = |e: String| format!("{}; path of kind {dim}, {n} long", clip(&e));
    verdict(&s, &want, &reads).map_err(e)?;
    // asked for by that path
    let root = if c.rng.bool() {
        text.clone()
    } else {
        format!("/w/{text}")
    };
    let s = fresh(c, &io, &root)?;
    let mut f = Files {
        files: io.0.borrow().files.clone(),
        ..Files::default()
    };
    let mut g = G::default();
    let want = f.root(&mut g, &format!("/w/{place}")).map(|a| {
        g.root = a.root;
        g
    });
    let reads = f.reads.clone();
    verdict(&s, &want, &reads).map_err(e)?;
    c.ev("lengths", 1);
    c.sig(mix((dim * 1_000_000 + n) as u64));
    Ok(())
}

// ------------------------------------------------------------------ I02

/// Any graph of modules: cycles of every length, diamonds.
fn i02_graphs(c: &mut Case) -> R {
    let shape = Shape {
        modules: *c.rng.pick(&[1, 2, 3, 5, 9]),
        nodes: 5,
        cycles: true,
        node: None,
        plain: false,
    };
    let Made { tree, asked } = gen_tree(&mut c.rng, &shape);
    let io = tree.io();
    for root in 0..tree.modules.len().min(4) {
        let e = |e: String| format!("{e}; {} in {} of {}", asked[root], tree.cwd, tree.show());
        let s = fresh(c, &io, &asked[root])?;
        let circular = tree.circular(root);
        let (want, reads) = reference(&tree, root, |_| {});
        ensure!(
            matches!(want, Err(Stop::Reject(Why::Cycle))) == circular,
            "{}",
            e(format!("monitor: circular {circular}"))
        );
        verdict(&s, &want, &reads).map_err(e)?;
        ensure!(
            (s.got.as_ref().err() == Some(&Why::Cycle)) == circular,
            "{}",
            e(format!(
                "circular: {circular}, but {:?}",
                s.got.as_ref().err()
            ))
        );
        c.ev(
            if circular {
                "circular graphs"
            } else {
                "acyclic graphs"
            },
            1,
        );
        if tree.modules[root].imports.contains(&root) {
            c.ev("self-imports", 1);
        }
        if !circular {
            let n: usize = tree
                .reach(root)
                .iter()
                .map(|&i| tree.modules[i].imports.len())
                .sum();
            if n >= tree.reach(root).len() {
                c.ev("modules with several importers", 1);
            }
        }
    }
    c.sample(|| tree.show());
    c.sig(hash_str(&tree.show()));
    Ok(())
}

/// Long histories over one cache: successes, failures of every kind, retries.
fn i02_histories(c: &mut Case) -> R {
    let shape = Shape {
        modules: *c.rng.pick(&[3, 6, 10]),
        nodes: 4,
        cycles: c.rng.chance(2, 3),
        node: None,
        plain: false,
    };
    let Made { mut tree, asked } = gen_tree(&mut c.rng, &shape);
    // some modules are broken
    let n = tree.modules.len();
    let mut missing = vec![false; n];
    for i in 0..n {
        match c.rng.below(14) {
            0 => tree.modules[i].text.push_str("\n]"),
            1 => missing[i] = true,
            2 => {
                let t = &mut tree.modules[i].text;
                let mut k = t.len() / 2;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
            }
            _ => {}
        }
    }
    let io = tree.io();
    for i in 0..n {
        if missing[i] {
            io.0.borrow_mut().files.remove(&tree.modules[i].path);
        }
    }
    let m = c.rng.bool();
    track::reset();
    if m {
        histories(c, Track, &tree, &asked, &io, &missing)?;
        track::finish()?;
    } else {
        histories(c, GLOBAL, &tree, &asked, &io, &missing)?;
    }
    c.sig(hash_str(&tree.show()) ^ c.seed);
    Ok(())
}

fn histories<M: Manager + 'static>(
    c: &mut Case,
    m: M,
    tree: &Tree,
    asked: &[String],
    io: &MemIo,
    missing: &[bool],
) -> R {
    let n = tree.modules.len();
    let mut cache = ModuleCache::default();
    let mut steps = vec![];
    // a module that was loaded as an import without a fault is not read again
    for _ in 0..c.rng.range(2, 8) {
        let root = c.rng.below(n);
        // now and then a file cannot be read for a moment
        let bad = c.rng.chance(1, 4).then(|| {
            let v = tree.reach(root);
            tree.modules[*c.rng.pick(&v)].path.clone()
        });
        if let Some(b) = &bad {
            let f = if c.rng.bool() {
                Fault::Open(b.clone(), ErrorKind::PermissionDenied)
            } else {
                Fault::Read(b.clone(), c.rng.below(4))
            };
            io.0.borrow_mut().faults = vec![f];
        }
        steps.push(format!(
            "{}{}",
            asked[root],
            if bad.is_some() { " (failing)" } else { "" }
        ));
        let s = run_on(m, io, &mut cache, &asked[root]);
        io.0.borrow_mut().faults.clear();
        let e = |e: String| format!("{e}; after {steps:?} in {} of {}", tree.cwd, tree.show());
        let (want, _) = reference(tree, root, |f| {
            for i in 0..n {
                if missing[i] {
                    f.files.remove(&tree.modules[i].path);
                }
            }
            f.bad.extend(bad.clone());
        });
        once(&s.opened).map_err(e)?;
        match (&want, &s.got) {
            (Err(Stop::Unspecified), _) => {}
            (Ok(w), Ok(g)) => {
                same(g, w, SHARED).map_err(e)?;
                c.ev("successful runs over a used cache", 1);
            }
            // the failing file may be known already: a fresh run without the fault decides
            (_, got) if bad.is_some() => {
                let (w2, _) = reference(tree, root, |f| {
                    for i in 0..n {
                        if missing[i] {
                            f.files.remove(&tree.modules[i].path);
                        }
                    }
                });
                let ok = match (&want, &w2, got) {
                    (Err(Stop::Reject(a)), _, Err(b)) if a == b => true,
                    (_, Err(Stop::Reject(a)), Err(b)) if a == b => true,
                    (_, Ok(w), Ok(g)) => same(g, w, SHARED).is_ok(),
                    (_, Err(Stop::Unspecified), _) => true,
                    _ => false,
                };
                ensure!(ok, "{}", e("the outcome of a failing run".into()));
                c.ev("runs with a failing file", 1);
            }
            (Ok(_), Err(x)) => return Err(e(format!("refused ({x:?}), must give a value"))),
            (Err(w), Ok(_)) => return Err(e(format!("gives a value, must be refused ({w:?})"))),
            (Err(Stop::Reject(w)), Err(x)) => {
                ensure!(w == x, "{}", e(format!("refused as {x:?}, not as {w:?}")));
                c.ev("refused runs over a used cache", 1);
            }
        }
    }
    Ok(())
}

/// One context, used again and again: whatever happened to the runs before, the next one starts
/// from the same place.
fn i02_contexts(c: &mut Case) -> R {
    let shape = Shape {
        modules: *c.rng.pick(&[2, 3, 6, 10]),
        nodes: 4,
        cycles: c.rng.chance(1, 4),
        node: None,
        plain: false,
    };
    let Made { mut tree, asked } = gen_tree(&mut c.rng, &shape);
    // now and then an import is broken
    if c.rng.chance(1, 3) {
        let i = c.rng.below(tree.modules.len());
        tree.modules[i].text.push_str("\n]");
    }
    track::reset();
    if c.rng.bool() {
        contexts(c, Track, &mut tree, &asked)?;
        track::finish()?;
    } else {
        contexts(c, GLOBAL, &mut tree, &asked)?;
    }
    c.sig(hash_str(&tree.show()) ^ c.seed);
    Ok(())
}

fn contexts<M: Manager + 'static>(c: &mut Case, m: M, tree: &mut Tree, asked: &[String]) -> R {
    let io = tree.io();
    let root = c.rng.below(tree.modules.len());
    let reach = tree.reach(root);
    let whole = tree.modules[root].text.clone();
    let mut cache = ModuleCache::default();
    let mut context = Context::new(m, &io, asked[root].clone(), &mut cache);
    let mut steps = vec![];
    let mut failed = false;
    for _ in 0..c.rng.range(2, 6) {
        // the root is whole or cut off
        let mut text = whole.clone();
        if c.rng.chance(1, 4) {
            let mut k = c.rng.below(text.len() + 1);
            while !text.is_char_boundary(k) {
                k -= 1;
            }
            text.truncate(k);
        }
        tree.modules[root].text = text.clone();
        io.put(&tree.modules[root].path, text.as_bytes());
        let bad = c
            .rng
            .chance(1, 3)
            .then(|| tree.modules[*c.rng.pick(&reach)].path.clone());
        let how = *c.rng.pick(&[How::File, How::Eager, How::Lazy]);
        // a root which is given as a text is not read
        let bad = bad.filter(|b| how == How::File || *b != tree.modules[root].path);
        if let Some(b) = &bad {
            io.0.borrow_mut().faults = vec![Fault::Open(b.clone(), ErrorKind::PermissionDenied)];
        }
        steps.push(format!("{how:?} {:?} of {} bytes", bad, text.len()));
        io.clear_log();
        let got = match read_over(m, &mut context, &text, how) {
            Ok((_, a)) => Ok(val::read(&a)),
            Err(e) => Err(why(&e)),
        };
        io.0.borrow_mut().faults.clear();
        let e = |e: String| {
            format!(
                "{e}; after {steps:?} of {} in {} of {}",
                asked[root],
                tree.cwd,
                tree.show()
            )
        };
        let (want, _) = reference(tree, root, |f| f.bad.extend(bad.clone()));
        let (fine, _) = reference(tree, root, |_| {});
        once(&io.opened()).map_err(e)?;
        let agree = |w: &Result<G, Stop>| match (w, &got) {
            (Err(Stop::Unspecified), _) => Ok(()),
            (Ok(w), Ok(g)) => same(g, w, SHARED),
            (Err(Stop::Reject(a)), Err(b)) if a == b => Ok(()),
            (Err(Stop::Reject(a)), got) => Err(format!(
                "{:?} where it must be refused as {a:?}",
                got.as_ref().map(|_| "a value")
            )),
            (Ok(_), Err(b)) => Err(format!("refused ({b:?}), must give a value")),
        };
        // a failing file may be known already: then the fault does not count
        match agree(&want) {
            Err(_) if bad.is_some() => agree(&fine).map_err(e)?,
            r => r.map_err(e)?,
        }
        if failed && got.is_ok() {
            c.ev("successful runs over a context which failed before", 1);
        }
        failed |= got.is_err();
        c.ev("runs over a used context", 1);
    }
    Ok(())
}

/// Long chains and many importers of one module.
fn i02_large(c: &mut Case) -> R {
    let n = c.rng.range(20, 150);
    i02_many(c, n, c.index % 4)
}

/// Every number of modules.
fn i02_sizes(c: &mut Case) -> R {
    let (shape, n) = c.sweep(4);
    let n = match shape {
        // one inside the other
        0 | 2 | 3 => n.min(300),
        _ if n > 9_000 => c.rng.range(131, 2_000),
        _ => n,
    };
    c.ev("lengths", 1);
    i02_many(c, n.max(2), shape as u64)
}

/// More modules than 16-bit counters hold, none of them far from the first.
fn i02_vast(c: &mut Case) -> R {
    let n = c.rng.vast();
    c.ev("graphs of over 65000 modules", 1);
    i02_many(c, n, 1)
}

/// Chains and cycles longer than any limit on what is in progress would likely be.
fn i02_deep(c: &mut Case) -> R {
    struct Sent<T>(T);
    // safe: the other thread is waited for
    unsafe impl<T> Send for Sent<T> {}
    let n = *c.rng.pick(&[254, 255, 256, 257, 511, 513, 999, 1000, 1001, 1024, 1500, 2049]);
    let n = if c.rng.bool() { n } else { c.rng.range(300, 2_500) };
    let shape = *c.rng.pick(&[0, 2, 3, 3, 4]);
    let at = n as u64;
    let done = {
        let case = Sent(&mut *c);
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let case = case;
                    Sent(i02_many(case.0, n, shape))
                })
                .map_err(|e| format!("monitor: {e}"))?
                .join()
                .map_err(|_| format!("monitor: the run of {at} modules ended"))
        })?
    };
    c.ev("modules deep in one another", at);
    done.0
}

fn i02_many(c: &mut Case, n: usize, shape: u64) -> R {
    let io = MemIo::new("/w");
    let mut want_files = n + 1;
    match shape {
        0 => {
            // a chain
            for i in 0..n {
                io.put(
                    &format!("m{i}"),
                    format!("import a from \"./m{}\"\nexport default [a,a]", i + 1).as_bytes(),
                );
            }
            io.put(&format!("m{n}"), b"[1]");
        }
        1 => {
            // a star
            let mut t = String::new();
            let mut v = String::new();
            for i in 1..n {
                t.push_str(&format!("import a{i} from \"./m{i}\"\n"));
                v.push_str(&format!("a{i},"));
                io.put(
                    &format!("m{i}"),
                    format!("const x=require(\"./m{n}\")\nmodule.exports=[x,require(\"m{n}\")]")
                        .as_bytes(),
                );
            }
            io.put("m0", format!("{t}export default [{v}]").as_bytes());
            io.put(&format!("m{n}"), b"{\"a\":[]}");
        }
        2 => {
            // diamonds on diamonds
            for i in 0..n {
                let a = (i + 1).min(n);
                let b = (i + 2).min(n);
                io.put(
                    &format!("m{i}"),
                    format!("module.exports=[require(\"./m{a}\"),require(\"./m{b}\")]").as_bytes(),
                );
            }
            io.put(&format!("m{n}"), b"[null]");
        }
        4 => {
            // a chain into a cycle
            for i in 0..=n {
                let to = if i == n { n - n / 8 } else { i + 1 };
                io.put(
                    &format!("m{i}"),
                    format!("module.exports={{a:require(\"./m{to}\")}}").as_bytes(),
                );
            }
            want_files = 0;
        }
        _ => {
            // a cycle as long as it gets
            for i in 0..=n {
                io.put(
                    &format!("m{i}"),
                    format!(
                        "import a from \"./m{}\"\nexport default a",
                        (i + 1) % (n + 1)
                    )
                    .as_bytes(),
                );
            }
            want_files = 0;
        }
    }
    let mut f = Files {
        files: io.0.borrow().files.clone(),
        ..Files::default()
    };
    let mut g = G::default();
    let want = f.root(&mut g, "/w/m0").map(|a| {
        g.root = a.root;
        g
    });
    let reads = f.reads.clone();
    let s = fresh(c, &io, "m0")?;
    verdict(&s, &want, &reads)?;
    if want_files > 0 {
        ensure!(
            s.opened.len() == want_files,
            "{} files read, not {want_files}",
            s.opened.len()
        );
    } else {
        ensure!(
            s.got.as_ref().err() == Some(&Why::Cycle),
            "a cycle of {} modules: {:?}",
            n + 1,
            s.got.is_ok()
        );
    }
    c.ev("large graphs", 1);
    c.ev("files read", s.opened.len() as u64);
    c.sig(mix(n as u64) ^ shape);
    Ok(())
}

// ------------------------------------------------------------------ I03

const OUT: [&str; 4] = ["/out/o.json", "/out/o.d.mjs", "/out/o.d.cjs", "o.json"];

fn convert(io: &MemIo, input: &str, output: &str) -> Result<Result<(), String>, String> {
    {
        let mut s = io.0.borrow_mut();
        s.args = vec!["nanvm".into(), input.into(), output.into()];
        s.log.clear();
        s.ops = 0;
        s.injected = 0;
    }
    guarded(|| app::run(io).map_err(|e| e.to_string()))
}

/// Every operation of a conversion fails once.
fn i03_positions(c: &mut Case) -> R {
    let shape = Shape {
        modules: *c.rng.pick(&[1, 3, 6]),
        nodes: 5,
        ..TREE
    };
    let Made { tree, asked } = gen_tree(&mut c.rng, &shape);
    let output = *c.rng.pick(&OUT);
    let io = tree.io();
    let old: &[u8] = b"what was there before";
    let existed = c.rng.bool();
    let chunk = *c.rng.pick(&[0, 0, 1, 7, 100]);
    io.0.borrow_mut().chunk = chunk;
    let e = |e: String| {
        format!(
            "{e}; {} to {output} in {} of {}",
            asked[0],
            tree.cwd,
            tree.show()
        )
    };
    let put = |io: &MemIo| {
        io.0.borrow_mut().files.remove(&resolve(&tree.cwd, output));
        if existed {
            io.put(output, old);
        }
    };
    put(&io);
    // without faults
    let base = convert(&io, &asked[0], output).map_err(e)?;
    let ops = io.0.borrow().ops;
    let good = io.get(output);
    let reads = io
        .log()
        .iter()
        .filter(|o| matches!(o, Op::Create { .. }))
        .count();
    match &base {
        Ok(()) => {
            ensure!(good.is_some() && reads == 1, "{}", e("no output".into()));
            c.ev("conversions without fault", 1);
        }
        Err(x) => {
            // JSON cannot hold everything
            ensure!(output.ends_with(".json"), "{}", e(format!("refused ({x})")));
            ensure!(
                good.as_deref() == existed.then_some(old),
                "{}",
                e("refused, but the output changed".into())
            );
            c.ev("values the output format refuses", 1);
        }
    }
    if chunk > 0 {
        // transfers in small pieces change nothing
        io.0.borrow_mut().chunk = 0;
        put(&io);
        let again = convert(&io, &asked[0], output).map_err(e)?;
        ensure!(
            again == base && io.get(output) == good,
            "{}",
            e("the size of transfers changes the result".into())
        );
        io.0.borrow_mut().chunk = chunk;
        c.ev("transfers in pieces", 1);
    }
    if c.rng.bool() {
        // an interruption is no failure, or it is one: never half of a file
        put(&io);
        io.0.borrow_mut().interrupts = *c.rng.pick(&[2, 3, 5, 8]);
        let again = convert(&io, &asked[0], output).map_err(e)?;
        {
            let mut s = io.0.borrow_mut();
            s.interrupts = 0;
            c.ev("transfers interrupted", s.interrupted as u64);
            s.interrupted = 0;
        }
        let ok = match (&again, &base) {
            (Ok(()), Ok(())) => io.get(output) == good,
            (Ok(()), Err(_)) => false,
            _ => true,
        };
        ensure!(ok, "{}", e("interruptions change the result".into()));
    }
    {
        let mut s = io.0.borrow_mut();
        s.kind = if c.rng.chance(1, 3) {
            None
        } else {
            Some(*c.rng.pick(&KINDS))
        };
        s.full = c.rng.chance(1, 4);
    }
    let step = (ops / 60).max(1);
    for k in (0..ops).step_by(step) {
        put(&io);
        io.0.borrow_mut().faults = vec![Fault::Nth(k)];
        let r = convert(&io, &asked[0], output).map_err(e)?;
        let log = io.log();
        let last_failed = log
            .iter()
            .find(|o| {
                matches!(
                    o,
                    Op::Open { ok: false, .. }
                        | Op::ReadFailed { .. }
                        | Op::Create { ok: false, .. }
                        | Op::Write { ok: false, .. }
                )
            })
            .cloned();
        let injected = io.0.borrow().injected > 0;
        ensure!(
            injected && last_failed.is_some(),
            "{}",
            e(format!("monitor: nothing injected at {k}"))
        );
        judge(
            c,
            &r,
            last_failed.as_ref().unwrap(),
            &io,
            output,
            existed.then_some(old),
        )
        .map_err(|x| e(format!("{x} (fault at operation {k})")))?;
    }
    io.0.borrow_mut().faults.clear();
    // and afterwards everything works again
    put(&io);
    let r = convert(&io, &asked[0], output).map_err(e)?;
    ensure!(
        r == base && io.get(output) == good,
        "{}",
        e("another result after the faults".into())
    );
    c.sample(|| format!("{} operations, each failed once: {}", ops, tree.show()));
    c.sig(hash_str(&tree.show()));
    Ok(())
}

fn judge(
    c: &mut Case,
    r: &Result<(), String>,
    op: &Op,
    io: &MemIo,
    output: &str,
    old: Option<&[u8]>,
) -> R {
    let msg = match r {
        Ok(()) => return Err(format!("success although {op:?}")),
        Err(m) => m,
    };
    match op {
        Op::Open { .. } | Op::ReadFailed { .. } => {
            ensure!(
                msg.contains("CannotReadFile"),
                "{op:?} was reported as {msg:?}"
            );
            let log = io.log();
            ensure!(
                !log.iter()
                    .any(|o| matches!(o, Op::Create { .. } | Op::Write { .. })),
                "{op:?}, but the output was touched"
            );
            ensure!(
                io.get(output).as_deref() == old,
                "{op:?}, but the output changed"
            );
            c.ev("read failures", 1);
        }
        Op::Create { .. } => {
            ensure!(
                io.get(output).as_deref() == old,
                "{op:?}, but the output changed"
            );
            c.ev("create failures", 1);
        }
        _ => c.ev("write failures", 1),
    }
    Ok(())
}

/// Faults by file: missing, forbidden, failing in the middle, not text.
fn i03_files(c: &mut Case) -> R {
    let shape = Shape {
        modules: *c.rng.pick(&[1, 3, 7]),
        nodes: 6,
        ..TREE
    };
    let Made { tree, asked } = gen_tree(&mut c.rng, &shape);
    let io = tree.io();
    let output = *c.rng.pick(&OUT[1..3]);
    io.0.borrow_mut().chunk = *c.rng.pick(&[0, 0, 3]);
    let old: &[u8] = b"old";
    let reach = tree.reach(0);
    let v = *c.rng.pick(&reach);
    let p = tree.modules[v].path.clone();
    let out = resolve(&tree.cwd, output);
    let e = |e: String| {
        format!(
            "{e}; {} to {output}, {p} fails, in {} of {}",
            asked[0],
            tree.cwd,
            tree.show()
        )
    };
    for what in 0..6 {
        io.put(output, old);
        let (fault, reading) = match what {
            0 => (Some(Fault::Open(p.clone(), *c.rng.pick(&KINDS))), true),
            1 => {
                let n = tree.modules[v].text.len();
                let k = *c.rng.pick(&[0, 1, n / 2, n.saturating_sub(1), n]);
                (Some(Fault::Read(p.clone(), k)), true)
            }
            2 => {
                // not text any more
                let mut b = tree.modules[v].text.clone().into_bytes();
                let at = c.rng.below(b.len() + 1);
                let bad: &[u8] = [
                    &b"\xff"[..],
                    b"\xc3",
                    b"\xed\xa0\x80",
                    b"\xf5\x80\x80\x80",
                    b"\xc0\x80",
                ][c.rng.below(5)];
                b.splice(at..at, bad.iter().copied());
                io.put(&p, &b);
                (None, true)
            }
            3 => {
                io.0.borrow_mut().files.remove(&p);
                (None, true)
            }
            4 => (Some(Fault::Create(out.clone(), *c.rng.pick(&KINDS))), false),
            _ => {
                let k = c.rng.size(20);
                (Some(Fault::Write(out.clone(), k)), false)
            }
        };
        let is_write = what == 5;
        io.0.borrow_mut().kind = if c.rng.bool() {
            None
        } else {
            Some(*c.rng.pick(&KINDS))
        };
        io.0.borrow_mut().full = c.rng.chance(1, 4);
        io.0.borrow_mut().faults = fault.into_iter().collect();
        let r = convert(&io, &asked[0], output).map_err(e)?;
        io.0.borrow_mut().faults.clear();
        io.put(&p, tree.modules[v].text.as_bytes());
        if is_write && io.0.borrow().injected == 0 {
            // the output was shorter
            ensure!(r.is_ok(), "{}", e(format!("refused ({r:?})")));
            continue;
        }
        let op = if reading {
            Op::ReadFailed { path: p.clone() }
        } else if is_write {
            Op::Write {
                path: out.clone(),
                n: 0,
                ok: false,
            }
        } else {
            Op::Create {
                asked: output.into(),
                path: out.clone(),
                ok: false,
            }
        };
        judge(c, &r, &op, &io, output, Some(old)).map_err(e)?;
        c.ev("failing files", 1);
        if v != 0 {
            c.ev("failing imports", 1);
        }
        if what == 2 {
            c.ev("files that are not text", 1);
        }
    }
    c.sig(hash_str(&tree.show()) ^ v as u64);
    c.sample(|| format!("{p} fails: {}", tree.show()));
    Ok(())
}

/// Takes pieces until it has this many bytes or pieces, then refuses one or all of them.
struct Sink {
    got: String,
    bytes: usize,
    pieces: usize,
    forever: bool,
    refused: usize,
}

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let full = self.got.len() + s.len() > self.bytes || self.pieces == 0;
        if full && !s.is_empty() && (self.forever || self.refused == 0) {
            self.refused += 1;
            return Err(fmt::Error);
        }
        self.pieces = self.pieces.saturating_sub(1);
        self.got.push_str(s);
        Ok(())
    }
}

/// Values written to a sink that refuses a piece: the whole is an error, and what the sink has is
/// the beginning of what it would have got.
fn i03_sinks(c: &mut Case) -> R {
    let o = Opt {
        nodes: *c.rng.pick(&[1, 6, 30]),
        ..DATA
    };
    let json = c.rng.chance(1, 3);
    let g = gen_graph(&mut c.rng, if json { &JSON } else { &o });
    fn go<M: Manager + 'static>(c: &mut Case, m: M, g: &G, json: bool) -> R {
        let a = val::build(m, g);
        let cjs = c.rng.bool();
        let put = |s: &mut Sink| {
            if json {
                s.write_json(a.clone())
            } else {
                s.write_djs(a.clone(), cjs)
            }
        };
        let mut s = Sink {
            got: String::new(),
            bytes: usize::MAX,
            pieces: usize::MAX,
            forever: true,
            refused: 0,
        };
        ensure!(put(&mut s).is_ok(), "a sink that takes everything: error");
        let whole = s.got;
        let direct = if json {
            to_json(a.clone())
        } else {
            to_djs(a.clone(), cjs)
        };
        ensure!(
            direct.as_ref() == Ok(&whole),
            "a sink gets {}, as a text it is {:?}",
            text::clip(&whole),
            direct.map(|s| text::clip(&s))
        );
        let n = whole.len();
        for i in 0..24 {
            // in the first rounds by bytes, then by pieces
            let by_bytes = i % 2 == 0;
            let k = match i / 2 {
                0 => 0,
                1 => n - 1,
                2 => 1.min(n - 1),
                _ => c.rng.below(n),
            };
            let mut s = Sink {
                got: String::new(),
                bytes: if by_bytes { k } else { usize::MAX },
                pieces: if by_bytes { usize::MAX } else { k },
                forever: c.rng.bool(),
                refused: 0,
            };
            let r = put(&mut s);
            let e = |e: &str| {
                format!(
                    "{e}: bytes {by_bytes}, limit {k}, got {} of {}",
                    text::clip(&s.got),
                    text::clip(&whole)
                )
            };
            if s.refused > 0 {
                ensure!(r.is_err(), "{}", e("a refused piece and no error"));
                ensure!(whole.starts_with(&s.got), "{}", e("not the beginning"));
                c.ev("sinks that refused", 1);
            } else {
                ensure!(!by_bytes, "{}", e("more bytes than the sink takes"));
                ensure!(r.is_ok(), "{}", e("an error though nothing was refused"));
                ensure!(s.got == whole, "{}", e("another text"));
            }
        }
        c.sig(hash_str(&whole));
        Ok(())
    }
    if c.rng.bool() {
        track::reset();
        go(c, Track, &g, json)?;
        track::finish()
    } else {
        go(c, GLOBAL, &g, json)
    }
}

fn main() {
    let a = args();
    let kinds: &[Kind] = match a.property.as_str() {
        "NONE" => {
            println!("READY");
            return;
        }
        "I01" => &[
            kind!(i01_paths, 300_000, 10_000_000, 20),
            kind!(i01_sizes, 3_300, 6_600, 0),
            kind!(i01_trees, 24_000, 1_000_000, 2),
            kind!(i01_engine, 1_200, 20_000, 0),
        ],
        "I02" => &[
            kind!(i02_graphs, 40_000, 1_000_000, 2),
            kind!(i02_histories, 40_000, 1_000_000, 2),
            kind!(i02_contexts, 30_000, 1_000_000, 2),
            kind!(i02_sizes, 1_320, 2_640, 0),
            kind!(i02_vast, 16, 300, 0),
            kind!(i02_deep, 48, 1_000, 0),
            kind!(i02_large, 240, 10_000, 0),
        ],
        "I03" => &[
            kind!(i03_positions, 14_000, 400_000, 1),
            kind!(i03_sinks, 20_000, 500_000, 2),
            kind!(i03_files, 30_000, 800_000, 1),
        ],
        p => panic!("unknown property {p}"),
    };
    drive(&a, kinds);
}

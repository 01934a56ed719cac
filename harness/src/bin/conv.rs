//! M03: conversions of anything give back all memory and touch no other.
//!
//! Every case is a piece of work which is done several times: over a tracking manager (red zones, poison,
//! exact layouts) whose fresh blocks are filled with one byte and then with another, and over the global
//! manager while every allocation of the process is on the record. All blocks must be back at the end, and
//! what was computed may not depend on what fresh memory held.
use nanvm_lib::{
    app,
    big_numbers::{big_float::BigFloat, big_int::BigInt, big_uint::BigUint},
    js::{
        any::Any,
        js_bigint::{self as jb, JsBigintMutRef, Sign},
    },
    mem::{
        global::GLOBAL,
        local::Local,
        manager::{Dealloc, Manager},
    },
    parser::{
        parser::{parse_with_tokens, Context},
        shared::{ModuleCache, ParseError},
    },
    serializer::{to_djs::to_djs, to_json::to_json},
    tokenizer::{bigfloat_to_f64, tokenize, TokenizerStateIterator},
};
#[cfg(not(any(asan, miri)))]
use nanvm_monitor::galloc;
use nanvm_monitor::{
    ensure,
    hostile::{hostile_text, style, world},
    io::Fault,
    kind,
    refbig::{gen_int, gen_related, Int},
    run::{args, drive, guarded, hash_bytes, hash_str, mix, Case, Kind, Rng, Tier, R},
    sys::{any_how, read_file, read_text, How},
    text::{mutate, soup, write_json, write_module, LOOSE, STRICT},
    toks,
    track::{self, Track, TrackA},
    tree::{gen_tree, Made, Shape},
    val::{self, gen_graph, gen_shape, Opt, DATA, G, JSON},
};
use std::{io::ErrorKind, ops::Deref};

#[cfg(not(any(asan, miri)))]
#[global_allocator]
static LEDGER: galloc::Ledger = galloc::Ledger;

// ------------------------------------------------------------------ the runs

const NAMES: [&str; 16] = [
    "values read",
    "texts refused",
    "JSON texts written",
    "modules written",
    "values refused by a writer",
    "tokens",
    "token streams cut",
    "token streams abandoned",
    "big integer operations",
    "number conversions",
    "values kept across runs",
    "runs over a module tree",
    "runs with a failing file",
    "circular imports refused",
    "programs run",
    "programs run with a fault",
];

/// What a piece of work saw. No memory of its own.
#[derive(Default, Clone, PartialEq)]
struct Seen {
    n: [u64; NAMES.len()],
    digest: u64,
}

impl Seen {
    fn ev(&mut self, name: &str, n: u64) {
        self.n[NAMES.iter().position(|x| *x == name).unwrap()] += n;
    }
    fn mix(&mut self, x: u64) {
        self.digest = mix(self.digest ^ x);
    }
    fn str(&mut self, s: &str) {
        self.mix(hash_str(s));
    }
}

trait Work {
    fn go<M: Manager + 'static>(&self, m: M, s: &mut Seen);
}

fn agree(a: &Seen, b: &Seen, what: &str) -> R {
    ensure!(
        a.digest == b.digest && a.n == b.n,
        "another result {what}: {:?} and {:?}",
        a.n,
        b.n
    );
    Ok(())
}

fn on_track<M: Manager + 'static>(m: M, w: &impl Work, fill: u8) -> Result<Seen, String> {
    track::reset();
    track::set_fill(fill);
    let mut s = Seen::default();
    let r = guarded(|| w.go(m, &mut s));
    track::set_fill(0x5C);
    if r.is_err() {
        track::reset();
    }
    r?;
    track::finish()?;
    Ok(s)
}

#[cfg(not(any(asan, miri)))]
fn on_ledger(f: impl FnOnce(&mut Seen), exact: bool) -> Result<(Seen, u64), String> {
    let mut s = Seen::default();
    if exact {
        galloc::start_exact(Some(0xE9));
    } else {
        galloc::start(Some(0x91));
    }
    let r = guarded(|| f(&mut s));
    let rep = galloc::stop();
    r?;
    ensure!(rep.errors.is_empty(), "{}", rep.errors[0]);
    ensure!(
        rep.live.is_empty(),
        "{} of {} blocks of the process never released, one of {:?}",
        rep.live.len(),
        rep.allocs,
        rep.live[0].1
    );
    Ok((s, rep.allocs))
}

#[cfg(any(asan, miri))]
fn on_ledger(f: impl FnOnce(&mut Seen), _: bool) -> Result<(Seen, u64), String> {
    let mut s = Seen::default();
    guarded(|| f(&mut s))?;
    Ok((s, 1))
}

thread_local! {
    static COUNTING: &'static Local = Box::leak(Box::default());
}

/// Does the work under all managers.
fn everywhere(c: &mut Case, w: &impl Work) -> R {
    if cfg!(miri) {
        // the interpreter sees bounds and uninitialized bytes by itself
        let mut s = Seen::default();
        w.go(GLOBAL, &mut s);
        for (i, n) in s.n.iter().enumerate() {
            c.ev(NAMES[i], *n);
        }
        return Ok(());
    }
    let a = on_track(Track, w, 0x5C).map_err(|e| format!("{e} (tracking manager)"))?;
    let b = if c.rng.bool() {
        on_track(Track, w, 0xF3)
    } else {
        on_track(TrackA, w, 0x01)
    };
    let b = b.map_err(|e| format!("{e} (tracking manager, other fill)"))?;
    agree(&a, &b, "if fresh memory holds other bytes")?;
    c.ev("results compared for two fills", 1);
    let exact = c.rng.bool();
    let (d, n) =
        on_ledger(|s| w.go(GLOBAL, s), exact).map_err(|e| format!("{e} (global manager)"))?;
    agree(&a, &d, "with the global manager")?;
    c.ev("blocks of the process balanced", n);
    if c.rng.chance(1, 4) {
        let l = COUNTING.with(|l| *l);
        let before = l.size();
        let mut s = Seen::default();
        guarded(|| w.go(l, &mut s))?;
        ensure!(
            l.size() == before,
            "{} bytes left in the counting manager",
            l.size() as i128 - before as i128
        );
        agree(&a, &s, "with the counting manager")?;
        c.ev("byte counts balanced", 1);
    }
    for (i, n) in a.n.iter().enumerate() {
        if *n > 0 {
            c.ev(NAMES[i], *n);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ values

fn use_value<D: Dealloc>(a: Any<D>, r: &mut Rng, s: &mut Seen) {
    let g = val::read(&a);
    s.mix(g.hash());
    s.ev("values read", 1);
    if g.tree_size() < 100_000 {
        match to_json(a.clone()) {
            Ok(t) => {
                s.str(&t);
                s.ev("JSON texts written", 1);
            }
            Err(_) => s.ev("values refused by a writer", 1),
        }
    }
    let cjs = r.bool();
    // the writer may hold the last reference
    let b = a.clone();
    if r.bool() {
        drop(a);
    }
    match to_djs(b, cjs) {
        Ok(t) => {
            s.str(&t);
            s.ev("modules written", 1);
        }
        Err(_) => s.ev("values refused by a writer", 1),
    }
}

fn refused(e: &ParseError, s: &mut Seen) {
    s.mix(1 + nanvm_monitor::sys::why(e) as u64);
    s.ev("texts refused", 1);
}

// ------------------------------------------------------------------ texts

struct Texts {
    seed: u64,
    texts: Vec<(String, How)>,
}

impl Work for Texts {
    fn go<M: Manager + 'static>(&self, m: M, s: &mut Seen) {
        let mut r = Rng::new(self.seed);
        let (io, _) = world();
        let mut cache = ModuleCache::default();
        let mut kept = vec![];
        for (t, how) in &self.texts {
            if r.chance(1, 3) {
                cache = ModuleCache::default();
            }
            match read_text(m, &io, &mut cache, "/m/root", t, *how) {
                Ok((d, a)) => {
                    s.mix(d as u64);
                    if r.chance(1, 4) {
                        kept.push(a.clone());
                        s.ev("values kept across runs", 1);
                    }
                    use_value(a, &mut r, s);
                }
                Err(e) => refused(&e, s),
            }
        }
        drop(cache);
        for a in kept {
            s.mix(val::read(&a).hash());
        }
    }
}

/// Cheap enough for an interpreter: no far exponents, no long runs of digits.
fn light(t: &str) -> bool {
    let b = t.as_bytes();
    let mut run = 0;
    for (i, x) in b.iter().enumerate() {
        run = if x.is_ascii_digit() { run + 1 } else { 0 };
        let far = run == 2 && i > 2 && matches!(b[i - 2], b'e' | b'E' | b'-' | b'+');
        if run > 20 || far {
            return false;
        }
    }
    b.len() < 400
}

fn some_text(r: &mut Rng, nodes: usize) -> String {
    loop {
        let t = any_text(r, nodes);
        if !cfg!(miri) || light(&t) {
            return t;
        }
    }
}

fn any_text(r: &mut Rng, nodes: usize) -> String {
    let g = if r.bool() {
        gen_graph(r, &Opt { nodes, ..DATA })
    } else {
        gen_shape(r, &DATA, nodes)
    };
    let st = style(r);
    let t = match r.below(5) {
        0 => {
            let g = gen_graph(r, &Opt { nodes, ..JSON });
            write_json(r, &g, STRICT)
        }
        1 => hostile_text(r),
        2 => {
            // with imports
            let specs = [
                "x",
                "./y.json",
                "./sub/z.d.mjs",
                "w.d.cjs",
                "bad",
                "missing",
            ];
            let mut g = g;
            let k: Vec<_> = (0..r.range(1, 3))
                .map(|_| (g.add(val::V::Null), specs[r.below(specs.len())].to_string()))
                .collect();
            let mut kids: Vec<_> = k.iter().map(|x| x.0).collect();
            kids.push(g.root);
            r.shuffle(&mut kids);
            g.root = g.add(val::V::Arr(kids));
            write_module(r, &g, g.root, st, &k, LOOSE)
        }
        _ => write_module(r, &g, g.root, st, &[], LOOSE),
    };
    match r.below(6) {
        0 => mutate(r, &t),
        1 => {
            // cut
            let mut n = r.below(t.len() + 1);
            while !t.is_char_boundary(n) {
                n -= 1;
            }
            t[..n].to_string()
        }
        2 => format!("{t}{}", soup(r)),
        _ => t,
    }
}

fn m03_texts(c: &mut Case) -> R {
    let nodes = if c.tier == Tier::Tiny {
        5
    } else {
        *c.rng.pick(&[4, 12, 40])
    };
    let n = if c.tier == Tier::Tiny {
        1
    } else {
        c.rng.range(1, 4)
    };
    let texts: Vec<(String, How)> = (0..n)
        .map(|_| {
            let t = some_text(&mut c.rng, nodes);
            let how = any_how(&mut c.rng);
            (t, how)
        })
        .collect();
    for t in &texts {
        c.sig(hash_str(&t.0));
    }
    c.sample(|| nanvm_monitor::text::clip(&texts[0].0));
    let seed = c.rng.u64();
    everywhere(c, &Texts { seed, texts }).map_err(|e| e.to_string())
}

/// All cuts of one text.
struct Cuts(Vec<String>);

impl Work for Cuts {
    fn go<M: Manager + 'static>(&self, m: M, s: &mut Seen) {
        let (io, _) = world();
        let mut cache = ModuleCache::default();
        for t in &self.0 {
            match read_text(m, &io, &mut cache, "/m/root", t, How::Lazy) {
                Ok((d, a)) => {
                    s.mix(d as u64 ^ val::read(&a).hash());
                    s.ev("values read", 1);
                }
                Err(e) => refused(&e, s),
            }
        }
    }
}

fn m03_cuts(c: &mut Case) -> R {
    let nodes = if c.tier == Tier::Tiny { 4 } else { 14 };
    let g = gen_graph(
        &mut c.rng,
        &Opt {
            nodes,
            share: 60,
            ..DATA
        },
    );
    let st = style(&mut c.rng);
    let mut t = write_module(&mut c.rng, &g, g.root, st, &[], LOOSE);
    if cfg!(miri) && !light(&t) {
        t = "const a=[\"x\",12n,-0.5]\nexport default {\"k\":a,\"l\":[a,null]}".to_string();
    }
    let most = if c.tier == Tier::Tiny { 3 } else { 150 };
    let mut ends: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
    if ends.len() > most {
        let from = c.rng.below(ends.len() - most);
        ends = ends[from..from + most].to_vec();
    }
    let tail = if c.rng.bool() {
        ""
    } else {
        ["]", "}", "\"", " a", ",", "@", "\n"][c.rng.below(7)]
    };
    let v = ends.iter().map(|&n| format!("{}{tail}", &t[..n])).collect();
    c.sig(hash_str(&t));
    everywhere(c, &Cuts(v))
}

/// Token streams that end early, are abandoned, or hold tokens in another order.
struct Streams {
    seed: u64,
    text: String,
}

impl Work for Streams {
    fn go<M: Manager + 'static>(&self, m: M, s: &mut Seen) {
        let mut r = Rng::new(self.seed);
        let (io, _) = world();
        let all = tokenize(m, self.text.clone());
        let n = all.len();
        s.ev("tokens", n as u64);
        for t in &all {
            s.str(&format!("{:?}", toks::tok(t)));
        }
        drop(all);
        for _ in 0..if cfg!(miri) { 1 } else { 3 } {
            let mut cache = ModuleCache::default();
            let mut v = tokenize(m, self.text.clone());
            let k = r.range(0, n);
            match r.below(3) {
                0 => {
                    v.drain(k..);
                }
                1 => {
                    v.drain(..k);
                }
                _ => {
                    if n > 1 {
                        let (a, b) = (r.below(n), r.below(n));
                        v.swap(a, b);
                    }
                }
            }
            let mut ctx = Context::new(m, &io, "/m/root".to_string(), &mut cache);
            match parse_with_tokens(&mut ctx, v.into_iter()) {
                Ok(p) => {
                    s.mix(val::read(&p.any).hash());
                    s.ev("values read", 1);
                }
                Err(e) => refused(&e, s),
            }
            s.ev("token streams cut", 1);
            // a lazy reader left in the middle, with and without its last token
            let mut i = TokenizerStateIterator::new(m, self.text.chars());
            let mut last = None;
            for _ in 0..r.range(0, n) {
                last = i.next();
            }
            if r.bool() {
                drop(i);
            }
            if let Some(t) = &last {
                s.str(&format!("{:?}", toks::tok(t)));
            }
            s.ev("token streams abandoned", 1);
        }
    }
}

fn m03_streams(c: &mut Case) -> R {
    let nodes = if c.tier == Tier::Tiny { 3 } else { 12 };
    let text = some_text(&mut c.rng, nodes);
    let seed = c.rng.u64();
    c.sig(hash_str(&text));
    everywhere(c, &Streams { seed, text })
}

/// Values built in memory (also those no text gives) and written.
struct Built {
    seed: u64,
    g: G,
}

impl Work for Built {
    fn go<M: Manager + 'static>(&self, m: M, s: &mut Seen) {
        let mut r = Rng::new(self.seed);
        let a = val::build(m, &self.g);
        use_value(a, &mut r, s);
    }
}

fn m03_written(c: &mut Case) -> R {
    let nodes = if c.tier == Tier::Tiny {
        5
    } else {
        *c.rng.pick(&[6, 30, 100])
    };
    let nonfinite = c.rng.chance(1, 6);
    let g = if c.rng.bool() {
        gen_graph(
            &mut c.rng,
            &Opt {
                nodes,
                surrogates: true,
                share: 40,
                nonfinite,
                proto: true,
                ..DATA
            },
        )
    } else {
        gen_shape(
            &mut c.rng,
            &Opt {
                surrogates: true,
                ..DATA
            },
            nodes.min(30),
        )
    };
    c.sig(g.hash());
    let seed = c.rng.u64();
    everywhere(c, &Built { seed, g })
}

// ------------------------------------------------------------------ module trees

struct Trees {
    seed: u64,
    made: Made,
    broken: Vec<(String, Vec<u8>)>,
}

impl Work for Trees {
    fn go<M: Manager + 'static>(&self, m: M, s: &mut Seen) {
        let mut r = Rng::new(self.seed);
        let tree = &self.made.tree;
        let io = tree.io();
        for (p, b) in &self.broken {
            io.put(p, b);
        }
        let mut cache = ModuleCache::default();
        let mut kept = vec![];
        for _ in 0..r.range(1, 4) {
            let root = r.below(self.made.asked.len());
            if r.chance(1, 4) {
                cache = ModuleCache::default();
            }
            let fault = r.chance(1, 2).then(|| {
                let v = tree.reach(root);
                let p = tree.modules[*r.pick(&v)].path.clone();
                match r.below(3) {
                    0 => Fault::Open(p, ErrorKind::PermissionDenied),
                    1 => Fault::Read(p, r.below(40)),
                    _ => Fault::Nth(r.below(20)),
                }
            });
            if fault.is_some() {
                s.ev("runs with a failing file", 1);
            }
            io.0.borrow_mut().ops = 0;
            io.0.borrow_mut().faults = fault.into_iter().collect();
            io.0.borrow_mut().chunk = *r.pick(&[0, 0, 1, 9]);
            s.ev("runs over a module tree", 1);
            match read_file(m, &io, &mut cache, &self.made.asked[root]) {
                Ok((d, a)) => {
                    s.mix(d as u64);
                    if r.bool() {
                        kept.push(a.clone());
                        s.ev("values kept across runs", 1);
                    }
                    use_value(a, &mut r, s);
                }
                Err(e) => {
                    if let ParseError::CircularDependency = e {
                        s.ev("circular imports refused", 1);
                    }
                    refused(&e, s)
                }
            }
        }
        if r.bool() {
            drop(cache);
        }
        for a in &kept {
            s.mix(val::read(a).hash());
        }
    }
}

fn a_tree(c: &mut Case) -> (Made, Vec<(String, Vec<u8>)>) {
    let n = if c.tier == Tier::Tiny {
        3
    } else {
        *c.rng.pick(&[2, 5, 9])
    };
    let cycles = c.rng.chance(1, 3);
    let nodes = if c.tier == Tier::Tiny { 3 } else { 7 };
    let made = loop {
        let made = gen_tree(
            &mut c.rng,
            &Shape {
                modules: n,
                nodes,
                cycles,
                node: None,
                plain: false,
            },
        );
        if !cfg!(miri) || made.tree.modules.iter().all(|m| light(&m.text)) {
            break made;
        }
    };
    let mut broken = vec![];
    for m in &made.tree.modules {
        if c.rng.chance(1, 8) {
            let t = mutate(&mut c.rng, &m.text);
            let mut b = t.into_bytes();
            if c.rng.chance(1, 4) {
                let at = c.rng.below(b.len() + 1);
                b.splice(at..at, [0xFF]);
            }
            broken.push((m.path.clone(), b));
        }
    }
    c.sig(hash_str(&made.tree.show()));
    (made, broken)
}

fn m03_trees(c: &mut Case) -> R {
    let (made, broken) = a_tree(c);
    c.sample(|| made.tree.show());
    let show = made.tree.show();
    let seed = c.rng.u64();
    everywhere(c, &Trees { seed, made, broken }).map_err(|e| format!("{e}; {show}"))
}

/// The whole program.
fn m03_program(c: &mut Case) -> R {
    let (made, broken) = a_tree(c);
    let seed = c.rng.u64();
    let work = |s: &mut Seen| {
        let mut r = Rng::new(seed);
        let io = made.tree.io();
        for (p, b) in &broken {
            io.put(p, b);
        }
        for _ in 0..r.range(1, 3) {
            let out = *r.pick(&["/o.json", "/o.d.cjs", "/o.d.mjs", "/o.txt"]);
            let mut a: Vec<String> = vec!["nanvm".into(), r.pick(&made.asked).clone(), out.into()];
            if r.chance(1, 10) {
                a.truncate(r.below(3));
            }
            {
                let mut st = io.0.borrow_mut();
                st.args = a;
                st.ops = 0;
                st.chunk = *r.pick(&[0, 1, 5]);
                st.faults.clear();
                if r.bool() {
                    st.faults.push(if r.bool() {
                        Fault::Nth(r.below(30))
                    } else {
                        Fault::Write(out.into(), r.below(30))
                    });
                    s.ev("programs run with a fault", 1);
                }
            }
            s.ev("programs run", 1);
            match app::run(&io) {
                Ok(()) => s.mix(hash_bytes(&io.get(out).unwrap_or_default())),
                Err(e) => s.str(&e.to_string()),
            }
        }
    };
    let e = |e: String| format!("{e}; {}", made.tree.show());
    let (a, n) = on_ledger(work, true).map_err(e)?;
    let (b, _) = on_ledger(work, false).map_err(e)?;
    agree(&a, &b, "if fresh memory holds other bytes").map_err(e)?;
    c.ev("blocks of the process balanced", n);
    for (i, n) in a.n.iter().enumerate() {
        if *n > 0 {
            c.ev(NAMES[i], *n);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ numbers

struct Numbers {
    seed: u64,
    width: usize,
    steps: usize,
}

fn make<M: Manager>(m: M, v: &Int) -> JsBigintMutRef<M::Dealloc> {
    jb::new_bigint(
        m,
        if v.neg {
            Sign::Negative
        } else {
            Sign::Positive
        },
        v.n.words(),
    )
}

fn unsigned(v: &Int) -> BigUint {
    let mut b = BigUint { value: v.n.words() };
    b.normalize();
    b
}

impl Work for Numbers {
    fn go<M: Manager + 'static>(&self, m: M, s: &mut Seen) {
        let mut r = Rng::new(self.seed);
        let mut pool = vec![];
        let mut last: Option<Int> = None;
        for _ in 0..3 {
            let v = match &last {
                Some(v) if r.bool() => Int::new(r.bool(), gen_related(&mut r, &v.n, self.width)),
                _ => gen_int(&mut r, self.width),
            };
            pool.push(make(m, &v));
            last = Some(v);
        }
        for _ in 0..self.steps {
            let (i, j) = (r.below(pool.len()), r.below(pool.len()));
            let (x, y) = (pool[i].deref(), pool[j].deref());
            let wide = x.items().len() > 2 * self.width + 4;
            let v = match r.below(15) {
                0 => jb::add(m, x, y),
                1 => jb::sub(m, x, y),
                2 if !wide => jb::mul(m, x, y),
                3 | 4 if !jb::is_zero(y) => {
                    let (q, rem) = jb::div_mod(m, x, y);
                    s.mix(mix_items(rem.deref().items()));
                    if r.bool() {
                        q
                    } else {
                        rem
                    }
                }
                5 => jb::and(m, x, y),
                6 => jb::or(m, x, y),
                7 => jb::xor(m, x, y),
                8 => jb::not(m, x),
                9 => jb::negative(m, x),
                10 if !wide => jb::shl_on_u64(m, x, r.size(200) as u64),
                11 => jb::shr_on_u64(m, x, r.size(400) as u64),
                12 if !wide => {
                    let k = jb::from_u64(
                        m,
                        if r.bool() {
                            Sign::Positive
                        } else {
                            Sign::Negative
                        },
                        r.size(150) as u64,
                    );
                    if r.bool() {
                        jb::shl(m, x, k.deref())
                    } else {
                        jb::shr(m, x, k.deref())
                    }
                }
                13 if x.items().len() < 3 => {
                    let e = r.size(9) as u64;
                    if r.bool() {
                        jb::pow_u64(m, x, e)
                    } else {
                        jb::pow(m, x, jb::from_u64(m, Sign::Positive, e).deref())
                    }
                }
                _ => {
                    s.mix(x.compare(y) as i8 as u64 ^ (jb::equals(x, y) as u64) << 9);
                    jb::zero(m)
                }
            };
            s.mix(mix_items(v.deref().items()) ^ matches!(v.deref().sign(), Sign::Negative) as u64);
            s.ev("big integer operations", 1);
            if r.bool() {
                let k = r.below(pool.len());
                pool[k] = v;
            } else if pool.len() < 6 {
                pool.push(v);
            }
        }
        // the others
        let (a, b) = (gen_int(&mut r, self.width), gen_int(&mut r, self.width));
        let (x, y) = (unsigned(&a), unsigned(&b));
        for v in [&x + &y, &x - &y, &x * &y] {
            s.mix(mix_items(&v.value));
        }
        let (p, q) = (
            BigInt::new(sign(a.neg && !x.is_zero()), x),
            BigInt::new(sign(b.neg && !y.is_zero()), y),
        );
        for v in [&p + &q, &p * &q] {
            s.mix(mix_items(&v.value.value));
        }
        if !q.is_zero() {
            let (d, e) = p.div_mod(&q);
            s.mix(mix_items(&d.value.value) ^ mix_items(&e.value.value));
        }
        s.ev("big integer operations", 6);
        // decimals to doubles
        let g = Int::new(false, gen_int(&mut r, self.width.min(8)).n);
        let exp = r.range(0, 700) as i64 - 350;
        let f = BigFloat::<10, M> {
            manager: m,
            significand: make(m, &g),
            sign: if r.bool() {
                Sign::Negative
            } else {
                Sign::Positive
            },
            exp,
            non_zero_reminder: false,
        };
        s.mix(bigfloat_to_f64(f).to_bits());
        s.ev("number conversions", 1);
    }
}

fn sign(neg: bool) -> nanvm_lib::big_numbers::big_int::Sign {
    use nanvm_lib::big_numbers::big_int::Sign;
    if neg {
        Sign::Negative
    } else {
        Sign::Positive
    }
}

fn mix_items(v: &[u64]) -> u64 {
    v.iter().fold(v.len() as u64, |a, x| mix(a ^ x))
}

fn m03_numbers(c: &mut Case) -> R {
    let width = if c.tier == Tier::Tiny {
        2
    } else {
        *c.rng.pick(&[2, 5, 20])
    };
    let steps = if c.tier == Tier::Tiny {
        12
    } else {
        c.rng.range(5, 60)
    };
    let seed = c.rng.u64();
    c.sig(seed);
    everywhere(c, &Numbers { seed, width, steps })
}

fn main() {
    let a = args();
    let kinds: &[Kind] = match a.property.as_str() {
        "NONE" => {
            println!("READY");
            return;
        }
        "M03" => &[
            kind!(m03_texts, 16_000, 1_000_000, 8),
            kind!(m03_cuts, 1_600, 60_000, 8),
            kind!(m03_streams, 5_000, 300_000, 8),
            kind!(m03_written, 6_000, 300_000, 80),
            kind!(m03_trees, 10_000, 500_000, 8),
            kind!(m03_program, 8_000, 300_000, 0),
            kind!(m03_numbers, 16_000, 1_000_000, 96),
        ],
        p => panic!("unknown property {p}"),
    };
    drive(&a, kinds);
}

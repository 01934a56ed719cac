//! R01: independent runs in several threads at the same time.
use nanvm_lib::{
    app,
    big_numbers::{
        big_float::BigFloat,
        big_int::{BigInt, Sign as BSign},
        big_uint::BigUint,
    },
    js::js_bigint::{self as jb, new_bigint, Sign},
    mem::{
        global::GLOBAL,
        manager::{Dealloc, Manager},
    },
    parser::shared::ModuleCache,
    range_map::{merge_list, Entry, RangeMap, Union},
    serializer::{
        to_djs::{to_djs, WriteDjs},
        to_json::{to_json, WriteJson},
    },
    static_ref_default::StaticRefDefault,
    tokenizer::{bigfloat_to_f64, TokenizerStateIterator},
};
use nanvm_monitor::{
    ensure,
    hostile::{hostile_text, world},
    kind,
    run::{args, drive, guarded, hash_str, install_panic_hook, Case, Kind, Rng, Tier, R},
    sys::{read_text, How},
    text::{clip, write_json, write_module, Style, LOOSE},
    toks::{eager, tok},
    track::{self, Track, TrackA},
    tree::{gen_tree, Made, Shape},
    val::{build, gen_graph, Opt, DATA, JSON},
};
use std::{
    fmt::{self, Write as _},
    process::{Command, Stdio},
    sync::Barrier,
    thread,
};

const MIRI: bool = cfg!(miri);

/// Gives way to the other threads now and then.
#[derive(Clone)]
struct Jitter(Rng, usize);

impl Jitter {
    fn step(&mut self) {
        if self.1 > 0 && self.0.below(self.1) == 0 {
            thread::yield_now();
        }
    }
}

struct Chars<'a>(std::str::Chars<'a>, Jitter);

impl Iterator for Chars<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.1.step();
        self.0.next()
    }
}

struct Sink(String, Jitter);

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.1.step();
        self.0.push_str(s);
        Ok(())
    }
}

/// What one thread has to do.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum What {
    Tokens,
    Read,
    Convert,
    Write,
    Big,
    Literal,
    Ranges,
}

const ALL: [What; 7] = [
    What::Tokens,
    What::Read,
    What::Convert,
    What::Write,
    What::Big,
    What::Literal,
    What::Ranges,
];

#[derive(Clone, Copy, Debug)]
struct Job {
    what: What,
    seed: u64,
    size: usize,
}

fn some_text(r: &mut Rng, size: usize) -> String {
    if MIRI {
        return (*r.pick(&[
            "{\"a\":[1,true]}",
            "const a=[1]\nexport default [a,a]",
            "module.exports={b:-2n}",
            "[2.5e1,\"\\u0041\"]",
        ]))
        .into();
    }
    let o = Opt {
        nodes: size,
        ..DATA
    };
    match r.below(4) {
        0 => hostile_text(r),
        1 => {
            let g = gen_graph(
                r,
                &Opt {
                    nodes: size,
                    ..JSON
                },
            );
            write_json(r, &g, LOOSE)
        }
        k => {
            let g = gen_graph(r, &o);
            let style = if k == 2 { Style::Mjs } else { Style::Cjs };
            write_module(r, &g, g.root, style, &[], LOOSE)
        }
    }
}

/// No leading zeros: the form in which the system keeps all its numbers.
fn digits(r: &mut Rng, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (0..r.range(1, n))
        .map(|_| *r.pick(&[0, 1, u64::MAX, 1 << 63, 12345, 0xDEAD_BEEF_0BAD_F00D]))
        .collect();
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

fn show<D: Dealloc>(b: &jb::JsBigintMutRef<D>) -> String {
    format!("{:?} {:?}", b.sign() == Sign::Negative, b.items())
}

fn with<M: Manager + 'static>(m: M, j: &Job, y: &mut Jitter) -> String {
    let r = &mut Rng::new(j.seed);
    match j.what {
        What::Tokens => {
            let t = some_text(r, j.size);
            if r.bool() {
                format!("{:?}", eager(m, &t))
            } else {
                let v: Vec<_> = TokenizerStateIterator::new(m, Chars(t.chars(), y.clone()))
                    .map(|x| tok(&x))
                    .collect();
                format!("{v:?}")
            }
        }
        What::Read => {
            let t = some_text(r, j.size);
            let how = *r.pick(&[How::File, How::Eager, How::Lazy]);
            let (io, _) = world();
            let mut cache = ModuleCache::default();
            match read_text(m, &io, &mut cache, "/m/root", &t, how) {
                Ok((d, a)) => {
                    y.step();
                    format!(
                        "{d:?} {:?} {:?}",
                        to_djs(a.clone(), r.bool()),
                        to_json(a).ok()
                    )
                }
                Err(e) => format!("{e:?}"),
            }
        }
        What::Write => {
            let g = gen_graph(
                r,
                &Opt {
                    nodes: j.size,
                    ..DATA
                },
            );
            let a = build(m, &g);
            let mut s = Sink(String::new(), y.clone());
            let ok = match r.below(3) {
                0 => s.write_json(a),
                1 => s.write_djs(a, true),
                _ => s.write_djs(a, false),
            };
            format!("{ok:?} {}", s.0)
        }
        What::Big => {
            let n = 1 + j.size / 8;
            let one = |r: &mut Rng| {
                let v = digits(r, n);
                if v.is_empty() {
                    return jb::zero(m);
                }
                new_bigint(m, *r.pick(&[Sign::Positive, Sign::Negative]), v)
            };
            let (x, z) = (one(r), one(r));
            let mut o = String::new();
            for i in 0..7 {
                y.step();
                o.push_str(&show(&match i {
                    0 => jb::add(m, &x, &z),
                    1 => jb::sub(m, &x, &z),
                    2 => jb::mul(m, &x, &z),
                    3 => jb::and(m, &x, &z),
                    4 => jb::or(m, &x, &z),
                    5 => jb::xor(m, &x, &z),
                    _ if jb::is_zero(&z) => jb::negative(m, &x),
                    _ => jb::div_mod(m, &x, &z).0,
                }));
            }
            let (u, w) = (digits(r, n), digits(r, n));
            let f = |v: Vec<u64>, negative: bool| {
                let sign = if negative && !v.is_empty() {
                    BSign::Negative
                } else {
                    BSign::Positive
                };
                BigInt::new(sign, BigUint { value: v })
            };
            let (u, w) = (f(u, r.bool()), f(w, r.bool()));
            write!(o, "{:?} {:?}", &u + &w, &u * &w).unwrap();
            if !w.is_zero() {
                write!(o, "{:?}", u.div_mod(&w)).unwrap();
            }
            o
        }
        What::Literal => {
            let n = 1 + j.size;
            let mut t: String = (0..r.range(1, n))
                .map(|_| (b'0' + r.below(10) as u8) as char)
                .collect();
            t.insert(0, '1');
            let t = format!("{t}.{}e{}", r.below(1000), r.range(0, 660) as i64 - 330);
            let v: Vec<_> = TokenizerStateIterator::new(m, Chars(t.chars(), y.clone()))
                .map(|x| tok(&x))
                .collect();
            let f = BigFloat::<10, M> {
                manager: m,
                significand: jb::from_u64(m, Sign::Positive, r.u64() | 1),
                sign: Sign::Negative,
                exp: r.range(0, 200) as i64 - 100,
                non_zero_reminder: r.bool(),
            };
            y.step();
            format!("{t} {v:?} {:x}", bigfloat_to_f64(f).to_bits())
        }
        What::Convert | What::Ranges => unreachable!(),
    }
}

#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct N(u32);

impl Union for N {
    fn union(self, other: Self) -> Self {
        N(self.0 | other.0)
    }
}

impl StaticRefDefault for N {
    const STATIC_REF_DEFAULT: &'static N = &N(0);
}

fn convert(j: &Job) -> String {
    let r = &mut Rng::new(j.seed);
    let shape = Shape {
        modules: r.range(1, 1 + j.size / 6),
        nodes: 1 + j.size / 3,
        cycles: r.chance(1, 5),
        node: None,
        plain: false,
    };
    let Made { tree, asked } = gen_tree(r, &shape);
    let io = tree.io();
    let out = ["out.json", "out.d.cjs", "out.d.mjs"][r.below(3)];
    io.0.borrow_mut().args = vec!["nanvm".into(), asked[0].clone(), out.into()];
    match app::run(&io) {
        Ok(()) => format!(
            "{:?}",
            io.get(out)
                .map(|b| String::from_utf8_lossy(&b).into_owned())
        ),
        Err(e) => format!("{e}"),
    }
}

fn ranges(j: &Job, y: &mut Jitter) -> String {
    let r = &mut Rng::new(j.seed);
    let all: Vec<RangeMap<u32, N>> = (0..r.range(1, 1 + j.size))
        .map(|i| {
            let mut keys: Vec<u32> = (0..r.range(1, 6)).map(|_| r.below(250) as u32).collect();
            keys.sort();
            keys.dedup();
            y.step();
            let list = keys
                .into_iter()
                .map(|key| Entry {
                    key,
                    value: N(if r.chance(1, 3) { 0 } else { 1 << (i % 31) }),
                })
                .collect();
            RangeMap { list }
        })
        .collect();
    let m = merge_list(all);
    let mut s = String::new();
    for k in (0..260).step_by(if MIRI { 20 } else { 1 }) {
        write!(s, "{:?} ", m.get(k)).unwrap();
    }
    s
}

fn perform(j: &Job, jitter: usize) -> Result<String, String> {
    let mut y = Jitter(Rng::new(j.seed ^ 7), jitter);
    let r = guarded(|| match (j.what, j.seed % 4) {
        (What::Convert, _) => convert(j),
        (What::Ranges, _) => ranges(j, &mut y),
        (_, 0) => {
            track::reset();
            with(Track, j, &mut y)
        }
        (_, 1) => {
            track::reset();
            with(TrackA, j, &mut y)
        }
        _ => with(GLOBAL, j, &mut y),
    })?;
    if j.seed % 4 < 2 && !matches!(j.what, What::Convert | What::Ranges) {
        track::finish()?;
    }
    Ok(r)
}

type Done = Vec<Result<String, String>>;

fn in_threads(all: &[Vec<Job>], jitter: usize) -> Vec<Done> {
    let start = Barrier::new(all.len());
    thread::scope(|s| {
        let hs: Vec<_> = all
            .iter()
            .map(|jobs| {
                let start = &start;
                s.spawn(move || {
                    if !MIRI {
                        start.wait();
                    }
                    jobs.iter().map(|j| perform(j, jitter)).collect::<Done>()
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| {
                h.join()
                    .unwrap_or_else(|_| vec![Err("the thread died".into())])
            })
            .collect()
    })
}

fn one_by_one(all: &[Vec<Job>]) -> Vec<Done> {
    all.iter()
        .map(|v| v.iter().map(|j| perform(j, 0)).collect())
        .collect()
}

fn plan(r: &mut Rng, tiny: bool) -> Vec<Vec<Job>> {
    let n = if MIRI { 2 } else { r.range(2, 4) };
    let size = if tiny { 2 } else { *r.pick(&[4, 12, 40]) };
    let most = if tiny { 1 } else { 6 };
    // all of one kind, all the same, or anything
    let theme = r.chance(1, 2).then(|| *r.pick(&ALL));
    let seed = r.chance(1, 4).then(|| r.u64());
    (0..n)
        .map(|_| {
            (0..r.range(1, most))
                .map(|_| Job {
                    what: theme.unwrap_or_else(|| *r.pick(&ALL)),
                    seed: seed.unwrap_or_else(|| r.u64()),
                    size,
                })
                .collect()
        })
        .collect()
}

fn compare(all: &[Vec<Job>], together: &[Done], alone: &[Done]) -> R {
    for (i, jobs) in all.iter().enumerate() {
        for (k, j) in jobs.iter().enumerate() {
            let a = alone[i].get(k).cloned();
            let t = together[i].get(k).cloned();
            ensure!(
                matches!(a, Some(Ok(_))) && a == t,
                "{j:?} gives {} with other threads, alone {}",
                clip(&format!("{t:?}")),
                clip(&format!("{a:?}"))
            );
        }
    }
    Ok(())
}

/// The same work in threads and one after the other.
fn r01_runs(c: &mut Case) -> R {
    let all = plan(&mut c.rng, c.tier == Tier::Tiny);
    let jitter = *c.rng.pick(&[0, 0, 3, 20]);
    let (together, alone) = if c.rng.bool() {
        let t = in_threads(&all, jitter);
        (t, one_by_one(&all))
    } else {
        let a = one_by_one(&all);
        (in_threads(&all, jitter), a)
    };
    compare(&all, &together, &alone)?;
    c.ev("threads", all.len() as u64);
    for j in all.iter().flatten() {
        let n = match j.what {
            What::Tokens => "texts split into tokens",
            What::Read => "texts read",
            What::Convert => "conversions",
            What::Write => "values written",
            What::Big => "big integers computed",
            What::Literal => "literals rounded",
            What::Ranges => "range maps merged",
        };
        c.ev(n, 1);
    }
    c.sample(|| format!("{all:?}"));
    c.sig(hash_str(&format!("{all:?}")));
    Ok(())
}

/// Each thread does its piece of work again and again, close to the others.
fn r01_storm(c: &mut Case) -> R {
    let r = &mut c.rng;
    let what = *r.pick(&ALL);
    let size = *r.pick(&[2, 6, 12, 40]);
    let times = if what == What::Convert { 20 } else { 60 };
    let all: Vec<Vec<Job>> = (0..r.range(2, 6))
        .map(|_| {
            let seed = r.u64();
            vec![Job { what, seed, size }; times]
        })
        .collect();
    let together = in_threads(&all, 0);
    let once: Vec<Vec<Job>> = all.iter().map(|v| v[..1].to_vec()).collect();
    let alone: Vec<Done> = one_by_one(&once)
        .into_iter()
        .map(|v| vec![v[0].clone(); times])
        .collect();
    compare(&all, &together, &alone)?;
    c.ev("repetitions in storms", (all.len() * times) as u64);
    c.sig(hash_str(&format!("{:?}", once)));
    Ok(())
}

/// The first use of everything, the same work in two threads at a time.
fn r01_first(c: &mut Case) -> R {
    let j = Job {
        what: ALL[c.index as usize % ALL.len()],
        seed: c.rng.u64(),
        size: 2,
    };
    let all = [vec![j], vec![j]];
    let t = in_threads(&all, 3);
    ensure!(
        t[0] == t[1] && t[0][0].is_ok(),
        "{j:?} gives {} and {} in two threads",
        clip(&format!("{:?}", t[0])),
        clip(&format!("{:?}", t[1]))
    );
    c.ev("first uses in two threads", 1);
    c.sig(hash_str(&format!("{all:?}")));
    Ok(())
}

/// In a process of its own: the very first use of everything is in several threads at once.
fn r01_fresh(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let o = Command::new(std::env::current_exe().unwrap())
        .args(["CHILD", &seed.to_string()])
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let said = format!(
        "{} {}",
        String::from_utf8_lossy(&o.stdout),
        String::from_utf8_lossy(&o.stderr)
    );
    ensure!(
        o.status.success() && said.trim() == "same",
        "a fresh process ({seed}): {}: {}",
        o.status,
        clip(&said)
    );
    c.ev("fresh processes", 1);
    c.sig(seed);
    Ok(())
}

fn child(seed: u64) {
    install_panic_hook();
    let r = &mut Rng::new(seed);
    let mut all = plan(r, false);
    for _ in 0..4 {
        all.extend(plan(r, false));
    }
    let together = in_threads(&all, 0);
    match compare(&all, &together, &one_by_one(&all)) {
        Ok(()) => println!("same"),
        Err(e) => println!("{e}"),
    }
}

fn main() {
    let a = args();
    let kinds: &[Kind] = match a.property.as_str() {
        "NONE" => {
            println!("READY");
            return;
        }
        "CHILD" => return child(a.extra[0].parse().unwrap()),
        "R01" => &[
            kind!(r01_first, 7, 7, 7),
            kind!(r01_runs, 6_000, 300_000, 0),
            kind!(r01_storm, 1_600, 80_000, 0),
            kind!(r01_fresh, 160, 3_000, 0),
        ],
        p => panic!("unknown property {p}"),
    };
    drive(&a, kinds);
}

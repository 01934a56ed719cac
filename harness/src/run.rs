//! The driver: runs numbered cases, records what was observed, keeps a journal of the running
//! case so that a supervisor can name the case that killed the process.
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    fs::File,
    io::Write as _,
    os::unix::fs::FileExt,
    panic::{catch_unwind, AssertUnwindSafe},
    time::{Duration, Instant},
};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    /// A handful of small cases: for interpreters.
    Tiny,
}

// ---------------------------------------------------------------- random

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x1234_5678_9ABC_DEF1))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// Uniform in `0..n` (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in `a..=b`.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Small values often, large ones rarely.
    pub fn size(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        let bits = usize::BITS - max.leading_zeros();
        let b = self.below(bits as usize + 1);
        let m = if b >= 63 {
            max
        } else {
            ((1usize << b) - 1).min(max)
        };
        self.range(0, m)
    }
    /// A length around 2^16 (mostly) or beyond it.
    pub fn vast(&mut self) -> usize {
        match self.below(8) {
            0..=5 => *self.pick(&[65_534, 65_535, 65_536, 65_537, 65_538]),
            6 => self.range(65_539, 80_000),
            _ => *self.pick(&[131_071, 131_072, 131_073]),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(true) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::galloc::off(|| {
            let msg = match info.payload().downcast_ref::<&str>() {
                Some(s) => s.to_string(),
                None => match info.payload().downcast_ref::<String>() {
                    Some(s) => s.clone(),
                    None => "panic".to_string(),
                },
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        })
    }));
}

/// Runs `f`, turns a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

// ---------------------------------------------------------------- cases

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub events: BTreeMap<&'static str, u64>,
    pub kinds: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, u64, String)>,
    pub known: BTreeMap<String, (u64, String)>,
    node: Option<(std::io::BufWriter<File>, usize)>,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub seed: u64,
    pub index: u64,
    pub tier: Tier,
    pub out_dir: &'a str,
    sig: Option<u64>,
    want_sample: bool,
    kind: &'static str,
    shard: u64,
    stats: &'a mut Stats,
}

impl Case<'_> {
    /// Counts an observed event.
    pub fn ev(&mut self, name: &'static str, n: u64) {
        *self.stats.events.entry(name).or_insert(0) += n;
    }
    /// Declares the case non-trivial, with a signature of what it was.
    pub fn sig(&mut self, h: u64) {
        self.sig = Some(mix(h ^ self.sig.unwrap_or(0)));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.stats.samples.push(s);
        }
    }
    /// Hands a text to the JavaScript engine: it must mean this value there, too.
    /// The engine runs after the cases, in a process of its own (tools/oracle.mjs).
    pub fn node(&mut self, form: &str, text: &str, canon: &str) {
        self.node_known(form, text, canon, "")
    }
    /// A difference is the recorded finding of that name.
    pub fn node_known(&mut self, form: &str, text: &str, canon: &str, known: &str) {
        const MOST: usize = 60_000_000;
        if self.tier == Tier::Tiny || text.len() > 200_000 {
            return;
        }
        let (out, shard) = (self.out_dir, self.shard);
        let w = self.stats.node.get_or_insert_with(|| {
            let f = File::create(format!("{out}/{shard}.node.jsonl")).unwrap();
            (std::io::BufWriter::new(f), 0)
        });
        let line = format!(
            "{{\"kind\":\"{}\",\"index\":{},\"seed\":\"{}\",\"form\":\"{form}\",\"known\":\"{known}\",\"text\":{},\"canon\":\"{canon}\"}}\n",
            self.kind,
            self.index,
            self.seed,
            json_str(text)
        );
        w.1 += line.len();
        if w.1 < MOST {
            w.0.write_all(line.as_bytes()).unwrap();
            self.ev("texts for the JavaScript engine", 1);
        }
    }
    /// A failure which a recorded finding may explain; the supervisor decides.
    pub fn known(&mut self, id: &str, detail: impl FnOnce() -> String) {
        let e = self
            .stats
            .known
            .entry(id.to_string())
            .or_insert_with(|| (0, detail()));
        e.0 += 1;
    }
}

pub struct Kind {
    pub name: &'static str,
    /// Number of cases in a tier.
    pub n: fn(Tier) -> u64,
    pub run: fn(&mut Case) -> R,
}

pub fn by_tier(quick: u64, thorough: u64, tiny: u64) -> impl Fn(Tier) -> u64 {
    move |t| match t {
        Tier::Quick => quick,
        Tier::Thorough => thorough,
        Tier::Tiny => tiny,
    }
}

#[macro_export]
macro_rules! kind {
    ($f:ident, $q:expr, $t:expr, $y:expr) => {
        $crate::run::Kind {
            name: stringify!($f),
            n: |t| match t {
                $crate::run::Tier::Quick => $q,
                $crate::run::Tier::Thorough => $t,
                $crate::run::Tier::Tiny => $y,
            },
            run: $f,
        }
    };
}

/// Every length up to 130, and the neighbours of the powers of two and ten beyond: 165 lengths.
pub const SIZES: usize = 165;
pub fn size_at(i: usize) -> usize {
    let mut v: Vec<usize> = (0..=130).collect();
    for k in 8..=16 {
        v.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend([500, 999, 1000, 1001, 9999, 10_000, 10_001]);
    assert_eq!(v.len(), SIZES);
    v[i % SIZES]
}

impl Case<'_> {
    /// The dimension and the length of a case of a sweep over all of them.
    pub fn sweep(&self, dims: usize) -> (usize, usize) {
        let k = (self.index as usize).wrapping_mul(10_007) % (dims * SIZES);
        (k / SIZES, size_at(k % SIZES))
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                write!(r, "\\u{:04x}", c as u32).unwrap()
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub struct Args {
    pub property: String,
    pub seed: u64,
    pub tier: Tier,
    pub shard: u64,
    pub shards: u64,
    pub out: String,
    pub replay: Option<(String, u64, u64)>,
    pub only: Option<String>,
    pub scale: f64,
    pub extra: Vec<String>,
}

pub fn args() -> Args {
    let mut a = Args {
        property: String::new(),
        seed: 1,
        tier: Tier::Quick,
        shard: 0,
        shards: 1,
        out: ".".into(),
        replay: None,
        only: None,
        scale: 1.0,
        extra: Vec::new(),
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("value");
        match x.as_str() {
            "--seed" => a.seed = v().parse().unwrap(),
            "--tier" => {
                a.tier = match v().as_str() {
                    "thorough" => Tier::Thorough,
                    "tiny" => Tier::Tiny,
                    _ => Tier::Quick,
                }
            }
            "--shard" => a.shard = v().parse().unwrap(),
            "--shards" => a.shards = v().parse().unwrap(),
            "--out" => a.out = v(),
            "--only" => a.only = Some(v()),
            "--scale" => a.scale = v().parse().unwrap(),
            "--replay" => {
                let k = v();
                let i = v().parse().unwrap();
                let s = v().parse().unwrap();
                a.replay = Some((k, i, s));
            }
            _ if a.property.is_empty() => a.property = x,
            _ => a.extra.push(x),
        }
    }
    a
}

pub fn case_seed(seed: u64, kind: &str, index: u64) -> u64 {
    mix(mix(seed ^ hash_str(kind)) ^ index)
}

/// Runs all cases of this shard. Results go to `<out>/<shard>.json`.
pub fn drive(a: &Args, kinds: &[Kind]) {
    install_panic_hook();
    let out = a.out.clone();
    // the interpreter has no file system
    let files = a.tier != Tier::Tiny;
    let journal = if files {
        std::fs::create_dir_all(&out).unwrap();
        Some(File::create(format!("{out}/{}.journal", a.shard)).unwrap())
    } else {
        None
    };
    let mut stats = Stats::default();
    let limit = match a.tier {
        Tier::Quick => Duration::from_secs(240),
        _ => Duration::from_secs(3600),
    };
    let start = Instant::now();
    let mut cut = false;
    for kind in kinds {
        if let Some(o) = &a.only {
            if o != kind.name {
                continue;
            }
        }
        let (from, to) = match &a.replay {
            Some((k, i, _)) if k == kind.name => (*i, *i + 1),
            Some(_) => continue,
            None => (0, (((kind.n)(a.tier) as f64) * a.scale).ceil() as u64),
        };
        let mut n = 0u64;
        for index in from..to {
            if a.replay.is_none() && index % a.shards != a.shard {
                continue;
            }
            if files && a.replay.is_none() && start.elapsed() > limit {
                cut = true;
                break;
            }
            let seed = match &a.replay {
                Some((_, _, s)) => *s,
                None => case_seed(a.seed, kind.name, index),
            };
            if let Some(j) = &journal {
                let s = format!("{} {} {}\n{:64}", kind.name, index, seed, "");
                j.write_at(s.as_bytes(), 0).unwrap();
            }
            let want_sample = n < 2 && a.shard == 0;
            let mut case = Case {
                rng: Rng::new(seed),
                seed,
                index,
                tier: a.tier,
                out_dir: &out,
                sig: None,
                want_sample,
                kind: kind.name,
                shard: a.shard,
                stats: &mut stats,
            };
            let r = guarded(|| (kind.run)(&mut case)).unwrap_or_else(Err);
            let sig = case.sig;
            n += 1;
            stats.cases += 1;
            if let Some(s) = sig {
                stats.distinct.insert(mix(s ^ hash_str(kind.name)));
            }
            if let Err(e) = r {
                stats
                    .violations
                    .push((kind.name.to_string(), seed, format!("{index} {e}")));
                if stats.violations.len() >= 10 {
                    cut = true;
                    break;
                }
            }
        }
        *stats.kinds.entry(kind.name).or_insert(0) += n;
        if stats.violations.len() >= 10 {
            break;
        }
    }
    let mut s = String::new();
    write!(
        s,
        "{{\"cases\":{},\"cut\":{},\"kinds\":{{",
        stats.cases, cut
    )
    .unwrap();
    write!(
        s,
        "{}}},\"events\":{{",
        stats
            .kinds
            .iter()
            .map(|(k, v)| format!("{}:{}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(",")
    )
    .unwrap();
    write!(
        s,
        "{}}},\"samples\":[",
        stats
            .events
            .iter()
            .map(|(k, v)| format!("{}:{}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(",")
    )
    .unwrap();
    write!(
        s,
        "{}],\"violations\":[",
        stats
            .samples
            .iter()
            .map(|x| json_str(x))
            .collect::<Vec<_>>()
            .join(",")
    )
    .unwrap();
    write!(
        s,
        "{}],\"known\":{{",
        stats
            .violations
            .iter()
            .map(|(k, seed, d)| {
                let (i, d) = d.split_once(' ').unwrap();
                format!(
                    "{{\"kind\":{},\"index\":{},\"seed\":{},\"detail\":{}}}",
                    json_str(k),
                    i,
                    seed,
                    json_str(d)
                )
            })
            .collect::<Vec<_>>()
            .join(",")
    )
    .unwrap();
    write!(
        s,
        "{}}},\"distinct\":{}}}",
        stats
            .known
            .iter()
            .map(|(k, v)| format!(
                "{}:{{\"count\":{},\"detail\":{}}}",
                json_str(k),
                v.0,
                json_str(&v.1)
            ))
            .collect::<Vec<_>>()
            .join(","),
        stats.distinct.len()
    )
    .unwrap();
    stats.node = None;
    if files {
        let mut bytes = Vec::with_capacity(stats.distinct.len() * 8);
        for h in &stats.distinct {
            bytes.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(format!("{out}/{}.distinct", a.shard), bytes).unwrap();
        let mut f = File::create(format!("{out}/{}.tmp", a.shard)).unwrap();
        f.write_all(s.as_bytes()).unwrap();
        drop(f);
        std::fs::rename(
            format!("{out}/{}.tmp", a.shard),
            format!("{out}/{}.json", a.shard),
        )
        .unwrap();
    } else {
        println!("RESULT {s}");
    }
    std::process::exit(if stats.violations.is_empty() { 0 } else { 1 });
}

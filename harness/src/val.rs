//! Value graphs: an independent model of what the system's generic values hold.
use crate::run::{mix, Rng};
use nanvm_lib::{
    js::{
        any::Any,
        any_cast::AnyCast,
        js_array::{new_array, JsArray},
        js_bigint::{new_bigint, JsBigint, Sign},
        js_object::{new_object, JsObject},
        js_string::{new_string, JsString},
        new::New,
        null::Null,
        type_::Type,
    },
    mem::manager::{Dealloc, Manager},
};
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

pub type Id = usize;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// The bits of a double.
    Num(u64),
    Bool(bool),
    Null,
    Str(Vec<u16>),
    Big(bool, Vec<u64>),
    Arr(Vec<Id>),
    Obj(Vec<(Vec<u16>, Id)>),
}

/// Children have smaller ids than their parents.
#[derive(Clone, Debug, Default)]
pub struct G {
    pub nodes: Vec<V>,
    pub root: Id,
}

pub fn units(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}

pub fn show(s: &[u16]) -> String {
    let mut r = String::new();
    for c in char::decode_utf16(s.iter().copied()) {
        match c {
            Ok(c) if c.is_ascii_graphic() || c == ' ' => r.push(c),
            Ok(c) => write!(r, "<{:x}>", c as u32).unwrap(),
            Err(e) => write!(r, "<{:x}>", e.unpaired_surrogate()).unwrap(),
        }
    }
    r
}

fn is_nan(b: u64) -> bool {
    f64::from_bits(b).is_nan()
}

impl G {
    pub fn add(&mut self, v: V) -> Id {
        self.nodes.push(v);
        self.nodes.len() - 1
    }

    pub fn is_container(&self, i: Id) -> bool {
        matches!(self.nodes[i], V::Arr(_) | V::Obj(_))
    }

    pub fn children(&self, i: Id) -> Vec<Id> {
        match &self.nodes[i] {
            V::Arr(v) => v.clone(),
            V::Obj(v) => v.iter().map(|x| x.1).collect(),
            _ => vec![],
        }
    }

    /// Ids reachable from the root, and how many places refer to each.
    pub fn refs(&self) -> HashMap<Id, usize> {
        let mut n = HashMap::new();
        n.insert(self.root, 1);
        let mut todo = vec![self.root];
        while let Some(i) = todo.pop() {
            for c in self.children(i) {
                let e = n.entry(c).or_insert(0);
                *e += 1;
                if *e == 1 {
                    todo.push(c);
                }
            }
        }
        n
    }

    /// Size of the value written without sharing, saturating.
    pub fn tree_size(&self) -> u64 {
        let mut n = vec![0u64; self.nodes.len()];
        for i in 0..self.nodes.len() {
            let mut s = 1u64;
            for c in self.children(i) {
                s = s.saturating_add(n[c]);
            }
            n[i] = s;
        }
        n[self.root]
    }

    pub fn depth(&self) -> usize {
        let mut n = vec![0; self.nodes.len()];
        for i in 0..self.nodes.len() {
            n[i] = 1 + self.children(i).iter().map(|&c| n[c]).max().unwrap_or(0);
        }
        n[self.root]
    }

    /// Keys sorted by code unit.
    pub fn sort_keys(&mut self) {
        for v in &mut self.nodes {
            if let V::Obj(v) = v {
                v.sort();
            }
        }
    }

    /// Canonical text with numbered containers: equal exactly for equal values with equal sharing.
    /// The same form is computed by tools/oracle.mjs.
    pub fn canon(&self) -> String {
        let mut out = String::new();
        let mut seen: HashMap<Id, usize> = HashMap::new();
        enum T<'a> {
            Node(Id),
            Text(String),
            Key(&'a [u16]),
        }
        let mut todo = vec![T::Node(self.root)];
        while let Some(t) = todo.pop() {
            match t {
                T::Text(s) => out.push_str(&s),
                T::Key(k) => hex_units(&mut out, k),
                T::Node(i) => match &self.nodes[i] {
                    V::Num(b) if is_nan(*b) => out.push_str("nan"),
                    V::Num(b) => write!(out, "n{b:016x}").unwrap(),
                    V::Bool(b) => out.push(if *b { 't' } else { 'f' }),
                    V::Null => out.push('z'),
                    V::Str(s) => {
                        out.push('s');
                        hex_units(&mut out, s);
                    }
                    V::Big(neg, w) => {
                        out.push_str(if *neg { "b-" } else { "b" });
                        match w.split_last() {
                            None => out.push('0'),
                            Some((top, rest)) => {
                                write!(out, "{top:x}").unwrap();
                                for x in rest.iter().rev() {
                                    write!(out, "{x:016x}").unwrap();
                                }
                            }
                        }
                    }
                    _ => {
                        if let Some(k) = seen.get(&i) {
                            write!(out, "#{k}").unwrap();
                            continue;
                        }
                        seen.insert(i, seen.len());
                        match &self.nodes[i] {
                            V::Arr(v) => {
                                out.push('[');
                                todo.push(T::Text("]".into()));
                                for &c in v.iter().rev() {
                                    todo.push(T::Text(",".into()));
                                    todo.push(T::Node(c));
                                }
                            }
                            V::Obj(v) => {
                                let mut v: Vec<_> = v.iter().collect();
                                v.sort();
                                out.push('{');
                                todo.push(T::Text("}".into()));
                                for (k, c) in v.into_iter().rev() {
                                    todo.push(T::Text(",".into()));
                                    todo.push(T::Node(*c));
                                    todo.push(T::Text(":".into()));
                                    todo.push(T::Key(k));
                                }
                            }
                            _ => unreachable!(),
                        }
                    }
                },
            }
        }
        out
    }

    pub fn hash(&self) -> u64 {
        crate::run::hash_str(&self.canon())
    }
}

fn hex_units(out: &mut String, s: &[u16]) {
    for u in s {
        write!(out, "{u:04x}").unwrap();
    }
    out.push(';');
}

#[derive(Clone, Copy, PartialEq)]
pub struct Cmp {
    /// The same containers shared, the others distinct.
    pub identity: bool,
    /// The order of keys matters.
    pub order: bool,
}

pub const VALUE: Cmp = Cmp {
    identity: false,
    order: false,
};
pub const SHARED: Cmp = Cmp {
    identity: true,
    order: false,
};

/// Are the two values the same? The error tells the first difference.
pub fn same(got: &G, want: &G, cmp: Cmp) -> Result<(), String> {
    let mut ab: HashMap<Id, Id> = HashMap::new();
    let mut ba: HashMap<Id, Id> = HashMap::new();
    let mut pairs: HashSet<(Id, Id)> = HashSet::new();
    let mut todo = vec![(got.root, want.root, String::new())];
    while let Some((a, b, path)) = todo.pop() {
        let at = || {
            if path.is_empty() {
                "the root".to_string()
            } else {
                path.clone()
            }
        };
        if got.is_container(a) && want.is_container(b) {
            if cmp.identity {
                match (ab.get(&a), ba.get(&b)) {
                    (None, None) => {
                        ab.insert(a, b);
                        ba.insert(b, a);
                    }
                    (Some(&x), Some(&y)) if x == b && y == a => continue,
                    (Some(_), _) => return Err(format!("at {}: shared, must be distinct", at())),
                    _ => return Err(format!("at {}: a copy, must be shared", at())),
                }
            } else if !pairs.insert((a, b)) {
                continue;
            }
        }
        let sub = |s: String| {
            if path.len() > 200 {
                path.clone()
            } else {
                format!("{path}{s}")
            }
        };
        match (&got.nodes[a], &want.nodes[b]) {
            (V::Num(x), V::Num(y)) if x == y || (is_nan(*x) && is_nan(*y)) => {}
            (V::Bool(x), V::Bool(y)) if x == y => {}
            (V::Null, V::Null) => {}
            (V::Str(x), V::Str(y)) if x == y => {}
            (V::Big(n, x), V::Big(m, y)) if n == m && x == y => {}
            (V::Arr(x), V::Arr(y)) if x.len() == y.len() => {
                for (i, (p, q)) in x.iter().zip(y).enumerate().rev() {
                    todo.push((*p, *q, sub(format!("[{i}]"))));
                }
            }
            (V::Obj(x), V::Obj(y)) if x.len() == y.len() => {
                let mut x: Vec<_> = x.iter().collect();
                let mut y: Vec<_> = y.iter().collect();
                if !cmp.order {
                    x.sort();
                    y.sort();
                }
                for (p, q) in x.iter().zip(&y).rev() {
                    if p.0 != q.0 {
                        return Err(format!(
                            "at {}: key {:?}, not {:?}",
                            at(),
                            show(&p.0),
                            show(&q.0)
                        ));
                    }
                    todo.push((p.1, q.1, sub(format!(".{}", show(&p.0)))));
                }
            }
            (x, y) => return Err(format!("at {}: {}, not {}", at(), brief(x), brief(y))),
        }
    }
    Ok(())
}

fn brief(v: &V) -> String {
    match v {
        V::Num(b) => format!("number {:e} ({b:x})", f64::from_bits(*b)),
        V::Bool(b) => format!("{b}"),
        V::Null => "null".into(),
        V::Str(s) => {
            let s: String = show(s).chars().take(120).collect();
            format!("string {s:?}")
        }
        V::Big(n, w) => {
            format!(
                "bigint {}{:x?}",
                if *n { "-" } else { "" },
                &w[..w.len().min(6)]
            )
        }
        V::Arr(v) => format!("array of {}", v.len()),
        V::Obj(v) => format!("object of {}", v.len()),
    }
}

// ------------------------------------------------------------------ the system's values

pub fn build<M: Manager>(m: M, g: &G) -> Any<M::Dealloc> {
    let mut made: Vec<Option<Any<M::Dealloc>>> = (0..g.nodes.len()).map(|_| None).collect();
    let mut need = vec![false; g.nodes.len()];
    need[g.root] = true;
    for i in (0..g.nodes.len()).rev() {
        if need[i] {
            for c in g.children(i) {
                need[c] = true;
            }
        }
    }
    for i in 0..g.nodes.len() {
        if !need[i] {
            continue;
        }
        let a: Any<M::Dealloc> = match &g.nodes[i] {
            V::Num(b) => f64::from_bits(*b).move_to_any(),
            V::Bool(b) => b.move_to_any(),
            V::Null => Null().move_to_any(),
            // both ways to make a value
            V::Str(s) if i & 1 == 0 => m.new_js_string(s.clone()),
            V::Str(s) => new_string(m, s.clone()).to_ref().move_to_any(),
            V::Big(neg, w) => {
                let sign = if *neg { Sign::Negative } else { Sign::Positive };
                new_bigint(m, sign, w.clone()).to_ref().move_to_any()
            }
            V::Arr(v) => {
                let v: Vec<_> = v.iter().map(|&c| made[c].clone().unwrap()).collect();
                if i & 1 == 0 {
                    m.new_js_array(v)
                } else {
                    new_array(m, v).to_ref().move_to_any()
                }
            }
            V::Obj(v) => {
                let v: Vec<_> = v
                    .iter()
                    .map(|(k, c)| (new_string(m, k.clone()).to_ref(), made[*c].clone().unwrap()))
                    .collect();
                if i & 1 == 0 {
                    m.new_js_object(v)
                } else {
                    new_object(m, v).to_ref().move_to_any()
                }
            }
        };
        made[i] = Some(a);
    }
    made[g.root].take().unwrap()
}

/// Reads a value; containers are identified by where they lie.
pub fn read<D: Dealloc>(a: &Any<D>) -> G {
    let mut g = G::default();
    let mut seen: HashMap<usize, Id> = HashMap::new();
    // post-order without recursion: values may be deep
    enum T<'a, D: Dealloc> {
        Visit(&'a Any<D>),
        Arr(usize, usize),
        Obj(usize, Vec<Vec<u16>>),
    }
    let mut todo = vec![T::Visit(a)];
    let mut done: Vec<Id> = vec![];
    while let Some(t) = todo.pop() {
        match t {
            T::Visit(a) => {
                let id = match a.get_type() {
                    Type::Number => {
                        let n: f64 = a.clone().try_move().unwrap();
                        g.add(V::Num(n.to_bits()))
                    }
                    Type::Bool => {
                        let b: bool = a.clone().try_move().unwrap();
                        g.add(V::Bool(b))
                    }
                    Type::Null => g.add(V::Null),
                    Type::String => {
                        let s = a.try_ref::<JsString>().unwrap().object().items().to_vec();
                        g.add(V::Str(s))
                    }
                    Type::Bigint => {
                        let b = a.try_ref::<JsBigint>().unwrap().object();
                        let v = V::Big(b.sign() == Sign::Negative, b.items().to_vec());
                        g.add(v)
                    }
                    Type::Array => {
                        let b = a.try_ref::<JsArray<D>>().unwrap().object();
                        let p = b as *const _ as usize;
                        match seen.get(&p) {
                            Some(&i) => i,
                            None => {
                                todo.push(T::Arr(p, b.items().len()));
                                todo.extend(b.items().iter().rev().map(T::Visit));
                                continue;
                            }
                        }
                    }
                    Type::Object => {
                        let b = a.try_ref::<JsObject<D>>().unwrap().object();
                        let p = b as *const _ as usize;
                        match seen.get(&p) {
                            Some(&i) => i,
                            None => {
                                let keys = b.items().iter().map(|x| x.0.items().to_vec());
                                todo.push(T::Obj(p, keys.collect()));
                                todo.extend(b.items().iter().rev().map(|x| T::Visit(&x.1)));
                                continue;
                            }
                        }
                    }
                };
                done.push(id);
            }
            T::Arr(p, n) => {
                let v = done.split_off(done.len() - n);
                let id = g.add(V::Arr(v));
                seen.insert(p, id);
                done.push(id);
            }
            T::Obj(p, keys) => {
                let v = done.split_off(done.len() - keys.len());
                let id = g.add(V::Obj(keys.into_iter().zip(v).collect()));
                seen.insert(p, id);
                done.push(id);
            }
        }
    }
    g.root = done[0];
    g
}

// ------------------------------------------------------------------ generation

#[derive(Clone, Copy)]
pub struct Opt {
    pub nodes: usize,
    pub depth: usize,
    /// Out of 100: how often an earlier container is used again.
    pub share: usize,
    pub big: bool,
    pub nonfinite: bool,
    pub surrogates: bool,
    pub proto: bool,
}

pub const JSON: Opt = Opt {
    nodes: 40,
    depth: 8,
    share: 0,
    big: false,
    nonfinite: false,
    surrogates: false,
    proto: false,
};
pub const DATA: Opt = Opt {
    big: true,
    share: 25,
    ..JSON
};

pub fn gen_number(r: &mut Rng) -> f64 {
    loop {
        let f = match r.below(16) {
            0 => 0.0,
            1 => -0.0,
            2 | 3 => r.range(0, 20) as f64 - 10.0,
            4 => r.u64() as i32 as f64,
            5 => (r.u64() >> 11) as f64,
            6 => -((r.u64() >> r.range(1, 63)) as f64),
            7 => r.range(0, 2000) as f64 / 100.0,
            8 => 1.0 / (r.range(1, 1000) as f64),
            9 => f64::from_bits(r.u64() & 0x000F_FFFF_FFFF_FFFF),
            10 => f64::from_bits(0x7FEF_FFFF_FFFF_FFFF - r.below(4) as u64),
            11 => f64::from_bits(((r.range(1000, 1100) as u64) << 52) | (r.u64() >> 12)),
            12 => f64::from_bits((r.range(0, 2000) as u64 + 23) << 52),
            13 => format!("1e{}", r.range(0, 600) as i32 - 300).parse().unwrap(),
            14 => {
                let e = r.range(0, 2046) as u64;
                f64::from_bits((e << 52) | if r.bool() { 0 } else { (1 << 52) - 1 })
            }
            _ => f64::from_bits(r.u64()),
        };
        if f.is_finite() {
            return f;
        }
    }
}

pub const WORDS: [&str; 30] = [
    "a",
    "b",
    "key",
    "x1",
    "_",
    "$",
    "__x",
    "null",
    "true",
    "false",
    "const",
    "export",
    "default",
    "import",
    "from",
    "require",
    "module",
    "exports",
    "e",
    "n",
    "constructor",
    "toString",
    "length",
    "0",
    "1",
    "10",
    "-1",
    "01",
    "1e3",
    "",
];

pub fn gen_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(20) {
            0 => r.below(0x20) as u32,
            1 => *r.pick(&[
                0x22u32, 0x5C, 0x2F, 0x08, 0x0C, 0x0A, 0x0D, 0x09, 0x7F, 0x80, 0xFF,
            ]),
            2 => *r.pick(&[
                0x2028u32, 0x2029, 0xFEFF, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF,
                0x1F600, 0, 0x100, 0x7FF, 0x800,
            ]),
            3 => r.below(0x10000) as u32,
            4 => r.range(0x10000, 0x10FFFF) as u32,
            _ => r.range(0x20, 0x7E) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

pub fn gen_text(r: &mut Rng) -> String {
    match r.below(10) {
        0..=4 => WORDS[r.below(WORDS.len())].to_string(),
        5 => (0..r.size(200)).map(|_| gen_char(r)).collect(),
        _ => (0..r.below(8)).map(|_| gen_char(r)).collect(),
    }
}

pub fn gen_units(r: &mut Rng, o: &Opt) -> Vec<u16> {
    let mut s = units(&gen_text(r));
    if o.surrogates && r.chance(1, 3) {
        for _ in 0..r.range(1, 4) {
            let at = r.below(s.len() + 1);
            s.insert(at, 0xD800 + r.below(0x800) as u16);
        }
    }
    if !o.proto && s == units("__proto__") {
        s.push(1);
    }
    s
}

/// A text that differs little from another one.
pub fn like(r: &mut Rng, o: &Opt, s: &[u16]) -> Vec<u16> {
    let mut s = s.to_vec();
    let half = |u: u16| (0xD800..0xE000).contains(&u);
    let letters = [
        0, 0x20, 0x61, 0x30, 0x22, 0x5C, 0xFF, 0x100, 0x301, 0x200B, 0xFFFF,
    ];
    match r.below(8) {
        0 => s.push(letters[r.below(11)]),
        1 => s.insert(0, letters[r.below(11)]),
        2 if s.last().map_or(false, |&u| !half(u)) => drop(s.pop()),
        3 if s.iter().all(|&u| u < 0x80) => {
            for u in s
                .iter_mut()
                .filter(|u| (0x41..0x5B).contains(*u) || (0x61..0x7B).contains(*u))
            {
                *u ^= 0x20;
            }
        }
        4 if !s.is_empty() => {
            let i = r.below(s.len());
            let u = s[i] ^ (1 << r.below(16));
            if !half(u) && !half(s[i]) {
                s[i] = u;
            }
        }
        5 => {
            let mut t: Vec<u16> = "long key ".repeat(r.range(1, 40)).encode_utf16().collect();
            t.append(&mut s);
            s = t;
            s.push(0x61 + r.below(3) as u16);
        }
        6 if s.iter().all(|&u| !half(u)) => s.reverse(),
        _ => s.push(0),
    }
    if !o.proto && s == units("__proto__") {
        s.push(1);
    }
    s
}

pub fn gen_bigint(r: &mut Rng) -> V {
    let n = match r.below(8) {
        0 => 0,
        1..=4 => 1,
        5 | 6 => r.range(1, 4),
        _ => r.range(1, 12),
    };
    let mut w: Vec<u64> = (0..n)
        .map(|_| match r.below(5) {
            0 => 0,
            1 => u64::MAX,
            2 => r.below(100) as u64,
            3 => 1u64 << r.below(64),
            _ => r.u64(),
        })
        .collect();
    while w.last() == Some(&0) {
        w.pop();
    }
    V::Big(r.bool() && !w.is_empty(), w)
}

pub fn gen_leaf(r: &mut Rng, o: &Opt) -> V {
    loop {
        return match r.below(12) {
            0 => V::Null,
            1 => V::Bool(r.bool()),
            2..=5 => V::Num(gen_number(r).to_bits()),
            6 if o.nonfinite => V::Num((*r.pick(&[f64::INFINITY, f64::NEG_INFINITY])).to_bits()),
            7 if o.big => gen_bigint(r),
            8..=11 => V::Str(gen_units(r, o)),
            _ => continue,
        };
    }
}

pub fn gen_graph(r: &mut Rng, o: &Opt) -> G {
    let mut g = G::default();
    let mut pool: Vec<Id> = vec![];
    let mut budget = 1 + r.size(o.nodes);
    let root = gen_node(r, o, &mut g, &mut pool, o.depth, &mut budget, true);
    g.root = root;
    g
}

fn gen_node(
    r: &mut Rng,
    o: &Opt,
    g: &mut G,
    pool: &mut Vec<Id>,
    depth: usize,
    budget: &mut usize,
    top: bool,
) -> Id {
    if !top && !pool.is_empty() && r.chance(o.share, 100) {
        return *r.pick(pool);
    }
    *budget = budget.saturating_sub(1);
    if depth == 0 || *budget == 0 || r.chance(if top { 1 } else { 5 }, 11) {
        let v = gen_leaf(r, o);
        return g.add(v);
    }
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        _ => r.size((*budget).min(12)),
    };
    if r.bool() {
        let v = (0..n)
            .map(|_| gen_node(r, o, g, pool, depth - 1, budget, false))
            .collect();
        let id = g.add(V::Arr(v));
        pool.push(id);
        id
    } else {
        let mut used = HashSet::new();
        let mut v: Vec<(Vec<u16>, Id)> = vec![];
        for _ in 0..n {
            let k = match v.is_empty() || r.chance(4, 5) {
                true => gen_units(r, o),
                false => {
                    let i = r.below(v.len());
                    like(r, o, &v[i].0)
                }
            };
            if used.insert(k.clone()) {
                let c = gen_node(r, o, g, pool, depth - 1, budget, false);
                v.push((k, c));
            }
        }
        let id = g.add(V::Obj(v));
        pool.push(id);
        id
    }
}

/// Shapes that random growth does not give: chains of diamonds, deep chains, wide values.
pub fn gen_shape(r: &mut Rng, o: &Opt, size: usize) -> G {
    let mut g = G::default();
    let leaf = gen_leaf(r, o);
    let mut top = g.add(leaf);
    let kind = r.below(4);
    let n = r.range(1, size);
    match kind {
        0 => {
            // each level refers to the one below several times
            for i in 0..n {
                let v = if r.bool() {
                    V::Arr(vec![top; r.range(1, 3)])
                } else {
                    V::Obj(
                        (0..r.range(1, 3))
                            .map(|k| (units(&format!("k{k}{}", i % 3)), top))
                            .collect(),
                    )
                };
                top = g.add(v);
            }
        }
        1 => {
            for _ in 0..n.min(200) {
                let v = if r.bool() {
                    V::Arr(vec![top])
                } else {
                    V::Obj(vec![(units("d"), top)])
                };
                top = g.add(v);
            }
        }
        2 => {
            // many users of a few shared containers
            let k = r.range(1, 12);
            let shared: Vec<Id> = (0..k)
                .map(|i| {
                    let c = g.add(V::Num((i as f64).to_bits()));
                    let v = if r.bool() {
                        V::Arr(vec![c])
                    } else {
                        V::Obj(vec![(units("i"), c)])
                    };
                    g.add(v)
                })
                .collect();
            let v = (0..n).map(|_| *r.pick(&shared)).collect();
            top = g.add(V::Arr(v));
        }
        _ => {
            // random dags over layers
            let mut last: Vec<Id> = vec![top];
            for _ in 0..r.range(1, 8) {
                let mut next = vec![];
                for _ in 0..r.range(1, 1 + n.min(6)) {
                    let v: Vec<Id> = (0..r.below(4)).map(|_| *r.pick(&last)).collect();
                    let v = if r.bool() {
                        V::Arr(v)
                    } else {
                        V::Obj(
                            v.into_iter()
                                .enumerate()
                                .map(|(i, c)| (units(&i.to_string()), c))
                                .collect(),
                        )
                    };
                    next.push(g.add(v));
                }
                last.extend(next);
            }
            let v = last.clone();
            top = g.add(V::Arr(v));
        }
    }
    g.root = top;
    g
}

/// Values of which one dimension has exactly that length. The first `SIZED_JSON` ones are JSON data.
pub const SIZED: usize = 15;
pub const SIZED_JSON: usize = 12;
pub fn sized(r: &mut Rng, dim: usize, n: usize) -> G {
    let mut g = G::default();
    let root = match dim {
        0 => {
            let v = (0..n)
                .map(|i| g.add(V::Num((i as f64 + 0.5).to_bits())))
                .collect();
            V::Arr(v)
        }
        1 => {
            let v = (0..n)
                .map(|i| {
                    let x = match i % 4 {
                        0 => V::Arr(vec![]),
                        1 => V::Obj(vec![]),
                        2 => V::Str(units(&i.to_string())),
                        _ => V::Null,
                    };
                    g.add(x)
                })
                .collect();
            V::Arr(v)
        }
        2 => {
            let mut v: Vec<_> = (0..n)
                .map(|i| (units(&format!("k{i}")), g.add(V::Num((i as f64).to_bits()))))
                .collect();
            v.sort();
            V::Obj(v)
        }
        3 => V::Str((0..n).map(|i| b'a' as u16 + (i % 26) as u16).collect()),
        4 => {
            let s: String = (0..n).map(|_| gen_char(r)).collect();
            V::Str(units(&s))
        }
        5 => V::Str(units(&"\u{1F600}".repeat(n))),
        6 => {
            let x = g.add(V::Bool(true));
            V::Obj(vec![(
                (0..n).map(|i| b'a' as u16 + (i % 26) as u16).collect(),
                x,
            )])
        }
        7 => V::Str((0..n).map(|i| (i % 32) as u16).collect()),
        8 | 9 | 10 => {
            let mut top = g.add(V::Arr(vec![]));
            for _ in 0..n.min(1000) {
                let x = if dim == 8 || dim == 10 && r.bool() {
                    V::Arr(vec![top])
                } else {
                    V::Obj(vec![(units("k"), top)])
                };
                top = g.add(x);
            }
            V::Arr(vec![top])
        }
        11 => {
            // a number of that many digits
            let d: String = (0..n.clamp(1, 300))
                .map(|_| (b'1' + r.below(9) as u8) as char)
                .collect();
            let t = format!("{d}e-{}", r.below(n.min(300) + 1));
            V::Num(t.parse::<f64>().unwrap().to_bits())
        }
        12 => {
            // containers used twice
            let v: Vec<_> = (0..n)
                .map(|i| {
                    g.add(if i % 2 == 0 {
                        V::Arr(vec![])
                    } else {
                        V::Obj(vec![])
                    })
                })
                .collect();
            V::Arr(v.iter().chain(v.iter().rev()).copied().collect())
        }
        13 => {
            // a container used often
            let x = g.add(V::Arr(vec![]));
            V::Arr(vec![x; n])
        }
        _ => {
            let mut w: Vec<u64> = (0..n.min(300)).map(|_| r.u64()).collect();
            if let Some(x) = w.last_mut() {
                *x = (*x).max(1);
            }
            V::Big(r.bool() && !w.is_empty(), w)
        }
    };
    g.root = g.add(root);
    g
}

pub fn mix_all(v: &[u64]) -> u64 {
    v.iter().fold(7, |h, x| mix(h ^ x))
}

//! Texts: an independent lexer and independent parsers, and writers of random texts for values.
use crate::{
    refbig::Nat,
    run::Rng,
    val::{show, units, Id, G, V},
};
use std::collections::{BTreeMap, HashMap, HashSet};

// ------------------------------------------------------------------ lexer

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Str(String),
    Num(u64),
    Big(bool, Vec<u64>),
    Id(String),
    P(char),
    NL,
    /// A comment over several lines: some would call it a line break.
    Soft,
    Err,
}

#[derive(Default)]
pub struct Lexed {
    pub toks: Vec<Tok>,
    /// From this token on, nothing is specified.
    pub unspecified: Option<usize>,
    /// A raw control character in a string: neither JSON nor JavaScript allow all of them.
    pub raw_control: bool,
    pub comments: bool,
}

const WS: [char; 4] = [' ', '\n', '\t', '\r'];
const PUNCT: [char; 11] = ['{', '}', '[', ']', ':', ',', '=', ';', '(', ')', '.'];

fn id_first(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c == '$'
}

pub fn is_id(s: &str) -> bool {
    let mut i = s.chars();
    i.next().map(id_first).unwrap_or(false) && i.all(|c| id_first(c) || c.is_ascii_digit())
}

/// Up to the first error.
pub fn lex(text: &str) -> Lexed {
    lexer(text, false)
}

/// Beyond errors: a wrong escape is reported and its string goes on with the character that doesn't belong to it, half a
/// surrogate pair ends its string, a wrong number ends before the character that doesn't belong to it, anything else is
/// skipped.
pub fn lex_on(text: &str) -> Lexed {
    lexer(text, true)
}

fn lexer(text: &str, go_on: bool) -> Lexed {
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied();
    let mut l = Lexed::default();
    let mut i = 0;
    let digits = |mut i: usize| {
        while c.get(i).map(|c| c.is_ascii_digit()).unwrap_or(false) {
            i += 1;
        }
        i
    };
    while i < c.len() {
        let x = c[i];
        if x == '\n' {
            l.toks.push(Tok::NL);
            i += 1;
        } else if WS.contains(&x) {
            i += 1;
        } else if PUNCT.contains(&x) {
            l.toks.push(Tok::P(x));
            i += 1;
        } else if id_first(x) {
            let mut s = String::new();
            while let Some(y) = at(i).filter(|&y| id_first(y) || y.is_ascii_digit()) {
                s.push(y);
                i += 1;
            }
            l.toks.push(Tok::Id(s));
        } else if x == '/' {
            l.comments = true;
            match at(i + 1) {
                Some('/') => {
                    i += 2;
                    loop {
                        match at(i) {
                            None => break,
                            Some('\n') | Some('\r') => {
                                l.toks.push(Tok::NL);
                                i += 1;
                                break;
                            }
                            Some('\u{2028}') | Some('\u{2029}') => {
                                l.unspecified.get_or_insert(l.toks.len());
                                i += 1;
                            }
                            _ => i += 1,
                        }
                    }
                }
                Some('*') => {
                    i += 2;
                    let mut soft = false;
                    loop {
                        match (at(i), at(i + 1)) {
                            (Some('*'), Some('/')) => {
                                i += 2;
                                break;
                            }
                            (None, _) => {
                                l.toks.push(Tok::Err);
                                return l;
                            }
                            (Some(y), _) => {
                                soft |= matches!(y, '\n' | '\r' | '\u{2028}' | '\u{2029}');
                                i += 1;
                            }
                        }
                    }
                    if soft {
                        l.toks.push(Tok::Soft);
                    }
                }
                _ => {
                    l.toks.push(Tok::Err);
                    if !go_on {
                        return l;
                    }
                    i += 2;
                }
            }
        } else if x == '"' {
            i += 1;
            let mut s = String::new();
            let closed = loop {
                let y = match at(i) {
                    None => {
                        l.toks.push(Tok::Err);
                        return l;
                    }
                    Some(y) => y,
                };
                i += 1;
                match y {
                    '"' => break true,
                    '\\' => {
                        let e = at(i);
                        i += 1;
                        match e {
                            Some('u') => {
                                // the value, and where the digits end
                                let hex = |i: usize| -> (Option<u32>, usize) {
                                    let mut n = 0;
                                    for k in i..i + 4 {
                                        match at(k).and_then(|c| c.to_digit(16)) {
                                            Some(d) => n = n * 16 + d,
                                            None => return (None, k),
                                        }
                                    }
                                    (Some(n), i + 4)
                                };
                                let (mut n, mut end) = hex(i);
                                // an error in the digits: the string goes on
                                let mut within = n.is_none();
                                if let Some(h @ 0xD800..=0xDBFF) = n {
                                    n = None;
                                    if at(end) == Some('\\') {
                                        end += 1;
                                        if at(end) == Some('u') {
                                            let (w, e) = hex(end + 1);
                                            end = e;
                                            within = w.is_none();
                                            if let Some(w @ 0xDC00..=0xDFFF) = w {
                                                n = Some(
                                                    0x10000 + ((h - 0xD800) << 10) + (w - 0xDC00),
                                                );
                                            }
                                        }
                                    }
                                }
                                i = end;
                                match n.and_then(char::from_u32) {
                                    Some(y) => s.push(y),
                                    None => {
                                        l.toks.push(Tok::Err);
                                        if !go_on || (within && at(i).is_none()) {
                                            return l;
                                        }
                                        if !within {
                                            break false;
                                        }
                                    }
                                }
                            }
                            Some(y) => {
                                let t = ['"', '\\', '/', 'b', 'f', 'n', 'r', 't'];
                                let v = ['"', '\\', '/', '\u{8}', '\u{c}', '\n', '\r', '\t'];
                                match t.iter().position(|&z| z == y) {
                                    Some(k) => s.push(v[k]),
                                    None => {
                                        l.toks.push(Tok::Err);
                                        if !go_on {
                                            return l;
                                        }
                                        i -= 1;
                                    }
                                }
                            }
                            None => {
                                l.toks.push(Tok::Err);
                                return l;
                            }
                        }
                    }
                    y => {
                        l.raw_control |= (y as u32) < 0x20;
                        s.push(y)
                    }
                }
            };
            if closed {
                l.toks.push(Tok::Str(s));
            }
        } else if x == '-' || x.is_ascii_digit() {
            let from = i;
            let neg = x == '-';
            if neg {
                i += 1;
            }
            let mut ok = true;
            match at(i) {
                Some('0') => i += 1,
                Some(y) if y.is_ascii_digit() => i = digits(i),
                _ => ok = false,
            }
            let int: String = c[from + neg as usize..i.min(c.len())].iter().collect();
            let mut big = false;
            if ok && at(i) == Some('n') {
                big = true;
                i += 1;
            } else if ok {
                if at(i) == Some('.') {
                    let e = digits(i + 1);
                    ok = e > i + 1;
                    i = e;
                }
                if ok && matches!(at(i), Some('e') | Some('E')) {
                    i += 1;
                    if matches!(at(i), Some('+') | Some('-')) {
                        i += 1;
                    }
                    let e = digits(i);
                    ok = e > i;
                    i = e;
                }
            }
            if let Some(y) = at(i) {
                let ends =
                    WS.contains(&y) || (PUNCT.contains(&y) && y != '.') || y == '"' || y == '/';
                ok &= ends;
            }
            if !ok {
                l.toks.push(Tok::Err);
                if !go_on {
                    return l;
                }
                continue;
            }
            if big {
                let w = Nat::from_dec(&int).words();
                l.toks.push(Tok::Big(neg && !w.is_empty(), w));
            } else {
                let s: String = c[from..i].iter().collect();
                l.toks.push(Tok::Num(s.parse::<f64>().unwrap().to_bits()));
            }
        } else {
            l.toks.push(Tok::Err);
            if !go_on {
                return l;
            }
            i += 1;
        }
    }
    l
}

/// Without repeated and final line breaks.
pub fn tidy(t: &[Tok]) -> Vec<Tok> {
    let mut v: Vec<Tok> = vec![];
    for x in t {
        if *x == Tok::Soft || (*x == Tok::NL && v.last() == Some(&Tok::NL)) {
            continue;
        }
        v.push(x.clone());
    }
    while v.last() == Some(&Tok::NL) {
        v.pop();
    }
    v
}

// ------------------------------------------------------------------ JSON, strictly

pub fn json(text: &str) -> Result<G, String> {
    let c: Vec<char> = text.chars().collect();
    let mut p = Json {
        c,
        i: 0,
        g: G::default(),
    };
    p.ws();
    let root = p.value()?;
    p.ws();
    if p.i != p.c.len() {
        return Err(format!("text after the value at {}", p.i));
    }
    p.g.root = root;
    Ok(p.g)
}

struct Json {
    c: Vec<char>,
    i: usize,
    g: G,
}

impl Json {
    fn at(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn ws(&mut self) {
        while self.at().map(|c| WS.contains(&c)).unwrap_or(false) {
            self.i += 1;
        }
    }
    fn err<T>(&self) -> Result<T, String> {
        Err(format!("not JSON at {}", self.i))
    }
    fn word(&mut self, w: &str, v: V) -> Result<Id, String> {
        for x in w.chars() {
            if self.at() != Some(x) {
                return self.err();
            }
            self.i += 1;
        }
        Ok(self.g.add(v))
    }
    fn value(&mut self) -> Result<Id, String> {
        match self.at() {
            Some('n') => self.word("null", V::Null),
            Some('t') => self.word("true", V::Bool(true)),
            Some('f') => self.word("false", V::Bool(false)),
            Some('"') => {
                let s = self.string()?;
                Ok(self.g.add(V::Str(s)))
            }
            Some('[') => {
                self.i += 1;
                self.ws();
                let mut v = vec![];
                if self.at() == Some(']') {
                    self.i += 1;
                    return Ok(self.g.add(V::Arr(v)));
                }
                loop {
                    self.ws();
                    v.push(self.value()?);
                    self.ws();
                    match self.at() {
                        Some(',') => self.i += 1,
                        Some(']') => {
                            self.i += 1;
                            return Ok(self.g.add(V::Arr(v)));
                        }
                        _ => return self.err(),
                    }
                }
            }
            Some('{') => {
                self.i += 1;
                self.ws();
                let mut v: Vec<(Vec<u16>, Id)> = vec![];
                let mut place = std::collections::BTreeMap::new();
                if self.at() == Some('}') {
                    self.i += 1;
                    return Ok(self.g.add(V::Obj(v)));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.at() != Some(':') {
                        return self.err();
                    }
                    self.i += 1;
                    self.ws();
                    let x = self.value()?;
                    match place.get(&k) {
                        Some(&i) => {
                            let e: &mut (Vec<u16>, Id) = &mut v[i];
                            e.1 = x
                        }
                        None => {
                            place.insert(k.clone(), v.len());
                            v.push((k, x))
                        }
                    }
                    self.ws();
                    match self.at() {
                        Some(',') => self.i += 1,
                        Some('}') => {
                            self.i += 1;
                            return Ok(self.g.add(V::Obj(v)));
                        }
                        _ => return self.err(),
                    }
                }
            }
            Some('-') | Some('0'..='9') => {
                let from = self.i;
                if self.at() == Some('-') {
                    self.i += 1;
                }
                if self.at() == Some('0') {
                    self.i += 1;
                } else {
                    self.digits()?;
                }
                if self.at() == Some('.') {
                    self.i += 1;
                    self.digits()?;
                }
                if let Some('e' | 'E') = self.at() {
                    self.i += 1;
                    if let Some('+' | '-') = self.at() {
                        self.i += 1;
                    }
                    self.digits()?;
                }
                let s: String = self.c[from..self.i].iter().collect();
                Ok(self.g.add(V::Num(s.parse::<f64>().unwrap().to_bits())))
            }
            _ => self.err(),
        }
    }
    fn digits(&mut self) -> Result<(), String> {
        let from = self.i;
        while self.at().map(|c| c.is_ascii_digit()).unwrap_or(false) {
            self.i += 1;
        }
        if self.i == from {
            return self.err();
        }
        Ok(())
    }
    fn string(&mut self) -> Result<Vec<u16>, String> {
        if self.at() != Some('"') {
            return self.err();
        }
        self.i += 1;
        let mut s = vec![];
        loop {
            let c = match self.at() {
                Some(c) if c as u32 >= 0x20 => c,
                _ => return self.err(),
            };
            self.i += 1;
            match c {
                '"' => return Ok(s),
                '\\' => {
                    let e = self.at();
                    self.i += 1;
                    match e {
                        Some(e @ ('"' | '\\' | '/')) => s.push(e as u16),
                        Some('b') => s.push(8),
                        Some('f') => s.push(12),
                        Some('n') => s.push(10),
                        Some('r') => s.push(13),
                        Some('t') => s.push(9),
                        Some('u') => {
                            let mut n = 0;
                            for _ in 0..4 {
                                match self.at().and_then(|c| c.to_digit(16)) {
                                    Some(d) => n = n * 16 + d as u16,
                                    None => return self.err(),
                                }
                                self.i += 1;
                            }
                            s.push(n);
                        }
                        _ => return self.err(),
                    }
                }
                c => {
                    let mut b = [0; 2];
                    s.extend_from_slice(c.encode_utf16(&mut b));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ modules

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dt {
    Json,
    Djs,
    Cjs,
    Mjs,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    Syntax,
    Read,
    Cycle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stop {
    Reject(Why),
    Unspecified,
}

const REJECT: Stop = Stop::Reject(Why::Syntax);

pub struct Accept {
    pub dt: Dt,
    pub root: Id,
    /// Strictly this is no JSON: it may be refused.
    pub lenient: bool,
}

pub trait Loader {
    fn import(&mut self, g: &mut G, spec: &str) -> Result<Id, Stop>;
}

pub struct NoImports;

impl Loader for NoImports {
    fn import(&mut self, _: &mut G, _: &str) -> Result<Id, Stop> {
        Err(Stop::Reject(Why::Read))
    }
}

pub const RESERVED: [&str; 60] = [
    "null",
    "true",
    "false",
    "await",
    "break",
    "case",
    "catch",
    "class",
    "const",
    "continue",
    "debugger",
    "default",
    "delete",
    "do",
    "else",
    "enum",
    "export",
    "extends",
    "finally",
    "for",
    "function",
    "if",
    "import",
    "in",
    "instanceof",
    "new",
    "return",
    "super",
    "switch",
    "this",
    "throw",
    "try",
    "typeof",
    "var",
    "void",
    "while",
    "with",
    "yield",
    "let",
    "static",
    "implements",
    "interface",
    "package",
    "private",
    "protected",
    "public",
    "arguments",
    "eval",
    "undefined",
    "NaN",
    "Infinity",
    "require",
    "module",
    "exports",
    "__filename",
    "__dirname",
    "async",
    "of",
    "get",
    "set",
];

pub struct Mods<'a> {
    t: &'a [Tok],
    i: usize,
    g: &'a mut G,
    dt: Dt,
    consts: BTreeMap<String, Id>,
    lenient: bool,
    unspecified: usize,
    load: &'a mut dyn Loader,
}

/// What a module must be read as.
pub fn module(l: &Lexed, g: &mut G, load: &mut dyn Loader) -> Result<Accept, Stop> {
    let mut m = Mods {
        t: &l.toks,
        i: 0,
        g,
        dt: Dt::Json,
        consts: BTreeMap::new(),
        lenient: false,
        unspecified: l.unspecified.unwrap_or(usize::MAX),
        load,
    };
    let root = m.run()?;
    let dt = m.dt;
    let lenient = m.lenient || l.raw_control || (dt == Dt::Json && l.comments);
    Ok(Accept { dt, root, lenient })
}

impl Mods<'_> {
    /// The next token, line breaks included.
    fn raw(&mut self) -> Result<Option<Tok>, Stop> {
        while self.t.get(self.i) == Some(&Tok::Soft) {
            self.i += 1;
        }
        if self.i >= self.unspecified {
            return Err(Stop::Unspecified);
        }
        let t = self.t.get(self.i).cloned();
        self.i += 1;
        if t == Some(Tok::Err) {
            return Err(REJECT);
        }
        Ok(t)
    }
    /// The next token inside a value.
    fn next(&mut self) -> Result<Tok, Stop> {
        loop {
            match self.raw()? {
                Some(Tok::NL) => {}
                Some(t) => return Ok(t),
                None => return Err(REJECT),
            }
        }
    }
    /// The next token in the head of a statement: JavaScript allows line breaks here.
    fn head(&mut self) -> Result<Tok, Stop> {
        match self.raw()? {
            Some(Tok::NL) => Err(Stop::Unspecified),
            Some(t) => Ok(t),
            None => Err(REJECT),
        }
    }
    fn is_soft(&self) -> bool {
        self.i >= 2 && self.t.get(self.i - 2) == Some(&Tok::Soft)
    }
    fn name(&mut self) -> Result<String, Stop> {
        match self.head()? {
            Tok::Id(s) if RESERVED.contains(&s.as_str()) => Err(Stop::Unspecified),
            Tok::Id(s) if self.consts.contains_key(&s) => Err(REJECT),
            Tok::Id(s) => Ok(s),
            _ => Err(REJECT),
        }
    }
    fn run(&mut self) -> Result<Id, Stop> {
        let mut fresh = true;
        let mut first = true;
        loop {
            let t = match self.raw()? {
                None => return Err(REJECT),
                Some(t) => t,
            };
            match t {
                Tok::NL => {
                    fresh = true;
                    continue;
                }
                Tok::P(';') if !fresh => {
                    fresh = true;
                    continue;
                }
                // empty statements
                Tok::P(';') => return Err(if first { REJECT } else { Stop::Unspecified }),
                _ => {}
            }
            if !fresh {
                return Err(if self.is_soft() {
                    Stop::Unspecified
                } else {
                    REJECT
                });
            }
            first = false;
            let word = match &t {
                Tok::Id(s) => s.as_str(),
                _ => "",
            };
            match word {
                "const" => {
                    if self.dt == Dt::Json {
                        self.dt = Dt::Djs;
                    }
                    let n = self.name()?;
                    if self.head()? != Tok::P('=') {
                        return Err(REJECT);
                    }
                    let t = self.next()?;
                    let v = self.value(t)?;
                    self.consts.insert(n, v);
                    fresh = false;
                }
                "import" if self.dt != Dt::Cjs => {
                    self.dt = Dt::Mjs;
                    let n = self.name()?;
                    if self.head()? != Tok::Id("from".into()) {
                        return Err(REJECT);
                    }
                    match self.head()? {
                        Tok::Str(s) => {
                            let v = self.load.import(self.g, &s)?;
                            self.consts.insert(n, v);
                        }
                        _ => return Err(REJECT),
                    }
                    fresh = false;
                }
                "export" if self.dt != Dt::Cjs => {
                    self.dt = Dt::Mjs;
                    if self.head()? != Tok::Id("default".into()) {
                        return Err(REJECT);
                    }
                    let t = self.next()?;
                    return self.last(t);
                }
                "module" if self.dt != Dt::Mjs => {
                    self.dt = Dt::Cjs;
                    if self.head()? != Tok::P('.')
                        || self.head()? != Tok::Id("exports".into())
                        || self.head()? != Tok::P('=')
                    {
                        return Err(REJECT);
                    }
                    let t = self.next()?;
                    return self.last(t);
                }
                _ => return self.last(t),
            }
        }
    }
    fn last(&mut self, t: Tok) -> Result<Id, Stop> {
        let v = self.value(t)?;
        loop {
            match self.raw()? {
                None => return Ok(v),
                Some(Tok::NL) => {}
                Some(Tok::P(';')) => return Err(Stop::Unspecified),
                Some(_) => return Err(REJECT),
            }
        }
    }
    fn value(&mut self, t: Tok) -> Result<Id, Stop> {
        let v = match t {
            Tok::Num(b) => V::Num(b),
            Tok::Big(n, w) => {
                self.lenient |= self.dt == Dt::Json;
                V::Big(n, w)
            }
            Tok::Str(s) => V::Str(units(&s)),
            Tok::Id(s) => match s.as_str() {
                "null" => V::Null,
                "true" => V::Bool(true),
                "false" => V::Bool(false),
                "require" if self.dt != Dt::Mjs => {
                    self.dt = Dt::Cjs;
                    if self.next()? != Tok::P('(') {
                        return Err(REJECT);
                    }
                    let id = match self.next()? {
                        Tok::Str(s) => self.load.import(self.g, &s)?,
                        _ => return Err(REJECT),
                    };
                    if self.next()? != Tok::P(')') {
                        return Err(REJECT);
                    }
                    return Ok(id);
                }
                s => return self.consts.get(s).copied().ok_or(REJECT),
            },
            Tok::P('[') => {
                let mut v = vec![];
                loop {
                    match self.next()? {
                        Tok::P(']') => {
                            self.lenient |= self.dt == Dt::Json && !v.is_empty();
                            break;
                        }
                        t => {
                            let x = self.value(t)?;
                            v.push(x);
                        }
                    }
                    match self.next()? {
                        Tok::P(',') => {}
                        Tok::P(']') => break,
                        _ => return Err(REJECT),
                    }
                }
                V::Arr(v)
            }
            Tok::P('{') => {
                let mut v: Vec<(Vec<u16>, Id)> = vec![];
                let mut place = std::collections::BTreeMap::new();
                loop {
                    let k = match self.next()? {
                        Tok::P('}') => {
                            self.lenient |= self.dt == Dt::Json && !v.is_empty();
                            break;
                        }
                        Tok::Str(s) => units(&s),
                        Tok::Id(s) if self.dt != Dt::Json => units(&s),
                        _ => return Err(REJECT),
                    };
                    if self.next()? != Tok::P(':') {
                        return Err(REJECT);
                    }
                    let t = self.next()?;
                    let x = self.value(t)?;
                    match place.get(&k) {
                        Some(&i) => {
                            let e: &mut (Vec<u16>, Id) = &mut v[i];
                            e.1 = x
                        }
                        None => {
                            place.insert(k.clone(), v.len());
                            v.push((k, x))
                        }
                    }
                    match self.next()? {
                        Tok::P(',') => {}
                        Tok::P('}') => break,
                        _ => return Err(REJECT),
                    }
                }
                V::Obj(v)
            }
            _ => return Err(REJECT),
        };
        Ok(self.g.add(v))
    }
}

// ------------------------------------------------------------------ writing

#[derive(Clone, Copy)]
pub struct Layout {
    pub spaces: bool,
    pub comments: bool,
    pub newlines: bool,
    pub trailing_commas: bool,
    pub repeated_keys: bool,
    pub bare_keys: bool,
    /// Keys in another order.
    pub shuffle: bool,
}

pub const STRICT: Layout = Layout {
    spaces: true,
    comments: false,
    newlines: true,
    trailing_commas: false,
    repeated_keys: true,
    bare_keys: false,
    shuffle: false,
};
pub const LOOSE: Layout = Layout {
    comments: true,
    trailing_commas: true,
    bare_keys: true,
    ..STRICT
};

pub struct Writer<'a> {
    pub s: String,
    pub r: &'a mut Rng,
    pub l: Layout,
    /// Names of values.
    pub names: HashMap<Id, String>,
    /// Out of 100: how often there is something between two tokens.
    pub density: usize,
    /// Where the last token ends.
    end: usize,
}

impl<'a> Writer<'a> {
    pub fn new(r: &'a mut Rng, l: Layout) -> Writer<'a> {
        let density = *r.pick(&[0, 0, 10, 50]);
        Writer {
            s: String::new(),
            r,
            l,
            names: HashMap::new(),
            density,
            end: 0,
        }
    }

    fn comment(&mut self, lines: bool) {
        if lines && self.l.newlines && self.r.bool() {
            self.s.push_str("//");
            for _ in 0..self.r.below(6) {
                self.s.push_str(
                    ["x", "\"", "*/", "/*", " ", "const a", "}", "\\", "é"][self.r.below(9)],
                );
            }
            self.s.push('\n');
        } else {
            let mut t = String::new();
            for _ in 0..self.r.below(6) {
                t.push_str(["x", "\"", "//", "*", " ", "/", "]", "\\", "é"][self.r.below(9)]);
            }
            self.s.push_str("/*");
            while t.contains("*/") {
                t = t.replace("*/", "*");
            }
            self.s.push_str(&t);
            self.s.push_str("*/");
        }
    }

    /// Something that means nothing.
    pub fn gap(&mut self, lines: bool) {
        if !self.l.spaces {
            return;
        }
        while self.r.chance(self.density, 100) {
            match self.r.below(8) {
                0..=2 => self.s.push(' '),
                3 => self.s.push('\t'),
                4 | 5 if lines && self.l.newlines => {
                    if self.r.chance(1, 3) {
                        self.s.push('\r');
                    }
                    self.s.push('\n')
                }
                6 if self.l.comments => self.comment(lines),
                _ => self.s.push(' '),
            }
        }
    }

    pub fn tok(&mut self, t: &str) {
        self.s.push_str(t);
        self.end = self.s.len();
        self.gap(true);
    }

    pub fn string(&mut self, s: &[u16]) {
        let t = quote(self.r, s);
        self.tok(&t);
    }

    pub fn value(&mut self, g: &G, i: Id) {
        if let Some(n) = self.names.get(&i) {
            let n = n.clone();
            return self.tok(&n);
        }
        self.inline(g, i)
    }

    /// The value itself, whatever it is called.
    pub fn inline(&mut self, g: &G, i: Id) {
        match &g.nodes[i] {
            V::Num(b) => {
                let t = number(self.r, f64::from_bits(*b));
                self.tok(&t)
            }
            V::Bool(b) => self.tok(if *b { "true" } else { "false" }),
            V::Null => self.tok("null"),
            V::Str(s) => self.string(s),
            V::Big(neg, w) => {
                let d = Nat::from_words(w).to_dec();
                self.tok(&format!("{}{d}n", if *neg { "-" } else { "" }))
            }
            V::Arr(v) => {
                self.tok("[");
                for (k, &c) in v.iter().enumerate() {
                    self.value(g, c);
                    if k + 1 < v.len() || (self.l.trailing_commas && self.r.chance(1, 6)) {
                        self.tok(",");
                    }
                }
                self.tok("]");
            }
            V::Obj(v) => {
                let mut v: Vec<(Vec<u16>, Option<Id>)> =
                    v.iter().map(|(k, c)| (k.clone(), Some(*c))).collect();
                if self.l.shuffle {
                    self.r.shuffle(&mut v);
                }
                if self.l.repeated_keys && !v.is_empty() {
                    // mostly in one place, in large objects in several
                    let often = if v.len() > 20 { 4 } else { 1 };
                    for _ in 0..often {
                        if self.r.chance(often, 8) {
                            let at = self.r.below(v.len());
                            let from = self.r.below(at + 1);
                            let k = v[at].0.clone();
                            v.insert(from, (k, None));
                        }
                    }
                }
                self.tok("{");
                let n = v.len();
                for (k, (key, c)) in v.into_iter().enumerate() {
                    let text = String::from_utf16_lossy(&key);
                    if self.l.bare_keys && is_id(&text) && self.r.bool() {
                        self.tok(&text);
                    } else {
                        self.string(&key);
                    }
                    self.tok(":");
                    match c {
                        Some(c) => self.value(g, c),
                        None => {
                            let t = ["0", "null", "[1,[]]", "\"x\"", "{\"y\":{}}"][self.r.below(5)];
                            self.tok(t)
                        }
                    }
                    if k + 1 < n || (self.l.trailing_commas && self.r.chance(1, 6)) {
                        self.tok(",");
                    }
                }
                self.tok("}");
            }
        }
    }
}

/// A string literal, with random escapes.
pub fn quote(r: &mut Rng, s: &[u16]) -> String {
    let mut t = String::from("\"");
    let some = r.chance(1, 3);
    let esc = |r: &mut Rng, t: &mut String, u: u16| {
        let h = if r.bool() {
            format!("{u:04x}")
        } else {
            format!("{u:04X}")
        };
        t.push_str("\\u");
        t.push_str(&h);
    };
    for c in char::decode_utf16(s.iter().copied()) {
        match c {
            Err(e) => esc(r, &mut t, e.unpaired_surrogate()),
            Ok(c) => {
                let short = match c {
                    '"' => Some('"'),
                    '\\' => Some('\\'),
                    '/' => Some('/'),
                    '\u{8}' => Some('b'),
                    '\u{c}' => Some('f'),
                    '\n' => Some('n'),
                    '\r' => Some('r'),
                    '\t' => Some('t'),
                    _ => None,
                };
                let must = (c as u32) < 0x20 || c == '"' || c == '\\';
                if must || (some && r.chance(1, 4)) {
                    match short {
                        Some(e) if r.chance(3, 4) => {
                            t.push('\\');
                            t.push(e);
                        }
                        _ => {
                            let mut b = [0; 2];
                            for u in c.encode_utf16(&mut b) {
                                esc(r, &mut t, *u);
                            }
                        }
                    }
                } else {
                    t.push(c);
                }
            }
        }
    }
    t.push('"');
    t
}

/// A literal that denotes this very number.
pub fn number(r: &mut Rng, f: f64) -> String {
    if f == f64::INFINITY {
        return ["1e400", "1e1000", "99e99999999999999999999"][r.below(3)].into();
    }
    if f == f64::NEG_INFINITY {
        return ["-1e400", "-1e1000", "-1.5E+12345678901234567890"][r.below(3)].into();
    }
    let s = match r.below(8) {
        0..=3 => format!("{f}"),
        4 => format!("{f:e}"),
        5 => format!("{f:E}")
            .replace('E', if r.bool() { "E+" } else { "e" })
            .replace("+-", "-"),
        6 => format!("{f:.17e}"),
        _ => {
            let s = format!("{f:e}");
            let (m, e) = s.split_once('e').unwrap();
            let m = if m.contains('.') {
                format!("{m}000")
            } else {
                format!("{m}.0")
            };
            format!(
                "{m}e{}00{}",
                if e.starts_with('-') { "-" } else { "" },
                e.trim_start_matches('-')
            )
        }
    };
    debug_assert!(s.parse::<f64>().unwrap().to_bits() == f.to_bits(), "{s}");
    s
}

/// A JSON text for the value.
pub fn write_json(r: &mut Rng, g: &G, l: Layout) -> String {
    let mut w = Writer::new(r, l);
    w.gap(true);
    w.value(g, g.root);
    w.s
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    Bare,
    Mjs,
    Cjs,
}

const NAMES: [&str; 16] = [
    "a", "b", "c", "x", "y1", "_", "$", "_0", "_1", "constant", "from", "exported", "Null",
    "requires", "nul", "truE",
];

/// A module for the value. `imports` tells which values come from other modules, and their paths.
pub fn write_module(
    r: &mut Rng,
    g: &G,
    root: Id,
    style: Style,
    imports: &[(Id, String)],
    l: Layout,
) -> String {
    // what the module contains
    let ext: BTreeMap<Id, &String> = imports.iter().map(|(i, p)| (*i, p)).collect();
    let mut refs: HashMap<Id, usize> = HashMap::new();
    let mut order: Vec<Id> = vec![];
    let mut todo = vec![root];
    refs.insert(root, 1);
    while let Some(i) = todo.pop() {
        order.push(i);
        if ext.contains_key(&i) {
            continue;
        }
        for c in g.children(i) {
            let e = refs.entry(c).or_insert(0);
            *e += 1;
            if *e == 1 {
                todo.push(c);
            }
        }
    }
    order.sort();
    let often = *r.pick(&[0, 5, 30, 90]);
    let mut named: Vec<Id> = vec![];
    for &i in &order {
        let must = g.is_container(i) && refs[&i] > 1;
        let inline_require = ext.contains_key(&i) && style == Style::Cjs && r.chance(1, 3);
        if (ext.contains_key(&i) && !inline_require)
            || (!ext.contains_key(&i) && (must || r.chance(often, 100)))
        {
            named.push(i);
        }
    }
    // definitions in any order that works
    let mut out: Vec<Id> = vec![];
    let set: HashSet<Id> = named.iter().copied().collect();
    let mut done: HashSet<Id> = HashSet::new();
    fn visit(
        g: &G,
        i: Id,
        set: &HashSet<Id>,
        ext: &BTreeMap<Id, &String>,
        done: &mut HashSet<Id>,
        out: &mut Vec<Id>,
    ) {
        if !done.insert(i) {
            return;
        }
        if !ext.contains_key(&i) {
            for c in g.children(i) {
                visit(g, c, set, ext, done, out);
            }
        }
        if set.contains(&i) {
            out.push(i);
        }
    }
    if r.bool() {
        r.shuffle(&mut named);
    }
    for &i in &named {
        visit(g, i, &set, &ext, &mut done, &mut out);
    }
    let taken_names: &mut HashSet<String> = &mut HashSet::new();
    let mut w = Writer::new(r, l);
    if style == Style::Bare && out.is_empty() {
        // this is JSON, where keys are quoted
        w.l.bare_keys = false;
    }
    let mut inline: BTreeMap<Id, String> = BTreeMap::new();
    for (&i, p) in &ext {
        if !set.contains(&i) {
            inline.insert(i, p.to_string());
        }
    }
    for (&i, p) in &inline {
        let q = quote(w.r, &units(p));
        w.names.insert(i, format!("require({q})"));
    }
    w.gap(true);
    let mut last: Vec<String> = vec![];
    let mut fresh = |w: &mut Writer, taken: &mut HashSet<String>| loop {
        let mut n = NAMES[w.r.below(NAMES.len())].to_string();
        if !last.is_empty() && w.r.chance(1, 4) {
            // a name like another one
            n = last[w.r.below(last.len())].clone();
            let c = ["a", "Z", "_", "$", "0", "9", "n"][w.r.below(7)];
            match w.r.below(6) {
                0 => n.push_str(c),
                1 => n.insert_str(1, c),
                2 => n = format!("{}{n}", ["a", "Z", "_", "$"][w.r.below(4)]),
                3 if n.len() > 1 => drop(n.pop()),
                4 => {
                    n = n
                        .chars()
                        .map(|c| {
                            if c.is_lowercase() {
                                c.to_ascii_uppercase()
                            } else {
                                c.to_ascii_lowercase()
                            }
                        })
                        .collect()
                }
                _ if n.len() < 300 => n = format!("{}{n}{c}", "long".repeat(w.r.range(1, 70))),
                _ => n.push_str(c),
            }
        } else if w.r.chance(1, 2) {
            n.push_str(&w.r.below(1000).to_string());
        }
        if !RESERVED.contains(&n.as_str()) && n != "require" && taken.insert(n.clone()) {
            last.push(n.clone());
            return n;
        }
    };
    for &i in &out {
        let n = fresh(&mut w, taken_names);
        match ext.get(&i) {
            Some(p) => {
                let q = quote(w.r, &units(p));
                if style == Style::Mjs {
                    w.s.push_str("import ");
                    w.gap(false);
                    w.s.push_str(&n);
                    w.s.push(' ');
                    w.gap(false);
                    w.s.push_str("from");
                    w.gap(false);
                    w.s.push_str(&q);
                } else {
                    w.s.push_str("const ");
                    w.gap(false);
                    w.s.push_str(&n);
                    w.gap(false);
                    w.s.push('=');
                    w.gap(true);
                    w.tok("require");
                    w.tok("(");
                    w.tok(&q);
                    w.s.push(')');
                }
            }
            None => {
                w.s.push_str("const ");
                w.gap(false);
                w.s.push_str(&n);
                w.gap(false);
                w.s.push('=');
                w.gap(true);
                w.inline(g, i);
            }
        }
        w.names.insert(i, n.clone());
        end_statement(&mut w);
        if w.r.chance(1, 20) {
            // another name for the same value, or a value that nobody uses
            let m = fresh(&mut w, taken_names);
            w.s.push_str("const ");
            w.s.push_str(&m);
            w.s.push('=');
            if w.r.bool() {
                w.s.push_str(&n);
                w.names.insert(i, m);
            } else {
                w.s.push_str("[1,{}]");
            }
            end_statement(&mut w);
        }
    }
    match style {
        Style::Bare => {}
        Style::Mjs => {
            w.s.push_str("export ");
            w.gap(false);
            w.s.push_str("default ");
            w.gap(true);
        }
        Style::Cjs => {
            w.s.push_str("module");
            w.gap(false);
            w.s.push('.');
            w.gap(false);
            w.s.push_str("exports");
            w.gap(false);
            w.s.push('=');
            w.gap(true);
        }
    }
    w.value(g, root);
    w.s
}

fn end_statement(w: &mut Writer) {
    w.gap(false);
    // after a line break, a semicolon would be an empty statement
    let ended = w.s[w.end.min(w.s.len())..].contains('\n');
    match if ended { 3 } else { w.r.below(4) } {
        0 => w.s.push(';'),
        1 => w.s.push_str(";\n"),
        2 => w.s.push_str("//;\n"),
        _ => w.s.push('\n'),
    }
    // a semicolon, then a line break: nothing of them is an empty statement
    w.gap(true);
}

// ------------------------------------------------------------------ breaking texts

/// Spans of tokens, roughly.
pub fn spans(t: &str) -> Vec<(usize, usize)> {
    let b = t.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let from = i;
        let c = b[i];
        if c == b'"' {
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i = (i + 1).min(b.len());
        } else if c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c == b'-' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b"_$-+.".contains(&b[i])) {
                i += 1;
            }
        } else {
            i += 1;
            while i < b.len() && !t.is_char_boundary(i) {
                i += 1;
            }
        }
        while i < b.len() && !t.is_char_boundary(i) {
            i += 1;
        }
        if !c.is_ascii_whitespace() {
            v.push((from, i));
        }
    }
    v
}

pub const SCRAPS: [&str; 44] = [
    "{",
    "}",
    "[",
    "]",
    ":",
    ",",
    "=",
    ";",
    "(",
    ")",
    ".",
    "null",
    "true",
    "1",
    "-0",
    "1.5e3",
    "12n",
    "\"s\"",
    "\"a\":",
    "const",
    "const a=1\n",
    "const b=[a];",
    "export default ",
    "module.exports=",
    "import a from \"x\"\n",
    "require(\"x\")",
    "require",
    "import",
    "export",
    "default",
    "module",
    "exports",
    "from",
    "a",
    "b",
    "\n",
    "//c\n",
    "/*c*/",
    "\"",
    "\\",
    "-",
    "1e",
    "/",
    "é",
];

/// A word which resembles another.
pub fn near(r: &mut Rng, w: &str) -> String {
    let mut v: Vec<char> = w.chars().collect();
    let i = r.below(v.len().max(1));
    match r.below(9) {
        _ if v.is_empty() => v.push('x'),
        0 => v = v.iter().map(|c| c.to_ascii_uppercase()).collect(),
        1 => {
            v[0] = if v[0].is_ascii_lowercase() {
                v[0].to_ascii_uppercase()
            } else {
                v[0].to_ascii_lowercase()
            }
        }
        2 => {
            v[i] = if v[i].is_ascii_lowercase() {
                v[i].to_ascii_uppercase()
            } else {
                v[i].to_ascii_lowercase()
            }
        }
        3 => {
            v.pop();
        }
        4 => {
            v.remove(0);
        }
        5 => v.push(*r.pick(&['s', '_', '0', 'x', '$', '.', ' '])),
        6 => v.insert(i, v[i]),
        7 if v.len() > 1 => v.swap(i, (i + 1) % w.chars().count()),
        _ => v.insert(0, *r.pick(&['_', '$', 'a', '.', ' '])),
    }
    v.into_iter().collect()
}

/// One or a few small changes.
pub fn mutate(r: &mut Rng, t: &str) -> String {
    let mut t = t.to_string();
    let n = if r.chance(2, 3) { 1 } else { r.range(1, 4) };
    for _ in 0..n {
        let s = spans(&t);
        match r.below(11) {
            10 if s.iter().any(|x| is_id(&t[x.0..x.1])) => {
                // another word
                let w: Vec<_> = s.into_iter().filter(|x| is_id(&t[x.0..x.1])).collect();
                let (a, b) = *r.pick(&w);
                let x = near(r, &t[a..b]);
                t.replace_range(a..b, &x);
            }
            0 if !t.is_empty() => {
                // cut
                let mut at = r.below(t.len());
                while !t.is_char_boundary(at) {
                    at -= 1;
                }
                t.truncate(at);
            }
            1 if !t.is_empty() => {
                // one character
                let mut at = r.below(t.len());
                while !t.is_char_boundary(at) {
                    at -= 1;
                }
                match r.below(3) {
                    0 => {
                        t.remove(at);
                    }
                    1 => t.insert(at, crate::val::gen_char(r)),
                    _ => {
                        t.remove(at);
                        t.insert(
                            at,
                            *r.pick(&[
                                '"', '\\', ',', ':', '[', ']', '{', '}', '0', 'e', '\n', ';', ' ',
                                '/',
                            ]),
                        );
                    }
                }
            }
            2 | 3 if !s.is_empty() => {
                // drop a token
                let (a, b) = *r.pick(&s);
                t.replace_range(a..b, if r.bool() { "" } else { " " });
            }
            4 if !s.is_empty() => {
                // twice
                let (a, b) = *r.pick(&s);
                let x = t[a..b].to_string();
                t.insert_str(b, &format!("{}{x}", if r.bool() { "" } else { " " }));
            }
            5 if s.len() > 1 => {
                // two tokens swapped
                let k = r.below(s.len() - 1);
                let x = t[s[k].0..s[k].1].to_string();
                let gap = t[s[k].1..s[k + 1].0].to_string();
                let y = t[s[k + 1].0..s[k + 1].1].to_string();
                t.replace_range(s[k].0..s[k + 1].1, &format!("{y}{gap}{x}"));
            }
            6 | 7 if !s.is_empty() => {
                let (a, b) = *r.pick(&s);
                t.replace_range(a..b, SCRAPS[r.below(SCRAPS.len())]);
            }
            _ => {
                let at = if s.is_empty() || r.chance(1, 10) {
                    t.len()
                } else {
                    r.pick(&s).0
                };
                t.insert_str(at, SCRAPS[r.below(SCRAPS.len())]);
            }
        }
    }
    t
}

/// Tokens at random.
/// Texts of which one dimension has exactly that length. The first `SIZED_JSON` ones are JSON.
pub const SIZED: usize = 24;
pub const SIZED_JSON: usize = 8;
pub fn sized(r: &mut Rng, dim: usize, n: usize) -> String {
    let end = *r.pick(&["export default ", "module.exports=", ""]);
    let few = n.min(3000);
    let digits = |r: &mut Rng, n: usize| {
        (0..n)
            .map(|_| (b'1' + r.below(9) as u8) as char)
            .collect::<String>()
    };
    let consts = |f: &dyn Fn(usize) -> String| {
        (0..n)
            .map(|i| format!("const c{i}={}\n", f(i)))
            .collect::<String>()
    };
    match dim {
        0 => {
            let w: String = (0..n).map(|_| *r.pick(&[' ', '\n', '\t', '\r'])).collect();
            match r.below(4) {
                0 => format!("{w}[1,2]"),
                1 => format!("[1{w},2]"),
                2 => format!("{{\"a\":{w}1}}"),
                _ => format!("[1,2]{w}"),
            }
        }
        1 => format!("[{}]", digits(r, few.max(1))),
        2 => format!("[0.{}1]", "0".repeat(few)),
        3 => format!("[1.5e{}{}5]", *r.pick(&["", "+", "-"]), "0".repeat(few)),
        4 => format!("{{{}\"a\":1}}", "\"a\":0,".repeat(n)),
        5 => format!(
            "\"{}\"",
            (0..n)
                .map(|_| *r.pick(&["\\n", "\\u0041", "\\\"", "\\u00e9", "\\uD83D\\uDE00"]))
                .collect::<String>()
        ),
        6 => format!("[{}.{}]", digits(r, few.max(1)), digits(r, few.max(1))),
        7 => format!("[{}1{}]", "[".repeat(n.min(1000)), "]".repeat(n.min(1000))),
        8 => format!("/*{}*/{end}[1]", "x".repeat(n)),
        9 => format!("[1]//{}\n", "x".repeat(n)),
        10 => format!("{}[1]{}", "/**/".repeat(n), "//\n".repeat(n)),
        11 => {
            let l: Vec<_> = (0..n).map(|i| format!("c{}", n - 1 - i)).collect();
            format!("{}{end}[{}]", consts(&|_| "[]".into()), l.join(","))
        }
        12 => format!(
            "{}{end}[{}]",
            consts(&|i| i.to_string()),
            if n > 0 {
                format!("c0,c{},c{}", n / 2, n - 1)
            } else {
                "".into()
            }
        ),
        13 => {
            let a = "n".repeat(n.max(1));
            format!("const {a}=[1]\nconst {a}n=[2]\n{end}[{a},{a}n,{a}]")
        }
        14 => format!(
            "const a=[1]\nconst b={{}}\n{end}[{}1]",
            (0..n)
                .map(|i| if i % 7 == 0 { "b," } else { "a," })
                .collect::<String>()
        ),
        15 => format!("{}{end}[c{n}]", consts(&|_| "1".into())), // no such name
        16 => format!(
            "const a={}{}n\n{end}a",
            *r.pick(&["", "-"]),
            digits(r, few.max(1))
        ),
        17 => {
            // a name of that length, quoted or not, as a key
            let a = "k".repeat(n.max(1));
            format!("{end}{{{a}:1,\"{a}k\":2,{a}kk:3}}").replacen(
                "{k",
                if end.is_empty() { "{ k" } else { "{k" },
                1,
            )
        }
        18 => {
            let k = n.min(400);
            let l: String = (1..=k)
                .map(|i| format!("const c{i}=[c{}]\n", i - 1))
                .collect();
            format!("const c0=1\n{l}{end}c{k}")
        }
        19 => {
            let k = n.min(3000);
            let l: String = (0..k).map(|i| format!("const c{i}={{a:{i}}};")).collect();
            format!(
                "{l}{end}[{}]",
                (0..k)
                    .map(|i| format!("c{i}"))
                    .collect::<Vec<_>>()
                    .join(",")
            )
        }
        20 => format!("const a=1{}{end}a", "\n".repeat(n + 1)),
        21 => format!("{end}[{}1]", "\n".repeat(n)),
        22 => {
            // the same constant again, after that many others
            format!(
                "const c=[1]\n{}const c=[2]\n{end}c",
                consts(&|_| "0".into())
            )
        }
        _ => {
            // an object of that many unquoted keys
            let k = n.max(1);
            format!(
                "{end}{{{}}}",
                (0..k)
                    .map(|i| format!("k{i}:{i}"))
                    .collect::<Vec<_>>()
                    .join(",")
            )
        }
    }
}

pub fn soup(r: &mut Rng) -> String {
    let mut t = String::new();
    for _ in 0..r.size(30) {
        t.push_str(SCRAPS[r.below(SCRAPS.len())]);
        if r.chance(1, 3) {
            t.push(' ');
        }
    }
    t
}

pub fn clip(t: &str) -> String {
    let s = show(&units(t));
    if s.len() > 700 {
        format!("{}...", s.chars().take(700).collect::<String>())
    } else {
        s
    }
}

pub const WORDS_ID: [&str; 20] = [
    "a", "b1", "_", "$", "$_9", "null", "true", "false", "const", "export", "default", "import",
    "from", "require", "module", "exports", "n", "e5", "u0041", "Zz",
];

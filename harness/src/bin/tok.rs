//! T01 and T02: tokens against an independent lexer, range maps against a pointwise model.
use nanvm_lib::{
    mem::{
        global::{Global, GLOBAL},
        manager::Manager,
    },
    parser::analyzer::AnalyzerState,
    range_map::{from_one, from_range, merge, merge_list, Entry, RangeMap, State, Union},
    static_ref_default::StaticRefDefault,
    tokenizer::{create_transition_maps, tokenize, TokenizerState, TransitionMaps},
};
use nanvm_monitor::{
    ensure, kind,
    run::{args, drive, guarded, hash_str, mix, Case, Kind, Rng, Tier, R},
    text::{self, lex, lex_on, tidy, Layout, Style, Tok, LOOSE},
    toks::{eager, lazy, tok, until_error},
    track::{self, Track},
    val::{gen_char, gen_graph, DATA},
};
use std::cell::OnceCell;

fn check(c: &mut Case, t: &str) -> R {
    let got = eager(GLOBAL, t);
    let l = lex_on(t);
    let lz = lazy(GLOBAL, t)?;
    ensure!(
        lz == got,
        "lazily {:?}, eagerly {:?} from {}",
        brief(&lz),
        brief(&got),
        text::clip(t)
    );
    let mut want = &l.toks[..];
    let mut short = &got[..];
    if let Some(n) = l.unspecified {
        want = &want[..n];
        short = &short[..n.min(short.len())];
    }
    let (a, b) = (tidy(short), tidy(want));
    if let Some(i) = b.iter().position(|x| *x == Tok::Err) {
        c.ev("tokens after errors", (b.len() - i - 1) as u64);
    }
    if a != b {
        let at = a
            .iter()
            .zip(&b)
            .position(|(x, y)| x != y)
            .unwrap_or(a.len().min(b.len()));
        return Err(format!(
            "token {at} is {}, not {}, of {}",
            a.get(at)
                .map(|x| brief(std::slice::from_ref(x)))
                .unwrap_or("missing".into()),
            b.get(at)
                .map(|x| brief(std::slice::from_ref(x)))
                .unwrap_or("nothing".into()),
            text::clip(t)
        ));
    }
    for x in &b {
        c.ev(
            match x {
                Tok::Str(_) => "strings",
                Tok::Num(_) => "numbers",
                Tok::Big(..) => "big integers",
                Tok::Id(_) => "identifiers",
                Tok::P(_) => "punctuation",
                Tok::NL | Tok::Soft => "line breaks",
                Tok::Err => "errors",
            },
            1,
        );
    }
    if l.comments {
        c.ev("texts with comments", 1);
    }
    if b.len() > 1 || b.first() != Some(&Tok::Err) {
        c.sig(hash_str(t));
    }
    Ok(())
}

fn brief(v: &[Tok]) -> String {
    let s = format!("{v:?}");
    s.chars().take(300).collect()
}

// ------------------------------------------------------------------ T01

/// Texts which leave the tokenizer in every state.
const PREFIXES: [&str; 66] = [
    "",
    "a",
    "a1",
    "_$",
    "Az",
    "\"",
    "\"a",
    "\"\\",
    "\"a\\n",
    "\"\\u",
    "\"\\u0",
    "\"\\u00",
    "\"\\u004",
    "\"\\u0041",
    "\"\\uD8",
    "\"\\uD83D",
    "\"\\uD83D\\",
    "\"\\uD83D\\u",
    "\"\\uD83D\\uDE0",
    "\"\\uD83D\\uDE00",
    "\"\\ud83d\\ud83d",
    "\"\\uDC00",
    "\"x\"",
    "\"\"",
    "0",
    "-",
    "-0",
    "1",
    "-1",
    "12",
    "90",
    "0.",
    "1.",
    "0.5",
    "1.25",
    "-1.0",
    "0e",
    "1E",
    "1.5e",
    "1e+",
    "1e-",
    "1e5",
    "1e-07",
    "0E0",
    "1n",
    "0n",
    "-5n",
    "-0n",
    "\n",
    "\n ",
    "\n\n\t",
    " ",
    "\t\r",
    "/",
    "//",
    "// x",
    "//\n",
    "/*",
    "/**",
    "/* x *",
    "/**/",
    "{",
    "}",
    ".",
    ";",
    "/* \n */",
];

const AFTER: [&str; 7] = ["", " ", "1", "a\n", "\"", "*/x", "0041\"]"];

fn alphabet(i: u64) -> Option<char> {
    const MORE: [char; 22] = [
        '\u{80}',
        '\u{85}',
        '\u{a0}',
        'é',
        'ß',
        'π',
        '\u{d7ff}',
        '\u{e000}',
        '\u{fffd}',
        '\u{feff}',
        '\u{2028}',
        '\u{2029}',
        '\u{10000}',
        '\u{1f600}',
        '\u{10ffff}',
        '０',
        '１',
        'ａ',
        '″',
        '\u{7ff}',
        '\u{800}',
        '\u{ffff}',
    ];
    match i {
        0..=127 => char::from_u32(i as u32),
        _ => MORE.get(i as usize - 128).copied(),
    }
}

fn t01_states(c: &mut Case) -> R {
    // every state, every kind of character, some ends
    let n = c.index;
    let p = PREFIXES[(n % 66) as usize];
    let x = alphabet(n / 66 % 150).unwrap();
    let y = alphabet(mix(n) % 150).unwrap();
    for a in AFTER {
        check(c, &format!("{p}{x}{a}"))?;
    }
    check(c, &format!("{p}{x}{y}"))?;
    check(c, &format!("{p}{x}{p}{x}"))?;
    c.sample(|| format!("after {p:?}: {x:?}"));
    c.sig(n);
    Ok(())
}

fn piece(r: &mut Rng) -> String {
    match r.below(22) {
        0..=2 => text::WORDS_ID[r.below(text::WORDS_ID.len())].to_string(),
        3 => {
            let v: Vec<u16> = (0..r.below(6))
                .flat_map(|_| {
                    let mut b = [0; 2];
                    gen_char(r).encode_utf16(&mut b).to_vec()
                })
                .collect();
            text::quote(r, &v)
        }
        4 => {
            // digits of every length
            let n = r.size(60) + 1;
            (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
        }
        5 => format!("{}", r.below(1000)),
        6 => format!("-{}", r.below(1000)),
        7 => format!("{}.{}", r.below(100), r.below(1000)),
        8 => format!(
            "{}e{}{}",
            r.below(100),
            ["", "+", "-"][r.below(3)],
            r.below(400)
        ),
        9 => format!(
            "{}{}n",
            if r.bool() { "-" } else { "" },
            r.u64() >> r.below(64)
        ),
        10..=14 => PUNCTS[r.below(PUNCTS.len())].to_string(),
        15 | 16 => [" ", "\n", "\t", "\r", "\r\n", "  \n "][r.below(6)].to_string(),
        17 => [
            "//x\n", "//\r", "/**/", "/*\n*/", "/* a **/", "//\"\n", "/***/",
        ][r.below(7)]
        .to_string(),
        18 => gen_char(r).to_string(),
        19 => [
            "\\u0041", "\\", "\\n", "\"", "\"\\u12", "\\uD83D", "\\uDE00",
        ][r.below(7)]
        .to_string(),
        20 => [
            "1e", "1.", "-", "0x1", "01", "1n2", ".5", "+1", "1_0", "1.n",
        ][r.below(10)]
        .to_string(),
        _ => alphabet(r.below(150) as u64).unwrap().to_string(),
    }
}

const PUNCTS: [&str; 11] = ["{", "}", "[", "]", ":", ",", "=", ";", "(", ")", "."];

fn t01_pieces(c: &mut Case) -> R {
    let mut t = String::new();
    let tight = c.rng.bool();
    for _ in 0..1 + c.rng.size(if c.tier == Tier::Tiny { 6 } else { 24 }) {
        let p = piece(&mut c.rng);
        t.push_str(&p);
        if !tight && c.rng.bool() {
            t.push(*c.rng.pick(&[' ', '\n', ' ', '\t']));
        }
    }
    c.sample(|| text::clip(&t));
    check(c, &t)?;
    if c.rng.chance(1, 8) {
        equality(c, &t)?;
    }
    Ok(())
}

/// Tokens are equal exactly when their kind and content are.
fn equality(c: &mut Case, t: &str) -> R {
    let a = tokenize(GLOBAL, t.to_string());
    let b = tokenize(GLOBAL, t.to_string());
    let x: Vec<Tok> = a.iter().map(tok).collect();
    for i in 0..a.len() {
        for j in 0..b.len() {
            let want = match (&x[i], &x[j]) {
                // kinds of errors are not compared, nor what numbers are to each other
                (Tok::Err, Tok::Err) if i != j => continue,
                (Tok::Num(p), Tok::Num(q)) => f64::from_bits(*p) == f64::from_bits(*q),
                (p, q) => p == q,
            };
            ensure!(
                (a[i] == b[j]) == want,
                "{:?} and {:?} are{} equal",
                x[i],
                x[j],
                if want { " not" } else { "" }
            );
        }
    }
    c.ev(
        "tokens compared with each other",
        (a.len() * b.len()) as u64,
    );
    Ok(())
}

/// Whole modules, and modules with small damage.
fn t01_texts(c: &mut Case) -> R {
    let g = gen_graph(&mut c.rng, &DATA);
    let style = *c.rng.pick(&[Style::Bare, Style::Mjs, Style::Cjs]);
    let l = Layout {
        shuffle: true,
        ..LOOSE
    };
    let mut t = text::write_module(&mut c.rng, &g, g.root, style, &[], l);
    if c.rng.chance(2, 3) {
        t = text::mutate(&mut c.rng, &t);
    }
    c.sample(|| text::clip(&t));
    check(c, &t)
}

/// Every length of every dimension.
fn t01_sizes(c: &mut Case) -> R {
    let (dim, n) = c.sweep(text::SIZED + 6);
    let r = &mut c.rng;
    let t = match dim.checked_sub(text::SIZED) {
        None => text::sized(r, dim, n),
        Some(k) => {
            let x = *r.pick(&["a", "b1", "1,", "\"s\"", "\n", "@"]);
            match k {
                0 => "a".repeat(n) + x,
                1 => format!("\"{}\"{x}", "b".repeat(n)),
                2 => format!("{}n{x}", "7".repeat(n.clamp(1, 3000))),
                3 => "[".repeat(n) + x,
                4 => "@".repeat(n) + x,
                _ => format!("\"{}", "b".repeat(n)),
            }
        }
    };
    c.ev("lengths", 1);
    check(c, &t)
}

/// Tokens, gaps and token lists longer than 16-bit counters hold.
fn t01_vast(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.vast();
    let fill = |r: &mut Rng, f: &[&str]| -> String { (0..n).map(|_| *r.pick(f)).collect() };
    let long = match if r.chance(1, 16) {
        r.range(13, 15)
    } else {
        r.below(13)
    } {
        0 => {
            fill(r, &["a", "Z", "_", "$", "0", "9"]).replacen(|x: char| x.is_ascii_digit(), "x", 1)
                + "x"
        }
        1 => format!(
            "\"{}\"",
            (0..n)
                .map(|_| gen_char(r))
                .filter(|&x| x >= ' ' && x != '"' && x != '\\')
                .collect::<String>()
        ),
        2 => format!(
            "\"{}\"",
            fill(
                r,
                &[
                    "\\n",
                    "\\\"",
                    "\\u0041",
                    "\\u00e9",
                    "\\uD83D\\uDE00",
                    "a",
                    "\\\\"
                ]
            )
        ),
        3 => format!("\"{}", fill(r, &["x", "/", "*", "'"])),
        4 => fill(r, &[" ", "\t", "\r", " "]),
        5 => fill(r, &["\n", " ", "\n"]),
        6 => format!(
            "/*{}*/",
            fill(r, &["*", "/", " ", "\n", "x", "\""]).replace("*/", "**")
        ),
        7 => format!("/*{}", fill(r, &["*", " ", "\n"])),
        8 => format!("//{}\n", fill(r, &["/", "*", " ", "x", "\""])),
        9 => fill(r, &["//\n", "/**/", "\n", "//x\n"]),
        10 => fill(r, &["[", "]", "{", "}", ",", ":", "(", ")", ";", "=", "."]),
        11 => fill(r, &["@", "#", "-"]),
        12 => fill(r, &["1,", "a ", "\"\"", "0n ", "null;", "1.5 "]),
        13 => format!("0.{}1", "0".repeat(n)),
        14 => format!(
            "{}1e{}{}",
            if r.bool() { "-" } else { "" },
            if r.bool() { "-" } else { "+" },
            fill(r, &["0", "9", "5"])
        ),
        _ => {
            let d: String = (0..n / 4)
                .map(|_| (b'0' + r.below(10) as u8) as char)
                .collect();
            format!("7{d}{}", *r.pick(&["", "n", ".5", "e-65536"]))
        }
    };
    let before = *r.pick(&["", "a", "1", "\"s\"", "[", "x=", "\n", "-", "/"]);
    let after = *r.pick(&["", " b", ",2", "\"t\"", "]", "\n1", "@ 1", "x"]);
    let t = format!("{before}{long}{after}");
    c.ev("texts of over 65000 parts", 1);
    c.sample(|| text::clip(&t));
    check(c, &t)
}

fn t01_strings(c: &mut Case) -> R {
    let mut t = String::from("\"");
    let r = &mut c.rng;
    for _ in 0..r.size(60) {
        match r.below(12) {
            0..=2 => {
                let x = gen_char(r);
                t.push(x);
            }
            3 | 4 => {
                t.push('\\');
                t.push(*r.pick(&['"', '\\', '/', 'b', 'f', 'n', 'r', 't']));
            }
            5..=7 => {
                let u = match r.below(4) {
                    0 => r.below(0x80),
                    1 => *r.pick(&[0, 0xD7FF, 0xE000, 0xFFFF, 0x22, 0x5C, 0x2028]),
                    _ => loop {
                        let u = r.below(0x10000);
                        if !(0xD800..0xE000).contains(&u) {
                            break u;
                        }
                    },
                };
                t.push_str(&hex(r, u));
            }
            8 | 9 => {
                let h = 0xD800 + r.below(0x400);
                let l = 0xDC00 + r.below(0x400);
                let s = hex(r, h) + &hex(r, l);
                t.push_str(&s);
            }
            10 if r.chance(1, 4) => {
                // a surrogate on its own, or an escape that does not exist
                let u = 0xD800 + r.below(0x800);
                let s = match r.below(4) {
                    0 => format!("\\{}", gen_char(r)),
                    1 => format!("\\u{}", &hex(r, u)[2..4]),
                    2 => hex(r, u) + "\\n",
                    _ => hex(r, u),
                };
                t.push_str(&s);
            }
            _ => t.push(*r.pick(&['a', 'Z', '0', ' ', '/', '*', '\'', 'u'])),
        }
    }
    t.push_str(*r.pick(&["\"", "\"", "\"", "\"\"", "", "\" ", "\"x", "\"1"]));
    c.sample(|| text::clip(&t));
    check(c, &t)
}

fn hex(r: &mut Rng, u: usize) -> String {
    let s = format!("{u:04x}");
    let s: String = s
        .chars()
        .map(|c| if r.bool() { c.to_ascii_uppercase() } else { c })
        .collect();
    format!("\\u{s}")
}

thread_local! {
    static MAPS: OnceCell<&'static TransitionMaps<nanvm_lib::mem::global::Global>> = const { OnceCell::new() };
}

/// Every character: at the start, in an identifier, in a string, after a digit.
fn t01_chars(c: &mut Case) -> R {
    let maps = MAPS.with(|m| *m.get_or_init(|| Box::leak(Box::new(create_transition_maps()))));
    let starts = [
        "", "a", "\"", "1", "\"\\", "/", "0.5", "1n", "\n", "/*", "[", "\"\\u",
    ];
    let lo = (c.index * 0x400) as u32;
    for u in lo..lo + 0x400 {
        let x = match char::from_u32(u) {
            Some(x) => x,
            None => continue,
        };
        for s in starts {
            let mut st = TokenizerState::default();
            let mut got: Vec<Tok> = vec![];
            for y in s.chars().chain([x, '\n', '1']) {
                got.extend(st.push_mut(GLOBAL, y, maps).iter().map(tok));
            }
            let t: String = s.chars().chain([x, '\n', '1']).collect();
            let l = lex(&t);
            if l.unspecified.is_some() {
                continue;
            }
            // what was recognized before the end of the text
            let mut want = tidy(&l.toks);
            let got = tidy(until_error(&got));
            if want.last() == Some(&Tok::Num(1f64.to_bits())) && t.len() > 1 {
                want.pop();
            }
            if want.last() == Some(&Tok::Err) && got.last() != Some(&Tok::Err) {
                // an unfinished string or comment is noticed at the end
                want.pop();
                let ends = s.starts_with('"') || s.starts_with('/') || x == '"' || x == '/';
                ensure!(ends, "no error for U+{u:x} after {s:?}");
            }
            let (got, want) = (tidy(&got), tidy(&want));
            ensure!(
                got == want,
                "U+{u:x} after {s:?}: {} not {}",
                brief(&got),
                brief(&want)
            );
        }
        c.ev("characters in all states", 1);
    }
    c.sig(lo as u64);
    c.sample(|| format!("characters from U+{lo:x}"));
    Ok(())
}

/// A number ends where it ends, whatever follows.
fn t01_numbers(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut t = String::new();
    for _ in 0..r.range(1, 6) {
        if r.chance(1, 2) {
            t.push('-');
        }
        match r.below(6) {
            0 => t.push('0'),
            _ => {
                for _ in 0..r.range(1, 20) {
                    t.push((b'0' + r.below(10) as u8) as char);
                }
            }
        }
        if r.bool() {
            t.push('.');
            for _ in 0..r.below(20) {
                t.push((b'0' + r.below(10) as u8) as char);
            }
        }
        if r.chance(1, 3) {
            t.push(*r.pick(&['e', 'E']));
            t.push_str(*r.pick(&["", "+", "-"]));
            for _ in 0..r.below(5) {
                t.push((b'0' + r.below(10) as u8) as char);
            }
        }
        if r.chance(1, 5) {
            t.push('n');
        }
        t.push_str(*r.pick(&[
            " ", ",", "\n", "]", "/**/", "\"", "", "a", ".", ";", "=", "\r", "\t",
        ]));
    }
    c.sample(|| text::clip(&t));
    check(c, &t)
}

/// One character that belongs to no token, between spaces: nothing around it is lost.
fn t01_stray(c: &mut Case) -> R {
    let mut t = String::new();
    let mut want = vec![];
    let mut bad = 0;
    for _ in 0..2 + c.rng.below(8) {
        if c.rng.chance(1, 3) {
            let x = loop {
                let x = if c.rng.chance(3, 4) {
                    alphabet(c.rng.below(150) as u64).unwrap()
                } else {
                    any_char(&mut c.rng)
                };
                let l = lex(&format!("{x}"));
                if l.toks == [Tok::Err] && l.unspecified.is_none() && !"\"/-\\".contains(x) {
                    break x;
                }
            };
            t.push(x);
            want.push(Tok::Err);
            bad += 1;
        } else {
            let p = piece(&mut c.rng);
            let l = lex(&format!("{p} "));
            if l.unspecified.is_some() || l.toks.contains(&Tok::Err) || p.contains("//") {
                continue;
            }
            t.push_str(&p);
            want.extend(l.toks);
        }
        t.push(' ');
    }
    let got = tidy(&eager(GLOBAL, &t));
    let want = tidy(&want);
    ensure!(
        got == want,
        "{} instead of {} from {}",
        brief(&got),
        brief(&want),
        text::clip(&t)
    );
    c.ev("stray characters", bad);
    c.sample(|| text::clip(&t));
    if bad > 0 && want.len() > bad as usize {
        c.sig(hash_str(&t));
    }
    Ok(())
}

// ------------------------------------------------------------------ T03

type Maps<M> = TransitionMaps<M>;

fn shared_maps<M: Manager + 'static>(
    cell: &'static std::thread::LocalKey<OnceCell<&'static Maps<M>>>,
) -> &'static Maps<M> {
    cell.with(|m| *m.get_or_init(|| Box::leak(Box::new(create_transition_maps()))))
}

thread_local! {
    static GLOBAL_MAPS: OnceCell<&'static Maps<Global>> = const { OnceCell::new() };
    static TRACK_MAPS: OnceCell<&'static Maps<Track>> = const { OnceCell::new() };
}

fn any_text(c: &mut Case) -> String {
    let n = if c.tier == Tier::Tiny { 5 } else { 20 };
    match c.rng.below(6) {
        0 => {
            let g = gen_graph(&mut c.rng, &DATA);
            let style = *c.rng.pick(&[Style::Bare, Style::Mjs, Style::Cjs]);
            let l = Layout {
                shuffle: true,
                ..LOOSE
            };
            let mut t = text::write_module(&mut c.rng, &g, g.root, style, &[], l);
            if c.rng.bool() {
                t = text::mutate(&mut c.rng, &t);
            }
            t
        }
        1 => {
            let (p, x, a) = (
                *c.rng.pick(&PREFIXES),
                c.rng.below(150),
                *c.rng.pick(&AFTER),
            );
            format!("{p}{}{a}", alphabet(x as u64).unwrap())
        }
        _ => {
            let mut t = String::new();
            for _ in 0..1 + c.rng.size(n) {
                let p = piece(&mut c.rng);
                t.push_str(&p);
                if c.rng.chance(1, 3) {
                    t.push(*c.rng.pick(&[' ', '\n', ' ', '\t']));
                }
            }
            t
        }
    }
}

/// What a reader fed with all of the text and a line break has given: all tokens but one the end may hold.
fn same_fed(t: &str, got: &[Tok], how: &str) -> R {
    let whole = eager(GLOBAL, t);
    let ok = got.len() <= whole.len()
        && got == &whole[..got.len()]
        && whole.len() - got.len() <= 1
        && whole[got.len()..]
            .iter()
            .all(|t| matches!(t, Tok::NL | Tok::Err));
    ensure!(
        ok,
        "{how}: {} instead of {} from {}",
        brief(got),
        brief(&whole),
        text::clip(t)
    );
    Ok(())
}

/// Several readers share the tables and are fed in turns.
fn t03_fed<M: Manager + 'static>(c: &mut Case, m: M, maps: &'static Maps<M>, tracked: bool) -> R {
    let own;
    let maps = if c.rng.chance(1, 20) {
        own = create_transition_maps();
        &own
    } else {
        maps
    };
    let n = 1 + c.rng.below(4);
    let texts: Vec<String> = (0..n).map(|_| any_text(c) + "\n").collect();
    let mut readers: Vec<_> = texts
        .iter()
        .map(|t| {
            (
                t.chars(),
                TokenizerState::<M::Dealloc>::default(),
                vec![],
                false,
            )
        })
        .collect();
    let mut turns = 0;
    let abandon = tracked && c.rng.chance(1, 4);
    while let Some(_) = readers.iter().position(|r| !r.3) {
        let i = c.rng.below(n);
        let burst = 1 + c.rng.size(12);
        let (chars, state, out, done) = &mut readers[i];
        for _ in 0..burst {
            match chars.next() {
                Some(x) => out.extend(state.push_mut(m, x, maps).iter().map(tok)),
                None => {
                    *done = true;
                    break;
                }
            }
        }
        turns += 1;
        if abandon && turns > 6 {
            c.ev("readers abandoned", 1);
            return Ok(());
        }
    }
    for (t, r) in texts.iter().zip(&readers) {
        same_fed(t, &r.2, "fed by characters")?;
        c.ev("texts fed", 1);
        c.ev("characters fed", t.chars().count() as u64);
        c.sig(hash_str(t));
    }
    if n > 1 {
        c.ev("readers in turns", n as u64);
    }
    c.sample(|| {
        texts
            .iter()
            .map(|t| text::clip(t))
            .collect::<Vec<_>>()
            .join(" | ")
    });
    Ok(())
}

fn t03_global(c: &mut Case) -> R {
    t03_fed(c, GLOBAL, shared_maps(&GLOBAL_MAPS), false)
}

fn t03_tracked(c: &mut Case) -> R {
    track::reset();
    let r = t03_fed(c, Track, shared_maps(&TRACK_MAPS), true);
    r.and(track::finish())
}

/// The tokens of one state belong to that state: it is taken apart and goes on elsewhere.
fn t03_moved(c: &mut Case) -> R {
    let t = any_text(c) + "\n";
    let maps: Maps<Global> = create_transition_maps();
    let shared = shared_maps(&GLOBAL_MAPS);
    let mut state = TokenizerState::<Global>::default();
    let mut got = vec![];
    for x in t.chars() {
        // from table to table, from place to place
        let mut s = Box::new(state);
        got.extend(
            s.push_mut(GLOBAL, x, if c.rng.bool() { &maps } else { shared })
                .iter()
                .map(tok),
        );
        state = *s;
    }
    c.ev("readers moved", 1);
    c.sig(hash_str(&t));
    same_fed(&t, &got, "moved between tables")
}

/// Every length of every part of a text.
fn t03_sizes(c: &mut Case) -> R {
    let (dim, n) = c.sweep(text::SIZED);
    let t = text::sized(&mut c.rng, dim, n) + "\n";
    let maps = shared_maps(&GLOBAL_MAPS);
    let mut state = TokenizerState::<Global>::default();
    let mut got = vec![];
    for x in t.chars() {
        got.extend(state.push_mut(GLOBAL, x, maps).iter().map(tok));
    }
    same_fed(&t, &got, "fed by characters")?;
    c.ev("lengths", 1);
    c.sig(hash_str(&t));
    if t.len() > 2000 || c.rng.chance(3, 4) {
        return Ok(());
    }
    t03_analyzer_of(c, t)
}

/// The analyzer takes every text, and counts what it reports.
fn t03_analyzer(c: &mut Case) -> R {
    let t = any_text(c);
    t03_analyzer_of(c, t)
}

fn t03_analyzer_of(c: &mut Case, t: String) -> R {
    track::reset();
    let cut = if c.rng.bool() {
        t.chars().count()
    } else {
        c.rng.below(t.chars().count() + 1)
    };
    let dropped = c.rng.chance(1, 4);
    let r = (|| {
        let mut a = AnalyzerState::new(Default::default());
        let mut n = 0;
        for x in t.chars().take(cut) {
            n += a.push_mut(Track, x);
        }
        if !dropped {
            let r = a.end();
            ensure!(
                r.diagnostics.len() >= n,
                "{n} diagnostics announced, {} given for {}",
                r.diagnostics.len(),
                text::clip(&t)
            );
        }
        Ok(())
    })();
    c.ev("texts analyzed", 1);
    c.sig(hash_str(&t));
    r.and(track::finish())
}

// ------------------------------------------------------------------ T02

/// A combination that tells its parts and their order.
#[derive(Clone, PartialEq, Debug, Default)]
struct Seq(Vec<u16>);

impl Union for Seq {
    fn union(mut self, other: Self) -> Self {
        self.0.extend(other.0);
        self
    }
}

impl StaticRefDefault for Seq {
    const STATIC_REF_DEFAULT: &'static Self = &Seq(Vec::new());
}

type Model<K> = Vec<(K, Seq)>;

fn model_get<K: PartialOrd>(m: &Model<K>, k: K) -> Seq {
    m.iter()
        .find(|e| k <= e.0)
        .map(|e| e.1.clone())
        .unwrap_or_default()
}

fn to_map<K: PartialOrd + Copy>(m: &Model<K>) -> RangeMap<K, Seq> {
    RangeMap {
        list: m
            .iter()
            .map(|e| Entry {
                key: e.0,
                value: e.1.clone(),
            })
            .collect(),
    }
}

fn gen_model<K: PartialOrd + Copy>(r: &mut Rng, mut keys: Vec<K>, id: &mut u16) -> Model<K> {
    keys.sort_by(|a, b| a.partial_cmp(b).unwrap());
    keys.dedup_by(|a, b| a == b);
    keys.into_iter()
        .map(|k| {
            *id += 1;
            (
                k,
                if r.chance(1, 4) {
                    Seq::default()
                } else {
                    Seq(vec![*id])
                },
            )
        })
        .collect()
}

fn merges<K: PartialOrd + Copy + std::fmt::Debug>(
    c: &mut Case,
    key: impl Fn(&mut Rng) -> K,
    probes: &[K],
) -> R {
    let mut id = 0;
    let n = c.rng.range(1, 6);
    let models: Vec<Model<K>> = (0..n)
        .map(|_| {
            let k = c.rng.size(10);
            let keys = (0..k).map(|_| key(&mut c.rng)).collect();
            gen_model(&mut c.rng, keys, &mut id)
        })
        .collect();
    let maps: Vec<_> = models.iter().map(to_map).collect();
    let mut all: Vec<K> = probes.to_vec();
    all.extend(models.iter().flatten().map(|e| e.0));
    for (m, x) in models.iter().zip(&maps) {
        for &k in &all {
            let (a, b) = (x.get(k), model_get(m, k));
            ensure!(*a == b, "lookup of {k:?} gives {a:?}, not {b:?} in {m:?}");
        }
    }
    c.ev("lookups", (all.len() * maps.len()) as u64);
    let list = merge_list(maps);
    let want = |k: K, order: &[usize]| {
        order
            .iter()
            .fold(Seq::default(), |s, &i| s.union(model_get(&models[i], k)))
    };
    // which of the two answers comes first is a choice, but the same one at every key
    let in_order = |what: &str, m: &RangeMap<K, Seq>, order: &[usize]| {
        let bad = |order: &[usize]| all.iter().copied().find(|&k| *m.get(k) != want(k, order));
        let back: Vec<usize> = order.iter().rev().copied().collect();
        match (bad(order), bad(&back)) {
            (Some(k), Some(_)) => {
                let (a, b) = (m.get(k), want(k, order));
                Err(format!(
                    "after {what}, {k:?} gives {a:?}, not {b:?}: {models:?}"
                ))
            }
            _ => Ok(()),
        }
    };
    in_order("merge_list", &list, &(0..n).collect::<Vec<_>>())?;
    // a random tree of merges
    let mut pool: Vec<(RangeMap<K, Seq>, Vec<usize>)> = models
        .iter()
        .enumerate()
        .map(|(i, m)| (to_map(m), vec![i]))
        .collect();
    while pool.len() > 1 {
        let i = c.rng.below(pool.len());
        let (a, mut x) = pool.swap_remove(i);
        let j = c.rng.below(pool.len());
        let (b, y) = pool.swap_remove(j);
        x.extend(y);
        pool.push((merge(a, b), x));
        c.ev("merges", 1);
    }
    let (m, order) = pool.pop().unwrap();
    in_order(&format!("merges {order:?}"), &m, &order)?;
    c.ev("lookups", 2 * all.len() as u64);
    c.sample(|| format!("{models:?}"));
    c.sig(hash_str(&format!("{models:?}{order:?}")));
    Ok(())
}

fn t02_merge(c: &mut Case) -> R {
    match c.rng.below(4) {
        0 => {
            let all: Vec<u8> = (0..=255).collect();
            merges(
                c,
                |r| {
                    if r.bool() {
                        r.u64() as u8
                    } else {
                        *r.pick(&[0, 1, 254, 255])
                    }
                },
                &all,
            )
        }
        1 => {
            let all: Vec<i32> = (-20..20).chain([i32::MIN, i32::MAX]).collect();
            merges(
                c,
                |r| {
                    if r.chance(1, 10) {
                        i32::MAX
                    } else {
                        r.below(30) as i32 - 15
                    }
                },
                &all,
            )
        }
        2 => {
            let all: Vec<char> = edge_chars();
            merges(c, |r| *r.pick(&edge_chars()), &all)
        }
        _ => {
            let all: Vec<f64> = (-40..40).map(|x| x as f64 / 4.0).collect();
            merges(c, |r| r.below(20) as f64 / 2.0 - 5.0, &all)
        }
    }
}

fn edge_chars() -> Vec<char> {
    vec![
        '\0',
        '\u{1}',
        '\u{2}',
        ' ',
        '0',
        '1',
        '9',
        ':',
        'A',
        'Z',
        '[',
        'a',
        'b',
        'z',
        '\u{7f}',
        '\u{80}',
        '\u{d7fe}',
        '\u{d7ff}',
        '\u{e000}',
        '\u{e001}',
        '\u{fffd}',
        '\u{ffff}',
        '\u{10000}',
        '\u{10001}',
        '\u{10fffe}',
        '\u{10ffff}',
    ]
}

fn next_char(c: char) -> Option<char> {
    match c {
        '\u{d7ff}' => Some('\u{e000}'),
        '\u{10ffff}' => None,
        c => char::from_u32(c as u32 + 1),
    }
}

fn prev_char(c: char) -> Option<char> {
    match c {
        '\u{e000}' => Some('\u{d7ff}'),
        '\0' => None,
        c => char::from_u32(c as u32 - 1),
    }
}

fn any_char(r: &mut Rng) -> char {
    if r.bool() {
        *r.pick(&edge_chars())
    } else {
        gen_char(r)
    }
}

/// Maps of characters and ranges: exactly those characters.
fn t02_ranges(c: &mut Case) -> R {
    let mut parts: Vec<(char, char, u32)> = vec![];
    let mut maps = vec![];
    let mut probes = edge_chars();
    for _ in 0..c.rng.range(1, 9) {
        let a = any_char(&mut c.rng);
        let b = any_char(&mut c.rng);
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let one = c.rng.bool();
        let b = if one { a } else { b };
        // the same value where they overlap
        let v = match parts.iter().find(|p| p.0 <= b && a <= p.1) {
            Some(p) => p.2,
            None => parts.len() as u32,
        };
        if parts.iter().any(|p| p.0 <= b && a <= p.1 && p.2 != v) {
            continue;
        }
        parts.push((a, b, v));
        maps.push(if one && c.rng.bool() {
            from_one(a, v)
        } else {
            from_range(a..=b, v)
        });
        for x in [a, b] {
            probes.push(x);
            probes.extend(next_char(x));
            probes.extend(prev_char(x));
        }
    }
    let want = |k: char| parts.iter().find(|p| p.0 <= k && k <= p.1).map(|p| p.2);
    for (m, p) in maps.iter().zip(&parts) {
        for &k in &probes {
            let w = if p.0 <= k && k <= p.1 {
                Some(p.2)
            } else {
                None
            };
            ensure!(
                m.get(k).value == w,
                "{:?} in {:?}..={:?}: {:?}",
                k,
                p.0,
                p.1,
                m.get(k).value
            );
        }
    }
    for _ in 0..30 {
        let k = any_char(&mut c.rng);
        probes.push(k);
    }
    let m: RangeMap<char, State<u32>> = if c.rng.bool() {
        merge_list(maps)
    } else {
        let mut pool = maps;
        while pool.len() > 1 {
            let i = c.rng.below(pool.len());
            let a = pool.swap_remove(i);
            let j = c.rng.below(pool.len());
            let b = pool.swap_remove(j);
            pool.push(merge(a, b));
        }
        pool.pop().unwrap()
    };
    for &k in &probes {
        let (a, b) = (m.get(k).value, want(k));
        ensure!(
            a == b,
            "U+{:x} gives {a:?}, not {b:?} in {parts:?}",
            k as u32
        );
    }
    c.ev("lookups of characters", probes.len() as u64);
    c.ev("range maps", parts.len() as u64);
    c.sample(|| format!("{parts:?}"));
    c.sig(hash_str(&format!("{parts:?}")));
    Ok(())
}

/// Different values at one character are refused, and only those.
fn t02_conflict(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut p = || {
        let (a, b) = (any_char(r), any_char(r));
        if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    };
    let (x, y) = (p(), p());
    let overlap = x.0 <= y.1 && y.0 <= x.1;
    let m = guarded(|| merge(from_range(x.0..=x.1, 1u32), from_range(y.0..=y.1, 2u32)));
    ensure!(
        m.is_err() == overlap,
        "{x:?} and {y:?}: {}",
        if overlap { "merged" } else { "refused" }
    );
    if let Ok(m) = m {
        for k in [x.0, x.1, y.0, y.1] {
            let w = if x.0 <= k && k <= x.1 { 1 } else { 2 };
            ensure!(m.get(k).value == Some(w), "{k:?} in {x:?}, {y:?}");
        }
    } else {
        c.ev("conflicts refused", 1);
    }
    c.sig(hash_str(&format!("{x:?}{y:?}")));
    Ok(())
}

/// The empty map and maps without effect.
/// Maps of many ranges, of lengths near powers of two.
fn t02_many(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = match c.index % 4 {
        0 => (1usize << r.range(5, 18)) + r.below(5) - 2,
        1 => r.range(100, 1000),
        2 => (1usize << r.range(5, 12)) + r.below(5) - 2,
        _ => r.range(1000, 200_000),
    };
    let n = if c.tier == Tier::Tiny { n.min(300) } else { n };
    t02_many_of(c, n)
}

/// Every number of ranges.
fn t02_sizes(c: &mut Case) -> R {
    let (_, n) = c.sweep(2);
    c.ev("lengths", 1);
    t02_many_of(c, n.max(1))
}

fn t02_many_of(c: &mut Case, n: usize) -> R {
    let r = &mut c.rng;
    // ends of ranges, increasing, and what they hold
    let build = |r: &mut Rng, n: usize, gap: usize, keep: &dyn Fn(u32) -> Option<u32>| {
        let mut at = r.below(50) as i64 - 25;
        let mut v = vec![];
        for _ in 0..n {
            v.push((at, keep(r.below(5) as u32)));
            at += 1 + r.below(gap) as i64;
        }
        v
    };
    let gap = *r.pick(&[1, 2, 5]);
    let one = build(r, n, gap, &|x| (x > 0).then_some(x));
    let map = |v: &[(i64, Option<u32>)]| RangeMap::<i64, State<u32>> {
        list: v
            .iter()
            .map(|&(key, value)| Entry {
                key,
                value: State { value },
            })
            .collect(),
    };
    let find =
        |v: &[(i64, Option<u32>)], k: i64| v.get(v.partition_point(|e| e.0 < k)).and_then(|e| e.1);
    let m = map(&one);
    let (lo, hi) = (one[0].0 - 2, one[n - 1].0 + 3);
    let probe = |k: i64| -> R {
        let (a, b) = (m.get(k).value, find(&one, k));
        ensure!(a == b, "{k} gives {a:?}, not {b:?}, in a map of {n} ranges");
        Ok(())
    };
    if hi - lo < 5000 {
        for k in lo..=hi {
            probe(k)?;
        }
    } else {
        for _ in 0..1500 {
            probe(lo + (r.u64() % (hi - lo) as u64) as i64)?;
        }
        // around lengths a shorter count would mistake
        for i in (0..18).map(|b| 1usize << b).filter(|&i| i + 1 < n) {
            for k in [
                one[i - 1].0,
                one[i].0 - 1,
                one[i].0,
                one[i].0 + 1,
                one[n - i].0,
                one[n - i].0 + 1,
            ] {
                probe(k)?;
            }
        }
    }
    for k in [
        lo,
        one[0].0,
        one[n - 1].0,
        one[n - 1].0 + 1,
        hi,
        i64::MIN,
        i64::MAX,
    ] {
        probe(k)?;
    }
    // merged with another that says nothing where this one says something
    let k2 = r.range(1, n.min(3000) + 1);
    let at: Vec<usize> = (0..k2).map(|_| r.below(n)).collect();
    let mut two: Vec<(i64, Option<u32>)> = at.iter().map(|&i| one[i]).collect();
    two.sort();
    two.dedup();
    // same value on (end of the range before, end], nothing elsewhere
    let mut other = vec![];
    for &(e, v) in &two {
        let i = one.partition_point(|x| x.0 < e);
        if i > 0
            && other
                .last()
                .map_or(true, |l: &(i64, Option<u32>)| l.0 < one[i - 1].0)
        {
            other.push((one[i - 1].0, None));
        }
        if i > 0 || e == one[0].0 {
            // the first range has no lower end
            other.push((e, v));
        }
    }
    let x = if r.bool() {
        merge(map(&one), map(&other))
    } else {
        merge(map(&other), map(&one))
    };
    for i in 0..1500.max((hi - lo).min(3000)) {
        let k = match hi - lo < 3000 {
            true => lo + i,
            false => lo + (r.u64() % (hi - lo) as u64) as i64,
        };
        let (a, b) = (x.get(k).value, find(&one, k));
        ensure!(
            a == b,
            "{k} gives {a:?}, not {b:?}, after merging maps of {n} and {} ranges",
            other.len()
        );
    }
    c.ev("maps of many ranges", 1);
    c.ev("ranges in them", n as u64);
    c.sig(mix(n as u64) ^ r_sig(&one));
    Ok(())
}

fn r_sig(v: &[(i64, Option<u32>)]) -> u64 {
    v.iter().take(64).fold(7, |h, e| {
        mix(h ^ e.0 as u64 ^ (e.1.map_or(9, |x| x as u64) << 40))
    })
}

fn t02_empty(c: &mut Case) -> R {
    let e = || RangeMap::<char, State<u32>> { list: vec![] };
    let k = any_char(&mut c.rng);
    let x = any_char(&mut c.rng);
    ensure!(e().get(k).value.is_none(), "the empty map has {k:?}");
    ensure!(
        merge(e(), e()).get(k).value.is_none(),
        "the empty map has {k:?}"
    );
    ensure!(
        merge_list::<char, State<u32>>(vec![])
            .get(k)
            .value
            .is_none(),
        "the empty list has {k:?}"
    );
    let w = (k == x).then_some(7);
    ensure!(
        merge(e(), from_one(x, 7)).get(k).value == w,
        "{k:?} in {x:?}"
    );
    ensure!(
        merge(from_one(x, 7), e()).get(k).value == w,
        "{k:?} in {x:?}"
    );
    ensure!(
        merge(from_one(x, 7), from_one(x, 7)).get(k).value == w,
        "{k:?} in {x:?}"
    );
    c.ev("empty maps", 1);
    c.sig(mix(k as u64) ^ x as u64);
    Ok(())
}

fn main() {
    let a = args();
    if a.property == "NONE" {
        println!("READY");
        return;
    }
    let kinds: &[Kind] = match a.property.as_str() {
        "T01" => &[
            kind!(t01_states, 9_900, 9_900, 6),
            kind!(t01_pieces, 60_000, 4_000_000, 6),
            kind!(t01_texts, 12_000, 800_000, 2),
            kind!(t01_strings, 40_000, 3_000_000, 4),
            kind!(t01_numbers, 30_000, 2_000_000, 4),
            kind!(t01_chars, 1088, 1088, 1),
            kind!(t01_sizes, 4_950, 49_500, 0),
            kind!(t01_vast, 160, 6_000, 0),
            kind!(t01_stray, 40_000, 2_000_000, 2),
        ],
        "T03" => &[
            kind!(t03_global, 40_000, 3_000_000, 4),
            kind!(t03_tracked, 16_000, 1_000_000, 4),
            kind!(t03_sizes, 3_960, 39_600, 0),
            kind!(t03_moved, 4_000, 200_000, 1),
            kind!(t03_analyzer, 3_000, 100_000, 2),
        ],
        "T02" => &[
            kind!(t02_merge, 300_000, 20_000_000, 10),
            kind!(t02_ranges, 300_000, 20_000_000, 10),
            kind!(t02_conflict, 100_000, 4_000_000, 4),
            kind!(t02_many, 480, 40_000, 1),
            kind!(t02_sizes, 990, 9_900, 0),
            kind!(t02_empty, 20_000, 200_000, 4),
        ],
        p => panic!("unknown property {p}"),
    };
    drive(&a, kinds);
}

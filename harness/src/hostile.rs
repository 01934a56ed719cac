//! Texts nobody should write, and a small world of files for texts to import.
use crate::{
    files::Files,
    io::MemIo,
    run::Rng,
    text::{mutate, soup, write_json, write_module, Style, LOOSE},
    val::{self, gen_graph, gen_shape, Opt, DATA},
};

/// Files that texts of this monitor may import.
pub const LIBRARY: [(&str, &str); 5] = [
    ("/m/x", "[1,{\"a\":null}]"),
    ("/m/y.json", "{\"k\":[],\"j\":\"\\u00e9\"}"),
    (
        "/m/sub/z.d.mjs",
        "import y from \"../y.json\"\nconst a=[y,y]\nexport default [a,a]",
    ),
    (
        "/m/w.d.cjs",
        "const y=require(\"./y.json\")\nmodule.exports={\"y\":y,\"x\":require(\"x\")}",
    ),
    ("/m/bad", "[1,"),
];

pub const SPECS: [&str; 8] = [
    "x",
    "./x",
    "y.json",
    "./sub/../y.json",
    "sub/z.d.mjs",
    "./w.d.cjs",
    "bad",
    "missing",
];

pub fn world() -> (MemIo, Files) {
    let io = MemIo::new("/m");
    let mut f = Files::default();
    for (p, t) in LIBRARY {
        io.put(p, t.as_bytes());
        f.files.insert(p.to_string(), t.as_bytes().to_vec());
    }
    (io, f)
}

pub fn style(r: &mut Rng) -> Style {
    *r.pick(&[Style::Bare, Style::Mjs, Style::Cjs])
}

pub fn hostile_text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => soup(r),
        1 => {
            // any characters
            (0..r.size(200)).map(|_| val::gen_char(r)).collect()
        }
        2 => {
            // any bytes, as far as they are text
            let b: Vec<u8> = (0..r.size(200)).map(|_| r.u64() as u8).collect();
            String::from_utf8_lossy(&b).into_owned()
        }
        3 => {
            // characters the lexer cares for
            let a: Vec<char> = "{}[]:,=;().\"\\/*-+0123456789eEnu_$ \n\r\tabfconst"
                .chars()
                .collect();
            (0..r.size(300)).map(|_| *r.pick(&a)).collect()
        }
        4 => {
            // numbers of all kinds
            let mut s = String::new();
            for _ in 0..r.range(1, 6) {
                s.push_str(
                    [
                        "-",
                        "+",
                        "0",
                        "00",
                        "1",
                        "9",
                        "e",
                        "E",
                        ".",
                        "n",
                        "-0",
                        "e-",
                        "e+",
                        "1e999999999999999999999",
                        "-1e-99999999999999999999",
                        "123456789012345678901234567890",
                        "0.0000000000000000000001",
                    ][r.below(17)],
                );
            }
            if r.bool() {
                format!("[{s}]")
            } else {
                s
            }
        }
        5 => {
            // escapes
            let mut s = String::from("\"");
            for _ in 0..r.range(1, 8) {
                s.push_str(
                    [
                        "\\u", "\\uD83D", "\\uDE00", "\\", "\\u00", "\\n", "\\x", "\"", "a",
                        "\\u{1}", "\n", "\\\\", "\\/", "\\b", "\\0",
                    ][r.below(15)],
                );
            }
            if r.chance(3, 4) {
                s.push('"');
            }
            s
        }
        6 => {
            // statements that stop in the middle
            let whole = [
                "const a = [1, {\"b\": 2}]\nexport default [a, a]",
                "import a from \"./x\";\nexport default a",
                "const q = require(\"x\");\nmodule.exports = {\"q\": q}",
                "module.exports=require(\"./w.d.cjs\")",
                "const a=1;const b=a;[a,b]",
            ];
            let t = whole[r.below(5)];
            let n = r.range(0, t.len());
            let tail = [
                "", ";", "\n", "]", "}", "const", "=", "/*", "\"", "//", ")", "null", "1e", ";;",
                "\u{0}",
            ][r.below(15)];
            format!("{}{tail}", &t[..n])
        }
        7 => {
            let g = gen_graph(r, &Opt { nodes: 12, ..DATA });
            let t = write_json(r, &g, LOOSE);
            mutate(r, &t)
        }
        8 => {
            let g = gen_shape(r, &DATA, 12);
            let st = style(r);
            let t = write_module(r, &g, g.root, st, &[], LOOSE);
            mutate(r, &t)
        }
        9 => {
            let n = r.range(1, 400);
            let s = [
                "[",
                "{\"a\":",
                "[[",
                "{a:[",
                "]",
                "}",
                "const a=[",
                "/*",
                "//",
                "(",
                "require(",
                ";",
                ",",
                "[1,",
                ":",
            ][r.below(15)];
            s.repeat(n)
        }
        10 => {
            // what comes after a value
            let v = ["1", "[]", "{}", "\"\"", "null", "a", "1n", "require(\"x\")"][r.below(8)];
            let mut t = v.to_string();
            for _ in 0..r.range(1, 4) {
                t.push_str(
                    [
                        " ",
                        ";",
                        "\n",
                        ",",
                        "]",
                        "}",
                        "const a=1",
                        "export default 1",
                        "module.exports=1",
                        ".",
                        "(",
                        "=",
                        "//",
                        "/**/",
                        "\u{0}",
                        "é",
                    ][r.below(16)],
                );
            }
            t
        }
        _ => {
            let t = format!("{}{}", soup(r), soup(r));
            mutate(r, &t)
        }
    }
}

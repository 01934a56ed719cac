//! C01: the program itself, in a directory of its own, over a real file system.
use nanvm_lib::app;
use nanvm_monitor::{
    ensure,
    files::Files,
    hostile::{hostile_text, style},
    io::{resolve, MemIo},
    kind,
    run::{args, drive, guarded, hash_bytes, hash_str, Case, Kind, Rng, Tier, R},
    text::{
        self, lex, module, mutate, near, write_json, write_module, Accept, Dt, Loader, Stop, Why,
        LOOSE, STRICT,
    },
    tree::{gen_tree, Made, Shape},
    val::{gen_graph, gen_shape, same, Id, Opt, DATA, G, JSON, SHARED, VALUE},
};
use std::{
    collections::BTreeMap,
    ffi::{OsStr, OsString},
    fs,
    io::{Read, Write},
    os::unix::{
        ffi::{OsStrExt, OsStringExt},
        fs::{symlink, PermissionsExt},
        process::{CommandExt, ExitStatusExt},
    },
    path::{Path, PathBuf},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

// ------------------------------------------------------------------ scratch

struct Scratch(PathBuf);

impl Scratch {
    fn new(c: &Case) -> Scratch {
        let d =
            PathBuf::from(c.out_dir).join(format!("scratch-{}-{}", std::process::id(), c.index));
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).unwrap();
        Scratch(d.canonicalize().unwrap())
    }
    fn put(&self, name: &str, b: &[u8]) {
        let p = self.0.join(name);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(p, b).unwrap();
    }
    fn get(&self, name: &str) -> Option<Vec<u8>> {
        fs::read(self.0.join(name)).ok()
    }
    /// Everything in it.
    fn look(&self) -> BTreeMap<String, Vec<u8>> {
        fn walk(d: &Path, base: &Path, m: &mut BTreeMap<String, Vec<u8>>) {
            for e in fs::read_dir(d).unwrap() {
                let e = e.unwrap();
                let n = e
                    .path()
                    .strip_prefix(base)
                    .unwrap()
                    .to_string_lossy()
                    .into_owned();
                let t = e.file_type().unwrap();
                if t.is_symlink() {
                    m.insert(
                        n,
                        format!("-> {:?}", fs::read_link(e.path()).unwrap()).into_bytes(),
                    );
                } else if t.is_dir() {
                    m.insert(format!("{n}/"), vec![]);
                    walk(&e.path(), base, m);
                } else {
                    m.insert(n, fs::read(e.path()).unwrap());
                }
            }
        }
        let mut m = BTreeMap::new();
        walk(&self.0, &self.0, &mut m);
        m
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

struct Ended {
    code: Option<i32>,
    signal: Option<i32>,
    err: String,
    out: String,
}

#[derive(Default)]
struct Env<'a> {
    cwd: &'a str,
    stdin: Option<Vec<u8>>,
    /// Largest file it may write, in kilobytes.
    fsize: Option<usize>,
    nobody: bool,
    /// Standard output and standard error are closed.
    closed: bool,
}

fn program(s: &Scratch, args: &[OsString], e: &Env) -> Result<Ended, String> {
    let exe = std::env::current_exe().unwrap().with_file_name("nanvm");
    ensure!(exe.exists(), "monitor: no program at {exe:?}");
    let mut script = String::from("ulimit -t 20; ");
    if let Some(n) = e.fsize {
        script.push_str(&format!("trap '' XFSZ; ulimit -f {n}; "));
    }
    script.push_str("exec \"$0\" \"$@\"");
    if e.closed {
        script.push_str(" >&- 2>&-");
    }
    let mut c = Command::new(if e.fsize.is_some() {
        "/bin/bash"
    } else {
        "/bin/sh"
    });
    c.arg("-c").arg(script).arg(exe).args(args);
    c.current_dir(s.0.join(e.cwd)).env_clear();
    c.stdin(if e.stdin.is_some() {
        Stdio::piped()
    } else {
        Stdio::null()
    });
    c.stdout(Stdio::piped()).stderr(Stdio::piped());
    if e.nobody {
        c.uid(65534).gid(65534);
    }
    let mut p = c.spawn().map_err(|e| format!("spawn: {e}"))?;
    if let Some(b) = &e.stdin {
        let _ = p.stdin.take().unwrap().write_all(b);
    }
    let start = Instant::now();
    // its reports are short
    let (mut out, mut err) = (vec![], vec![]);
    let mut o = p.stdout.take().unwrap();
    let mut r = p.stderr.take().unwrap();
    let st = loop {
        if let Some(st) = p.try_wait().map_err(|e| e.to_string())? {
            break st;
        }
        if start.elapsed() > Duration::from_secs(150) {
            let _ = p.kill();
            let _ = p.wait();
            return Err("the program does not end".into());
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    o.read_to_end(&mut out).map_err(|e| e.to_string())?;
    r.read_to_end(&mut err).map_err(|e| e.to_string())?;
    Ok(Ended {
        code: st.code(),
        signal: st.signal(),
        err: String::from_utf8_lossy(&err).into_owned(),
        out: String::from_utf8_lossy(&out).into_owned(),
    })
}

/// It ended by itself, and reported what it should.
fn proper(e: &Ended, want_ok: bool) -> R {
    if let Some(s) = e.signal {
        return Err(format!("ended by signal {s}: {}", text::clip(&e.err)));
    }
    let code = e.code.unwrap_or(-1);
    ensure!(
        code != 101 && !e.err.contains("panicked at"),
        "crashed: {}",
        text::clip(&e.err)
    );
    if want_ok {
        ensure!(code == 0, "ended with {code}: {}", text::clip(&e.err));
    } else {
        ensure!(
            code != 0,
            "ended with success{}",
            if e.err.is_empty() {
                ""
            } else {
                " but complained"
            }
        );
    }
    Ok(())
}

fn os(v: &[&str]) -> Vec<OsString> {
    v.iter().map(|x| OsString::from(*x)).collect()
}

// ------------------------------------------------------------------ the reference

fn format_of(name: &str) -> Option<Dt> {
    if name.ends_with(".json") {
        Some(Dt::Json)
    } else if name.ends_with(".d.cjs") {
        Some(Dt::Cjs)
    } else if name.ends_with(".d.mjs") {
        Some(Dt::Mjs)
    } else {
        None
    }
}

struct Nothing;

impl Loader for Nothing {
    fn import(&mut self, _: &mut G, _: &str) -> Result<Id, Stop> {
        Err(Stop::Reject(Why::Read))
    }
}

/// The value of the files' root, if it has one.
fn value(files: &BTreeMap<String, Vec<u8>>, root: &str) -> (Result<Accept, Stop>, G) {
    let mut f = Files {
        files: files.clone(),
        ..Files::default()
    };
    let mut g = G::default();
    let r = f.root(&mut g, root);
    if let Ok(a) = &r {
        g.root = a.root;
    }
    (r, g)
}

fn json_can(g: &G) -> bool {
    use nanvm_monitor::val::V;
    let mut seen = vec![false; g.nodes.len()];
    let mut todo = vec![g.root];
    while let Some(i) = todo.pop() {
        if std::mem::replace(&mut seen[i], true) {
            continue;
        }
        match &g.nodes[i] {
            V::Big(..) => return false,
            V::Num(n) if !f64::from_bits(*n).is_finite() => return false,
            _ => {}
        }
        todo.extend(g.children(i));
    }
    true
}

/// The written text means this value in the format the name asks for.
fn written(b: &[u8], dt: Dt, g: &G) -> R {
    let t = std::str::from_utf8(b).map_err(|_| "the output is not text")?;
    let mut h = G::default();
    let a = module(&lex(t), &mut h, &mut Nothing)
        .map_err(|e| format!("unreadable output ({e:?}): {}", text::clip(t)))?;
    h.root = a.root;
    ensure!(
        a.dt == dt && !a.lenient,
        "the output is {:?}, not {dt:?}: {}",
        a.dt,
        text::clip(t)
    );
    same(&h, g, if dt == Dt::Json { VALUE } else { SHARED })
        .map_err(|e| format!("{e} in the output {}", text::clip(t)))
}

/// The same conversion, in this process.
fn inside(
    files: &BTreeMap<String, Vec<u8>>,
    root: &str,
    out: &str,
) -> Result<Option<Vec<u8>>, String> {
    let io = MemIo::new("/w");
    for (p, b) in files {
        io.put(p, b);
    }
    let out = format!("/result/{}", out.rsplit('/').next().unwrap());
    io.0.borrow_mut().args = vec!["nanvm".into(), root.into(), out.clone()];
    let r = guarded(|| app::run(&io).is_ok())?;
    Ok(if r { io.get(&out) } else { None })
}

// ------------------------------------------------------------------ conversions

const OUTS: [&str; 22] = [
    "o.json",
    "o.d.mjs",
    "o.d.cjs",
    "o.json",
    "o.d.mjs",
    "o.d.cjs",
    "./o.json",
    "sub/o.d.mjs",
    "sub/../o.d.cjs",
    "a.b.json",
    "x y.d.mjs",
    "é.d.cjs",
    ".json",
    ".d.mjs",
    "-o.json",
    "o.txt",
    "o.mjs",
    "o.cjs",
    "o",
    "o.JSON",
    "o.json.bak",
    "ojson",
];

/// An output's name: those above, or one whose extension resembles a known one.
fn out_name(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        return r.pick(&OUTS).to_string();
    }
    let base = *r.pick(&[
        "o", "", "o.d", "a.json", "sub/o", "x y", "o.d.mjs", "o.d.cjs", "o.json", "d.mjs", "s.d.cjs/o", "s.d.mjs/o",
        "s.json/o",
    ]);
    let ext = *r.pick(&[".json", ".d.mjs", ".d.cjs"]);
    let ext = match r.below(4) {
        0 => ext[..r.below(ext.len())].to_string(),
        1 => ext[r.below(ext.len())..].to_string(),
        2 => {
            const PARTS: [&str; 22] = [
                ".", ".d", ".mjs", ".cjs", ".json", ".js", ".ts", ".txt", ".JSON", ".djs",
                ".jsonc", ".json5", "json", "d", "mjs", "cjs", " ", "~", ".bak", "-", "é", ".D",
            ];
            (0..r.range(1, 4)).map(|_| *r.pick(&PARTS)).collect()
        }
        _ => near(r, ext),
    };
    let n = format!("{base}{ext}");
    // names of files only
    match n.rsplit('/').next().unwrap() {
        "" | "." | ".." => "o".to_string(),
        _ => n,
    }
}

/// Many names of outputs, in memory.
fn c01_names(c: &mut Case) -> R {
    let n = out_name(&mut c.rng);
    let n = match c.rng.below(4) {
        0 => format!("/result/{n}"),
        1 => format!("./{n}"),
        _ => n,
    };
    let io = MemIo::new("/w");
    let (t, ok) = *c.rng.pick(&[
        ("[1]", true),
        ("export default {a:2}", true),
        ("const a=[3]\nmodule.exports=[a,a]", true),
        ("[", false),
    ]);
    io.put("/w/in", t.as_bytes());
    io.0.borrow_mut().args = vec!["nanvm".into(), "in".into(), n.clone()];
    let before = io.0.borrow().files.clone();
    let r = guarded(|| app::run(&io).is_ok())?;
    let dt = format_of(&n).filter(|_| ok);
    ensure!(
        r == dt.is_some(),
        "{} for the output {n:?}",
        if r { "success" } else { "failure" }
    );
    let mut after = io.0.borrow().files.clone();
    let text = after.remove(&resolve("/w", &n));
    ensure!(after == before, "another file changed for the output {n:?}");
    match (dt, text) {
        (None, None) => c.ev("names refused", 1),
        (None, Some(_)) => return Err(format!("a failure, but {n:?} is written")),
        (Some(_), None) => return Err(format!("nothing is written to {n:?}")),
        (Some(dt), Some(text)) => {
            let text = String::from_utf8(text).map_err(|_| "not text")?;
            let start = match dt {
                Dt::Json => "[{",
                Dt::Cjs => "cm",
                _ => "ce",
            };
            let x = text.chars().next().unwrap_or(' ');
            ensure!(
                start.contains(x),
                "another format in {n:?}: {}",
                text::clip(&text)
            );
            c.ev("names written", 1);
        }
    }
    c.sig(hash_str(&n));
    c.sample(|| n);
    Ok(())
}

fn text_of(c: &mut Case) -> (String, String) {
    let nodes = *c.rng.pick(&[3, 12, 40]);
    let g = if c.rng.bool() {
        gen_graph(&mut c.rng, &Opt { nodes, ..DATA })
    } else {
        gen_shape(&mut c.rng, &DATA, nodes.min(20))
    };
    let st = style(&mut c.rng);
    let t = match c.rng.below(6) {
        0 => hostile_text(&mut c.rng),
        1 | 2 => {
            let g = gen_graph(&mut c.rng, &Opt { nodes, ..JSON });
            write_json(&mut c.rng, &g, STRICT)
        }
        3 => {
            let t = write_module(&mut c.rng, &g, g.root, st, &[], LOOSE);
            mutate(&mut c.rng, &t)
        }
        _ => write_module(&mut c.rng, &g, g.root, st, &[], LOOSE),
    };
    let name = c
        .rng
        .pick(&[
            "in.json", "in.d.mjs", "in.d.cjs", "in", "in.txt", "a b", "ü.json", "-in", "x.y.z",
        ])
        .to_string();
    (name, t)
}

/// One file.
fn c01_files(c: &mut Case) -> R {
    let s = Scratch::new(c);
    let (name, t) = text_of(c);
    let sub = c.rng.bool();
    for d in ["sub", "s.d.cjs", "s.d.mjs", "s.json"] {
        s.put(&format!("{d}/keep"), b"keep");
    }
    s.put("other", b"other");
    let input = if sub {
        format!("sub/{name}")
    } else {
        name.clone()
    };
    s.put(&input, t.as_bytes());
    let out = out_name(&mut c.rng);
    let out = out.as_str();
    let place = resolve("/", out)[1..].to_string();
    let old = match c.rng.below(4) {
        0 => None,
        1 => Some(b"short".to_vec()),
        2 => Some(vec![b'x'; 20_000]),
        _ if c.rng.chance(1, 3) => {
            // the input itself
            Some(t.clone().into_bytes())
        }
        _ => None,
    };
    if let Some(b) = &old {
        s.put(&place, b);
    }
    // how the paths are written
    let abs = |c: &mut Case, p: &str| {
        if c.rng.chance(1, 3) {
            format!("{}/{p}", s.0.to_str().unwrap())
        } else {
            p.to_string()
        }
    };
    let (i, o) = (abs(c, &input), abs(c, out));
    let i = if c.rng.chance(1, 4) && !i.starts_with('/') {
        format!("./{i}")
    } else {
        i
    };
    let mut a = os(&[&i, &o]);
    if c.rng.chance(1, 10) {
        a.push("extra".into());
    }
    let mut files = BTreeMap::new();
    files.insert(format!("/w/{input}"), t.clone().into_bytes());
    let (want, g) = value(&files, &format!("/w/{input}"));
    let dt = format_of(out);
    let what = format!("{i:?} to {o:?} of {}", text::clip(&t));
    let extra = a.len() > 2;
    one(
        c,
        &s,
        &a,
        &Env::default(),
        &place,
        want,
        &g,
        dt,
        &files,
        &format!("/w/{input}"),
        extra,
    )
    .map_err(|e| format!("{e}; {what}"))?;
    c.sample(|| what);
    c.sig(hash_str(&t) ^ hash_str(out));
    Ok(())
}

/// Every size of the input and of the output, round the sizes of buffers.
fn c01_sizes(c: &mut Case) -> R {
    const AT: [usize; 12] = [
        0,
        512,
        1024,
        2048,
        4096,
        8192,
        16384,
        32768,
        65536,
        131_072,
        1 << 20,
        10_000,
    ];
    let s = Scratch::new(c);
    let k = (c.index as usize) * 7;
    let at = if AT[k % 12] > 131_072 && c.rng.chance(9, 10) {
        3 * 8192
    } else {
        AT[k % 12]
    };
    let n = (at + (k / 12) % 19).saturating_sub(9).max(2);
    let dim = k / (12 * 19) % 6;
    let letters =
        |n: usize| -> String { (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect() };
    // the text has n bytes, or what is written has about n
    let t = match dim {
        // one text
        0 => format!("\"{}\"", letters(n - 2)),
        // many values
        1 => format!("[{}1]", "7,".repeat(n.saturating_sub(3) / 2)),
        // white space before, between and behind
        2 => format!(
            "[{}]{}",
            " ".repeat((n - 2) / 2),
            "\n".repeat((n - 2) - (n - 2) / 2)
        ),
        // characters of several bytes
        3 => format!("\"{}{}\"", letters(n % 3), "\u{20ac}".repeat((n - 2) / 3)),
        // escapes, shorter or longer than what they mean
        4 => format!("\"{}\"", "\\u0041\\n\\u0001".repeat((n / 14).max(1))),
        // names
        _ => {
            let mut t = String::from("{");
            let mut i = 0;
            while t.len() + 12 < n {
                t.push_str(&format!("\"k{i}\":{i},"));
                i += 1;
            }
            format!("{t}\"{}\":0}}", letters(n.saturating_sub(t.len() + 6)))
        }
    };
    let out = *c.rng.pick(&["o.json", "o.d.mjs", "o.d.cjs"]);
    s.put("in.json", t.as_bytes());
    match c.rng.below(3) {
        // longer or shorter than the new contents
        0 => s.put(out, &vec![b'x'; n * 2 + 100]),
        1 => s.put(out, b"short"),
        _ => {}
    }
    let mut files = BTreeMap::new();
    files.insert("/w/in.json".to_string(), t.clone().into_bytes());
    let (want, g) = value(&files, "/w/in.json");
    let dt = format_of(out);
    one(
        c,
        &s,
        &os(&["in.json", out]),
        &Env::default(),
        out,
        want,
        &g,
        dt,
        &files,
        "/w/in.json",
        false,
    )
    .map_err(|e| format!("{}; a text of kind {dim}, {n} bytes", text::clip(&e)))?;
    c.ev("lengths", 1);
    c.sig((n * 8 + dim) as u64);
    Ok(())
}

/// Runs, and judges everything that can be seen.
#[allow(clippy::too_many_arguments)]
fn one(
    c: &mut Case,
    s: &Scratch,
    a: &[OsString],
    e: &Env,
    place: &str,
    want: Result<Accept, Stop>,
    g: &G,
    dt: Option<Dt>,
    files: &BTreeMap<String, Vec<u8>>,
    root: &str,
    any: bool,
) -> R {
    let before = s.look();
    let r = program(s, a, e)?;
    let after = s.look();
    let mut b2 = before.clone();
    let mut a2 = after.clone();
    b2.remove(place);
    a2.remove(place);
    ensure!(a2 == b2, "files besides the output changed");
    ensure!(
        r.out.is_empty(),
        "wrote to its standard output: {}",
        text::clip(&r.out)
    );
    if any {
        // surplus arguments: only no crash, and nothing half done
        ensure!(
            r.signal.is_none() && r.code != Some(101) && !r.err.contains("panicked at"),
            "crashed: {}",
            text::clip(&r.err)
        );
        if r.code != Some(0) {
            ensure!(after == before, "refused, but the output changed");
            return Ok(());
        }
    }
    let ok = match (&want, dt) {
        (Err(Stop::Unspecified), Some(_)) => None,
        (_, None) => Some(false),
        (Err(_), _) => Some(false),
        (Ok(x), _) if x.lenient => None,
        (Ok(_), Some(Dt::Json)) => Some(json_can(g)),
        (Ok(_), Some(_)) => Some(true),
    };
    let got = r.code == Some(0);
    proper(&r, ok.unwrap_or(got))?;
    if !got {
        ensure!(
            after == before,
            "ended with a failure, but the output changed"
        );
        c.ev(
            if dt.is_none() {
                "unknown extensions refused"
            } else {
                "failures reported"
            },
            1,
        );
        return Ok(());
    }
    let b = after.get(place).ok_or("no output")?;
    let dt = dt.unwrap();
    if ok == Some(true) {
        written(b, dt, g)?;
    }
    ensure!(
        Some(b) == inside(files, root, place)?.as_ref(),
        "not what the library writes: {}",
        text::clip(&String::from_utf8_lossy(b))
    );
    if before.contains_key(place) {
        c.ev("files replaced", 1);
    }
    c.ev(
        match dt {
            Dt::Json => "JSON documents",
            Dt::Cjs => "CommonJS modules",
            _ => "ES modules",
        },
        1,
    );
    Ok(())
}

/// The input replaced by its own conversion.
fn c01_in_place(c: &mut Case) -> R {
    let s = Scratch::new(c);
    let g = gen_graph(&mut c.rng, &Opt { nodes: 20, ..JSON });
    let name = *c.rng.pick(&["f.json", "f.d.mjs", "f.d.cjs"]);
    let st = style(&mut c.rng);
    let t = write_module(&mut c.rng, &g, g.root, st, &[], LOOSE);
    s.put(name, t.as_bytes());
    let mut files = BTreeMap::new();
    files.insert(format!("/w/{name}"), t.clone().into_bytes());
    let (want, g) = value(&files, &format!("/w/{name}"));
    one(
        c,
        &s,
        &os(&[name, &format!("./{name}")]),
        &Env::default(),
        name,
        want,
        &g,
        format_of(name),
        &files,
        &format!("/w/{name}"),
        false,
    )
    .map_err(|e| format!("{e}; in place, {}", text::clip(&t)))?;
    c.ev("conversions in place", 1);
    c.sig(hash_str(&t));
    Ok(())
}

/// Trees of modules.
fn c01_trees(c: &mut Case) -> R {
    let s = Scratch::new(c);
    let n = *c.rng.pick(&[2, 4, 8]);
    let cycles = c.rng.chance(1, 4);
    let Made { tree, .. } = gen_tree(
        &mut c.rng,
        &Shape {
            modules: n,
            nodes: 6,
            cycles,
            node: None,
            plain: true,
        },
    );
    // real directories must exist for a path to lead through them: lead it in and out is not for the system to see
    let mut files = tree.files();
    for m in &tree.modules {
        s.put(&m.path[3..], m.text.as_bytes());
    }
    for d in ["sub", "a", "b", "a/b"] {
        fs::create_dir_all(s.0.join("cwd").join(d)).unwrap();
    }
    let reach = tree.reach(0);
    let fault = c.rng.below(8);
    let v = *c.rng.pick(&reach);
    let p = tree.modules[v].path.clone();
    match fault {
        0 => {
            fs::remove_file(s.0.join(&p[3..])).unwrap();
            files.remove(&p);
        }
        1 => {
            let mut b = files[&p].clone();
            let at = c.rng.below(b.len() + 1);
            b.splice(at..at, *b"\xff");
            s.put(&p[3..], &b);
            files.insert(p.clone(), b);
        }
        2 => {
            // a directory instead
            fs::remove_file(s.0.join(&p[3..])).unwrap();
            fs::create_dir(s.0.join(&p[3..])).unwrap();
            files.remove(&p);
        }
        3 => {
            // through a link
            let q = s.0.join("linked");
            fs::rename(s.0.join(&p[3..]), &q).unwrap();
            symlink(&q, s.0.join(&p[3..])).unwrap();
        }
        _ => {}
    }
    let (want, g) = value(&files, &tree.modules[0].path);
    let root = &tree.modules[0].path[3..];
    let out = *c.rng.pick(&["o.json", "o.d.mjs", "o.d.cjs"]);
    if c.rng.bool() {
        s.put(&format!("out/{out}"), b"before");
    } else {
        fs::create_dir_all(s.0.join("out")).unwrap();
    }
    let here = s.0.to_str().unwrap().to_string();
    let (cwd, i, o) = match c.rng.below(3) {
        0 => ("", root.to_string(), format!("out/{out}")),
        1 => (
            "cwd/sub",
            format!("../../{root}"),
            format!("../../out/{out}"),
        ),
        _ => ("cwd", format!("{here}/{root}"), format!("{here}/out/{out}")),
    };
    let what = format!("{i:?} to {o:?} of {}", tree.show());
    let e = Env {
        cwd,
        ..Env::default()
    };
    one(
        c,
        &s,
        &os(&[&i, &o]),
        &e,
        &format!("out/{out}"),
        want,
        &g,
        format_of(out),
        &files,
        &tree.modules[0].path,
        false,
    )
    .map_err(|e| format!("{e}; {what}"))?;
    c.ev("module trees", 1);
    if fault < 3 {
        c.ev("module trees with a broken file", 1);
    }
    c.sig(hash_str(&tree.show()) ^ fault as u64);
    Ok(())
}

/// Runs that must fail, whatever the document.
fn c01_refusals(c: &mut Case) -> R {
    let s = Scratch::new(c);
    let g = gen_graph(&mut c.rng, &Opt { nodes: 15, ..JSON });
    let t = write_json(&mut c.rng, &g, STRICT);
    s.put("in.json", t.as_bytes());
    s.put("o.json", b"before");
    s.put("file", b"file");
    s.put("dir/x", b"x");
    fs::create_dir(s.0.join("d.json")).unwrap();
    let ext = *c.rng.pick(&[".json", ".d.mjs", ".d.cjs"]);
    let mut e = Env::default();
    let mut a: Vec<OsString>;
    let name = match c.index % 16 {
        0 => {
            a = vec![];
            "no arguments"
        }
        1 => {
            a = os(&["in.json"]);
            "one argument"
        }
        2 => {
            a = os(&["missing.json", "o.json"]);
            "missing input"
        }
        3 => {
            a = os(&["dir", "o.json"]);
            "a directory as input"
        }
        4 => {
            a = os(&["in.json", "d.json"]);
            "a directory as output"
        }
        5 => {
            a = os(&["in.json", &format!("nowhere/o{ext}")]);
            "an output in a missing directory"
        }
        6 => {
            a = os(&["in.json", &format!("file/o{ext}")]);
            "an output below a file"
        }
        7 => {
            symlink("/dev/full", s.0.join(format!("full{ext}"))).unwrap();
            a = os(&["in.json", &format!("full{ext}")]);
            "a full device"
        }
        8 => {
            s.put("bytes", b"[\"\xff\"]");
            a = os(&["bytes", "o.json"]);
            "an input that is not text"
        }
        9 => {
            s.put("empty", b"");
            a = os(&["empty", "o.json"]);
            "an empty input"
        }
        10 => {
            a = os(&["", "o.json"]);
            "an empty input name"
        }
        11 => {
            a = os(&["in.json", ""]);
            "an empty output name"
        }
        12 => {
            let t = text_of(c).1;
            s.put("t", t.as_bytes());
            a = os(&["t", c.rng.pick(&OUTS[15..])]);
            "an unknown extension"
        }
        13 => {
            let n = "n".repeat(300);
            a = os(&["in.json", &format!("{n}{ext}")]);
            "an output name too long"
        }
        14 => {
            symlink("loop.json", s.0.join("loop.json")).unwrap();
            a = if c.rng.bool() {
                os(&["loop.json", "o.json"])
            } else {
                os(&["in.json", "loop.json"])
            };
            "a link to itself"
        }
        _ => {
            s.put("t", b"[1,");
            a = os(&["t", "o.json"]);
            e.closed = true;
            "nowhere to complain"
        }
    };
    if c.rng.chance(1, 3) && a.len() == 2 {
        // absolute
        for x in a.iter_mut() {
            if !x.is_empty() {
                *x = s.0.join(&*x).into_os_string();
            }
        }
    }
    let before = s.look();
    let r = program(&s, &a, &e)?;
    let m = |x: String| format!("{x}; {name}, {a:?}, {}", text::clip(&t));
    proper(&r, false).map_err(m)?;
    ensure!(s.look() == before, "{}", m("a file changed".into()));
    ensure!(
        e.closed || !r.err.is_empty(),
        "{}",
        m("no complaint".into())
    );
    c.ev("refusals", 1);
    c.ev(name, 1);
    c.sample(|| format!("{name}: {}", text::clip(&r.err)));
    c.sig(hash_str(&t) ^ c.index % 16);
    Ok(())
}

/// The output may grow to some size only; a user without rights; input from a pipe.
fn c01_limits(c: &mut Case) -> R {
    let s = Scratch::new(c);
    let out = *c.rng.pick(&["o.json", "o.d.mjs", "o.d.cjs"]);
    match c.index % 4 {
        0 => {
            // about as long as may be written
            let k = c.rng.range(0, 2200);
            let t = format!("\"{}\"", "y".repeat(k));
            s.put("in", t.as_bytes());
            let (w, len) = (
                Env {
                    fsize: Some(1),
                    ..Env::default()
                },
                k + 2
                    + match out {
                        "o.json" => 0,
                        "o.d.mjs" => "export default ".len(),
                        _ => "module.exports=".len(),
                    },
            );
            let r = program(&s, &os(&["in", out]), &w)?;
            let fits = s.get(out).map(|b| b.len()).unwrap_or(0);
            let m = |x: String| format!("{x}; {len} bytes to write, {fits} written");
            if len <= 1000 {
                proper(&r, true).map_err(m)?;
                let (_, g) = value(&[("/w/in".to_string(), t.into_bytes())].into(), "/w/in");
                written(&s.get(out).unwrap_or_default(), format_of(out).unwrap(), &g)?;
            } else if len > 1100 {
                proper(&r, false).map_err(m)?;
                c.ev("outputs cut by the system", 1);
            }
            c.sig(k as u64);
        }
        1 => {
            // a user who may not
            s.put("in", b"[1]");
            s.put("secret", b"[1]");
            s.put(out, b"before");
            fs::create_dir(s.0.join("d")).unwrap();
            let mode = |n: &str, m: u32| {
                fs::set_permissions(s.0.join(n), fs::Permissions::from_mode(m)).unwrap()
            };
            mode("in", 0o644);
            mode("secret", 0o600);
            mode(out, 0o644);
            mode("d", 0o755);
            mode("", 0o755);
            let d = format!("d/{out}");
            let a = match c.rng.below(3) {
                0 => ["in", out],
                1 => ["in", d.as_str()],
                _ => ["secret", out],
            };
            let before = s.look();
            match program(
                &s,
                &os(&a),
                &Env {
                    nobody: true,
                    ..Env::default()
                },
            ) {
                // not to be had here, or the program is out of this user's reach
                Err(e) if e.starts_with("spawn") => c.ev("other users not available", 1),
                Err(e) => return Err(e),
                Ok(r) if matches!(r.code, Some(126) | Some(127) | Some(2)) => {
                    c.ev("other users not available", 1)
                }
                Ok(r) => {
                    proper(&r, false).map_err(|e| format!("{e}; {a:?} without permission"))?;
                    ensure!(s.look() == before, "a file changed without permission");
                    c.ev("runs without permission", 1);
                }
            }
            c.sig(hash_str(a[0]) ^ hash_str(a[1]));
        }
        2 => {
            // from a pipe
            let g = gen_graph(&mut c.rng, &Opt { nodes: 30, ..JSON });
            let t = write_json(&mut c.rng, &g, STRICT);
            let e = Env {
                stdin: Some(t.clone().into_bytes()),
                ..Env::default()
            };
            let r = program(&s, &os(&["/dev/stdin", out]), &e)?;
            proper(&r, true).map_err(|e| format!("{e}; from a pipe: {}", text::clip(&t)))?;
            let (_, g) = value(&[("/w/in".to_string(), t.into_bytes())].into(), "/w/in");
            written(&s.get(out).unwrap_or_default(), format_of(out).unwrap(), &g)?;
            c.ev("inputs from a pipe", 1);
            c.sig(g.hash());
        }
        _ => {
            // a large document
            let n = c.rng.range(1000, 20_000);
            let item = *c
                .rng
                .pick(&["12.5", "\"text\"", "[]", "{\"k\":null}", "-0"]);
            let t = format!("[{}{item}]", format!("{item},").repeat(n));
            s.put("in", t.as_bytes());
            let r = program(&s, &os(&["in", out]), &Env::default())?;
            proper(&r, true).map_err(|e| format!("{e}; {} bytes", t.len()))?;
            let (_, g) = value(&[("/w/in".to_string(), t.into_bytes())].into(), "/w/in");
            written(&s.get(out).unwrap_or_default(), format_of(out).unwrap(), &g)?;
            c.ev("large documents", 1);
            c.sig(n as u64);
        }
    }
    Ok(())
}

/// A recorded finding: arguments that are not Unicode.
fn c01_bytes(c: &mut Case) -> R {
    let s = Scratch::new(c);
    s.put("in.json", b"[1]");
    let bad = OsString::from_vec(b"x\xff.json".to_vec());
    let a = if c.index % 2 == 0 {
        vec!["in.json".into(), bad]
    } else {
        vec![bad, "o.json".into()]
    };
    let before = s.look();
    let r = program(&s, &a, &Env::default())?;
    ensure!(s.look() == before || r.code == Some(0), "a file changed");
    if let Err(e) = proper(&r, r.code == Some(0)) {
        ensure!(r.signal.is_none() && r.code != Some(0), "{e}");
        c.known("C01-argument-not-unicode", || e);
    }
    c.ev("arguments that are not Unicode", 1);
    c.sig(hash_bytes(OsStr::as_bytes(&a[0])));
    Ok(())
}

fn main() {
    let a = args();
    let kinds: &[Kind] = match a.property.as_str() {
        "NONE" => {
            println!("READY");
            return;
        }
        "C01" => &[
            kind!(c01_names, 30_000, 1_000_000, 0),
            kind!(c01_files, 6_000, 200_000, 0),
            kind!(c01_sizes, 1_368, 4_104, 0),
            kind!(c01_in_place, 400, 10_000, 0),
            kind!(c01_trees, 3_000, 100_000, 0),
            kind!(c01_refusals, 1_600, 40_000, 0),
            kind!(c01_limits, 1_200, 40_000, 0),
            kind!(c01_bytes, 4, 4, 0),
        ],
        p => panic!("unknown property {p}"),
    };
    assert!(a.tier != Tier::Tiny);
    drive(&a, kinds);
}

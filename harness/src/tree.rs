//! Random module trees.
use crate::{
    files::parent,
    io::MemIo,
    run::Rng,
    text::{write_json, write_module, Layout, Style, LOOSE, STRICT},
    val::{gen_graph, Id, Opt, DATA, G, JSON, V},
};
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Module {
    pub path: String,
    pub text: String,
    /// Which modules it imports.
    pub imports: Vec<usize>,
}

pub struct Tree {
    pub cwd: String,
    pub modules: Vec<Module>,
    /// The value of each module, with the values of its imports in place (acyclic trees only).
    pub truth: Option<(G, Vec<Id>)>,
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub modules: usize,
    pub nodes: usize,
    /// Any edges, not only to later modules.
    pub cycles: bool,
    /// One style for all, no spelling that only a plain file system understands.
    pub node: Option<Style>,
    /// Relative paths only.
    pub plain: bool,
}

/// The base directory, the current directory, the prefix under which the base is asked for.
const PLACES: [(&str, &str, &str); 6] = [
    ("/w", "/w", ""),
    ("/w", "/w", "./"),
    ("/w", "/x/y", "/w/"),
    ("/p/r", "/p/q", "../r/"),
    ("/", "/", "/"),
    ("/w/sub", "/w", "sub/"),
];

const DIRS: [&str; 8] = [
    "",
    "a/",
    "a/b/",
    "a/b/c/",
    "d/",
    "d/a/",
    "long name/",
    "..d/",
];

/// Names that mean something elsewhere (drives, URLs, shells, packages), nothing in a path here.
const ODD: [&str; 26] = [
    "c:", "C:", "node:x", "http:", "file:", "%2e%2e", "%2F", "~", "a\\b", "\\", "é", "日本", "😀", " ", "*", "?",
    "a?b=c", "#x", "-", "@s", "'", "\"", "...", ".hidden", "node_modules", "a b",
];

fn join(base: &str, rest: &str) -> String {
    if base == "/" {
        format!("/{rest}")
    } else {
        format!("{base}/{rest}")
    }
}

/// A spelling of `to` as seen from the directory `from` (both absolute and normal).
pub fn spell(r: &mut Rng, from: &str, to: &str, absolute: bool, node: bool) -> String {
    let f: Vec<&str> = from.split('/').filter(|s| !s.is_empty()).collect();
    let t: Vec<&str> = to.split('/').filter(|s| !s.is_empty()).collect();
    let mut steps: Vec<String> = vec![];
    let mut same = 0;
    if !absolute {
        while same < f.len() && same + 1 < t.len() && f[same] == t[same] {
            same += 1;
        }
        for _ in same..f.len() {
            steps.push("..".into());
        }
    }
    for s in &t[same..] {
        steps.push(s.to_string());
    }
    // noise, before any step but never so that a path climbs higher than it must
    let noise = *r.pick(&[0, 0, 10, 40]);
    let mut out: Vec<String> = vec![];
    for s in steps {
        while r.chance(noise, 100) {
            match r.below(4) {
                0 | 1 => out.push(".".into()),
                2 if !node => {
                    if !out.is_empty() {
                        out.push(String::new());
                    }
                }
                _ => {
                    let d = if r.chance(1, 4) {
                        r.pick(&ODD)
                    } else {
                        ["a", "b", "nowhere", "x.y", "...", "d"][r.below(6)]
                    };
                    let here = out.last().map(|s| s != "..").unwrap_or(true);
                    if !node && (here || s != "..") {
                        out.push(d.into());
                        out.push("..".into());
                    }
                }
            }
        }
        out.push(s);
    }
    let p = out.join("/");
    if absolute {
        format!("/{p}")
    } else if node && !p.starts_with("..") && !p.starts_with("./") {
        format!("./{p}")
    } else if r.chance(1, 2) && !p.starts_with("..") {
        format!("./{p}")
    } else {
        p
    }
}

pub struct Made {
    pub tree: Tree,
    /// How each module is asked for as the root.
    pub asked: Vec<String>,
}

pub fn gen_tree(r: &mut Rng, o: &Shape) -> Made {
    let (base, cwd, prefix) = if o.node.is_some() || o.plain {
        PLACES[0]
    } else {
        *r.pick(&PLACES)
    };
    let absolute_ok = prefix.starts_with('/') && o.node.is_none();
    let n = r.range(1, o.modules);
    let dirs = r.range(1, if o.node.is_some() { 6 } else { 8 });
    let mut places: Vec<(String, Style, String)> = vec![];
    let odd = o.node.is_none() && r.chance(1, 4);
    for i in 0..n {
        let mut d = DIRS[r.below(dirs)].to_string();
        if odd && r.bool() {
            d.push_str(r.pick(&ODD));
            d.push('/');
        }
        let style = o.node.unwrap_or_else(|| {
            *r.pick(&[Style::Mjs, Style::Mjs, Style::Cjs, Style::Cjs, Style::Bare])
        });
        let ext = match style {
            Style::Mjs if o.node.is_some() => ".d.mjs",
            Style::Cjs if o.node.is_some() => ".d.cjs",
            Style::Mjs => [".d.mjs", ".d.mjs", ".mjs", ""][r.below(4)],
            Style::Cjs => [".d.cjs", ".d.cjs", ".js", ".x.y"][r.below(4)],
            Style::Bare => [".json", ".json", ".d.json", ""][r.below(4)],
        };
        // some names only differ in their directory
        let stem = if odd && r.bool() {
            format!("{}m", r.pick(&ODD))
        } else if r.chance(1, 3) {
            "m".into()
        } else {
            format!("m{i}")
        };
        let mut rest = format!("{d}{stem}{ext}");
        while places.iter().any(|p| p.2 == rest) {
            rest = format!("{d}{stem}{i}{ext}");
        }
        places.push((join(base, &rest), style, rest));
    }
    let density = *r.pick(&[1, 2, 4]);
    let mut g_all = G::default();
    let mut roots = vec![0; n];
    let mut modules: Vec<Option<Module>> = vec![None; n];
    for i in (0..n).rev() {
        let (path, style, _) = places[i].clone();
        let mut to: Vec<usize> = vec![];
        for _ in 0..r.range(0, density) {
            let j = if o.cycles && r.chance(1, 4) {
                r.below(n)
            } else if i + 1 < n {
                if r.bool() {
                    i + 1
                } else {
                    r.range(i + 1, n - 1)
                }
            } else {
                continue;
            };
            to.push(j);
        }
        let plain = style == Style::Bare && to.is_empty();
        let opt = if plain { JSON } else { DATA };
        let mut g = gen_graph(
            r,
            &Opt {
                nodes: o.nodes,
                ..opt
            },
        );
        let mut imports: Vec<(Id, String)> = vec![];
        for &j in &to {
            let id = g.add(V::Null);
            let abs = absolute_ok && r.chance(1, 6);
            imports.push((
                id,
                spell(r, parent(&path), &places[j].0, abs, o.node.is_some()),
            ));
        }
        if !imports.is_empty() {
            let mut kids: Vec<Id> = imports.iter().map(|x| x.0).collect();
            for _ in 0..r.below(3) {
                let k = *r.pick(&kids);
                kids.push(k);
            }
            kids.push(g.root);
            r.shuffle(&mut kids);
            g.root = if r.bool() {
                g.add(V::Arr(kids))
            } else {
                g.add(V::Obj(
                    kids.into_iter()
                        .enumerate()
                        .map(|(i, k)| (format!("k{i}").encode_utf16().collect(), k))
                        .collect(),
                ))
            };
            if to.len() == 1 && r.chance(1, 6) {
                // the import itself is the value
                g.root = imports[0].0;
            }
        }
        let strict = Layout {
            newlines: r.chance(3, 4),
            ..STRICT
        };
        let text = if plain {
            write_json(r, &g, strict)
        } else {
            let l = if style == Style::Bare {
                strict
            } else {
                Layout {
                    newlines: r.chance(3, 4),
                    ..LOOSE
                }
            };
            write_module(r, &g, g.root, style, &imports, l)
        };
        if !o.cycles {
            // into the whole
            let mut map = vec![0; g.nodes.len()];
            for k in 0..g.nodes.len() {
                map[k] = match imports.iter().position(|x| x.0 == k) {
                    Some(p) => roots[to[p]],
                    None => {
                        let v = match &g.nodes[k] {
                            V::Arr(v) => V::Arr(v.iter().map(|&c| map[c]).collect()),
                            V::Obj(v) => {
                                V::Obj(v.iter().map(|(k, c)| (k.clone(), map[*c])).collect())
                            }
                            v => v.clone(),
                        };
                        g_all.add(v)
                    }
                };
            }
            roots[i] = map[g.root];
        }
        modules[i] = Some(Module {
            path,
            text,
            imports: to,
        });
    }
    let modules: Vec<Module> = modules.into_iter().map(|m| m.unwrap()).collect();
    let asked = places
        .iter()
        .map(|(path, _, rest)| {
            let p = format!("{prefix}{rest}");
            if r.chance(1, 3) && o.node.is_none() {
                // spelled with noise
                let p = spell(r, base, path, false, false);
                let p = p
                    .strip_prefix("./")
                    .unwrap_or(&p)
                    .trim_start_matches('/')
                    .to_string();
                format!("{prefix}{p}")
            } else {
                p
            }
        })
        .collect();
    Made {
        tree: Tree {
            cwd: cwd.to_string(),
            modules,
            truth: (!o.cycles).then_some((g_all, roots)),
        },
        asked,
    }
}

impl Tree {
    pub fn io(&self) -> MemIo {
        let io = MemIo::new(&self.cwd);
        for m in &self.modules {
            io.put(&m.path, m.text.as_bytes());
        }
        io
    }
    pub fn files(&self) -> BTreeMap<String, Vec<u8>> {
        self.modules
            .iter()
            .map(|m| (m.path.clone(), m.text.clone().into_bytes()))
            .collect()
    }
    /// Modules reachable from `i`, itself included.
    pub fn reach(&self, i: usize) -> Vec<usize> {
        let mut seen = vec![false; self.modules.len()];
        let mut todo = vec![i];
        seen[i] = true;
        let mut v = vec![];
        while let Some(i) = todo.pop() {
            v.push(i);
            for &j in &self.modules[i].imports {
                if !seen[j] {
                    seen[j] = true;
                    todo.push(j);
                }
            }
        }
        v.sort();
        v
    }
    pub fn circular(&self, i: usize) -> bool {
        self.reach(i).iter().any(|&k| {
            self.modules[k]
                .imports
                .iter()
                .any(|&j| self.reach(j).contains(&k))
        })
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for m in &self.modules {
            s.push_str(&format!("{}: {} | ", m.path, crate::text::clip(&m.text)));
        }
        s.chars().take(900).collect()
    }
}

//! The reference loader of modules.
use crate::{
    io::resolve,
    text::{lex, module, Accept, Loader, Stop, Why},
    val::{Id, G},
};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Default, Clone)]
pub struct Files {
    pub files: BTreeMap<String, Vec<u8>>,
    /// Reading these fails.
    pub bad: BTreeSet<String>,
    /// What was asked of the file system, in order.
    pub reads: Vec<String>,
    pub complete: HashMap<String, Id>,
    pub progress: Vec<String>,
}

pub fn parent(path: &str) -> &str {
    path.rsplit_once('/').map(|x| x.0).unwrap_or("")
}

impl Files {
    fn text(&mut self, path: &str) -> Result<String, Stop> {
        self.reads.push(path.to_string());
        if self.bad.contains(path) {
            return Err(Stop::Reject(Why::Read));
        }
        let b = self.files.get(path).ok_or(Stop::Reject(Why::Read))?;
        String::from_utf8(b.clone()).map_err(|_| Stop::Reject(Why::Read))
    }
    /// Reads the root module. The path is absolute and normal.
    pub fn root(&mut self, g: &mut G, path: &str) -> Result<Accept, Stop> {
        let t = self.text(path)?;
        self.run(g, path, &t)
    }
    pub fn run(&mut self, g: &mut G, path: &str, text: &str) -> Result<Accept, Stop> {
        self.progress.push(path.to_string());
        let r = module(&lex(text), g, self);
        self.progress.pop();
        r
    }
}

impl Loader for Files {
    fn import(&mut self, g: &mut G, spec: &str) -> Result<Id, Stop> {
        let at = self.progress.last().cloned().unwrap_or_default();
        let path = resolve(parent(&at), spec);
        if let Some(i) = self.complete.get(&path) {
            return Ok(*i);
        }
        if self.progress.contains(&path) {
            return Err(Stop::Reject(Why::Cycle));
        }
        let t = self.text(&path)?;
        let a = self.run(g, &path, &t)?;
        if a.lenient {
            return Err(Stop::Unspecified);
        }
        self.complete.insert(path, a.root);
        Ok(a.root)
    }
}

//! Random histories over shared values, with a model of who owns what. Serves M01 and M02.
use crate::{
    ensure,
    run::{Case, Tier, R},
    track,
};
use nanvm_lib::{
    js::{
        any::Any,
        any_cast::AnyCast,
        js_array::{new_array, JsArray, JsArrayMutRef, JsArrayRef},
        js_bigint::{new_bigint, JsBigint, JsBigintMutRef, JsBigintRef, Sign},
        js_object::{new_object, JsObject, JsObjectMutRef, JsObjectRef},
        js_string::{new_string, JsString, JsStringMutRef, JsStringRef},
        null::Null,
        type_::Type,
    },
    mem::{
        flexible_array::{header::FlexibleArrayHeader, FlexibleArray},
        manager::{Dealloc, Manager},
        mut_ref::MutRef,
        object::Object,
        ref_::Ref,
    },
};
use std::{
    cell::RefCell,
    collections::{HashMap, HashSet},
};

// ------------------------------------------------------------------ watched user values

thread_local! {
    static PROBES: RefCell<(u64, HashMap<u64, u32>, Vec<String>)> = RefCell::new(Default::default());
}

/// A value that reports its destruction.
#[derive(Debug)]
pub struct Probe<D: Dealloc> {
    id: u64,
    tag: u64,
    child: Option<Any<D>>,
}

impl<D: Dealloc> Probe<D> {
    fn new(tag: u64, child: Option<Any<D>>) -> Self {
        let id = PROBES.with(|p| {
            let mut p = p.borrow_mut();
            p.0 += 1;
            let id = p.0;
            p.1.insert(id, 0);
            id
        });
        Probe { id, tag, child }
    }
}

impl<D: Dealloc> Drop for Probe<D> {
    fn drop(&mut self) {
        PROBES.with(|p| {
            let mut p = p.borrow_mut();
            let id = self.id;
            match p.1.remove(&id) {
                Some(_) => {}
                None => {
                    p.2.push(format!("element {id} destroyed twice or never created"))
                }
            }
        })
    }
}

fn probes_live() -> usize {
    PROBES.with(|p| p.borrow().1.len())
}

fn probes_reset() -> Option<String> {
    PROBES.with(|p| {
        let mut p = p.borrow_mut();
        p.1.clear();
        std::mem::take(&mut p.2).into_iter().next()
    })
}

fn probes_error() -> Option<String> {
    PROBES.with(|p| p.borrow().2.first().cloned())
}

/// A header that must be destroyed, too.
#[derive(Debug)]
pub struct Head<D: Dealloc> {
    probe: Probe<D>,
    len: u32,
}

impl<D: Dealloc> FlexibleArrayHeader for Head<D> {
    fn len(&self) -> usize {
        self.len as usize
    }
}

type Flex<D> = FlexibleArray<Probe<D>, Head<D>>;

/// References to a type which has no public name.
trait Fix<D: Dealloc> {
    fn copy(&self) -> Box<dyn Fix<D>>;
    fn probe(&self) -> &Probe<D>;
    fn addr(&self) -> usize;
    fn exclusive(self: Box<Self>) -> Result<Box<dyn FixMut<D>>, Box<dyn Fix<D>>>;
}

trait FixMut<D: Dealloc> {
    fn probe(&mut self) -> &mut Probe<D>;
    fn look(&self) -> &Probe<D>;
    fn addr(&self) -> usize;
    fn share(self: Box<Self>) -> Box<dyn Fix<D>>;
}

struct FixRef<X: Object, D: Dealloc> {
    r: Ref<X, D>,
    get: fn(&X) -> &Probe<D>,
    get_mut: fn(&mut X) -> &mut Probe<D>,
}

struct FixMutRef<X: Object, D: Dealloc> {
    r: MutRef<X, D>,
    get: fn(&X) -> &Probe<D>,
    get_mut: fn(&mut X) -> &mut Probe<D>,
}

impl<X: Object + 'static, D: Dealloc + 'static> Fix<D> for FixRef<X, D> {
    fn copy(&self) -> Box<dyn Fix<D>> {
        Box::new(FixRef {
            r: self.r.clone(),
            get: self.get,
            get_mut: self.get_mut,
        })
    }
    fn probe(&self) -> &Probe<D> {
        (self.get)(&self.r)
    }
    fn addr(&self) -> usize {
        &*self.r as *const X as usize
    }
    fn exclusive(self: Box<Self>) -> Result<Box<dyn FixMut<D>>, Box<dyn Fix<D>>> {
        let FixRef { r, get, get_mut } = *self;
        match r.try_to_mut_ref() {
            Ok(r) => Ok(Box::new(FixMutRef { r, get, get_mut })),
            Err(r) => Err(Box::new(FixRef { r, get, get_mut })),
        }
    }
}

impl<X: Object + 'static, D: Dealloc + 'static> FixMut<D> for FixMutRef<X, D> {
    fn probe(&mut self) -> &mut Probe<D> {
        (self.get_mut)(&mut self.r)
    }
    fn look(&self) -> &Probe<D> {
        (self.get)(&self.r)
    }
    fn addr(&self) -> usize {
        &*self.r as *const X as usize
    }
    fn share(self: Box<Self>) -> Box<dyn Fix<D>> {
        let FixMutRef { r, get, get_mut } = *self;
        Box::new(FixRef {
            r: r.to_ref(),
            get,
            get_mut,
        })
    }
}

fn fix<X: Object + 'static, D: Dealloc + 'static>(
    r: MutRef<X, D>,
    get: fn(&X) -> &Probe<D>,
    get_mut: fn(&mut X) -> &mut Probe<D>,
) -> Box<dyn FixMut<D>> {
    Box::new(FixMutRef { r, get, get_mut })
}

// ------------------------------------------------------------------ the model

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Kind {
    Str,
    Big,
    Arr,
    Obj,
    Fix,
    Flex,
}

const KINDS: [Kind; 6] = [
    Kind::Str,
    Kind::Big,
    Kind::Arr,
    Kind::Obj,
    Kind::Fix,
    Kind::Flex,
];

/// What a slot holds: an immediate (type and bits) or an owned reference.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Slot {
    Num(u64),
    Bool(bool),
    Null,
    Ref(usize),
}

#[derive(Clone, Debug)]
enum Content {
    Str(Vec<u16>),
    Big(bool, Vec<u64>),
    Arr(Vec<Slot>),
    Obj(Vec<(usize, Slot)>),
    Fix(u64, Option<Slot>),
    Flex(u64, Option<Slot>, Vec<(u64, Option<Slot>)>),
}

struct Node {
    kind: Kind,
    /// Handles and containers that own a reference.
    owners: usize,
    content: Content,
    addr: usize,
    alive: bool,
    /// Longest chain below.
    height: usize,
}

enum H<D: Dealloc> {
    Any(Any<D>),
    Str(JsStringRef<D>),
    Big(JsBigintRef<D>),
    Arr(JsArrayRef<D>),
    Obj(JsObjectRef<D>),
    Fix(Box<dyn Fix<D>>),
    Flex(Ref<Flex<D>, D>),
    MStr(JsStringMutRef<D>),
    MBig(JsBigintMutRef<D>),
    MArr(JsArrayMutRef<D>),
    MObj(JsObjectMutRef<D>),
    MFix(Box<dyn FixMut<D>>),
    MFlex(MutRef<Flex<D>, D>),
}

pub struct World<M: Manager>
where
    M::Dealloc: 'static,
{
    m: M,
    nodes: Vec<Node>,
    handles: Vec<(H<M::Dealloc>, Slot)>,
    tracked: bool,
    /// Containers whose content this check has already seen.
    seen: RefCell<HashSet<usize>>,
}

fn is_mut<D: Dealloc>(h: &H<D>) -> bool {
    matches!(
        h,
        H::MStr(_) | H::MBig(_) | H::MArr(_) | H::MObj(_) | H::MFix(_) | H::MFlex(_)
    )
}

fn addr_of<T>(x: &T) -> usize {
    x as *const T as usize
}

impl<M: Manager> World<M>
where
    M::Dealloc: 'static,
{
    pub fn new(m: M, tracked: bool) -> Self {
        World {
            m,
            nodes: vec![],
            handles: vec![],
            tracked,
            seen: RefCell::default(),
        }
    }

    // -------------------------------------------------------------- ownership in the model

    fn gain(&mut self, s: Slot) {
        if let Slot::Ref(i) = s {
            self.nodes[i].owners += 1;
        }
    }

    fn lose(&mut self, s: Slot) {
        let mut todo = vec![s];
        while let Some(s) = todo.pop() {
            if let Slot::Ref(i) = s {
                let n = &mut self.nodes[i];
                assert!(n.alive && n.owners > 0);
                n.owners -= 1;
                if n.owners == 0 {
                    n.alive = false;
                    match &n.content {
                        Content::Arr(v) => todo.extend(v),
                        Content::Obj(v) => {
                            for (k, x) in v {
                                todo.push(Slot::Ref(*k));
                                todo.push(*x);
                            }
                        }
                        Content::Fix(_, c) => todo.extend(c.iter()),
                        Content::Flex(_, h, v) => {
                            todo.extend(h.iter());
                            todo.extend(v.iter().filter_map(|x| x.1));
                        }
                        _ => {}
                    }
                }
            }
        }
    }

    fn alive(&self) -> usize {
        self.nodes.iter().filter(|n| n.alive).count()
    }

    fn probes(&self) -> usize {
        self.nodes
            .iter()
            .filter(|n| n.alive)
            .map(|n| match &n.content {
                Content::Fix(..) => 1,
                Content::Flex(_, _, v) => v.len() + 1,
                _ => 0,
            })
            .sum()
    }

    fn height(&self, s: Slot) -> usize {
        match s {
            Slot::Ref(i) => self.nodes[i].height,
            _ => 0,
        }
    }

    fn set_height(&mut self, i: usize) {
        let h = match &self.nodes[i].content {
            Content::Arr(v) => v.iter().map(|x| self.height(*x)).max(),
            Content::Obj(v) => v.iter().map(|x| self.height(x.1)).max(),
            Content::Fix(_, c) => c.map(|x| self.height(x)),
            Content::Flex(_, h, v) => v
                .iter()
                .filter_map(|x| x.1)
                .chain(*h)
                .map(|x| self.height(x))
                .max(),
            _ => None,
        };
        self.nodes[i].height = 1 + h.unwrap_or(0);
    }

    // -------------------------------------------------------------- content against the model

    fn check_any(&self, a: &Any<M::Dealloc>, s: Slot, deep: usize) -> R {
        let t = a.get_type();
        match s {
            Slot::Num(b) => {
                ensure!(t == Type::Number, "number became {t:?}");
                let v: f64 = a.clone().try_move().map_err(|_| "number refused")?;
                ensure!(v.to_bits() == b, "number {b:x} became {:x}", v.to_bits());
            }
            Slot::Bool(b) => {
                ensure!(t == Type::Bool, "bool became {t:?}");
                let v: bool = a.clone().try_move().map_err(|_| "bool refused")?;
                ensure!(v == b, "bool changed");
            }
            Slot::Null => ensure!(t == Type::Null, "null became {t:?}"),
            Slot::Ref(i) => {
                let n = &self.nodes[i];
                ensure!(n.alive, "model error");
                match n.kind {
                    Kind::Str => {
                        ensure!(t == Type::String, "string became {t:?}");
                        let b = a.try_ref::<JsString>().map_err(|_| "string refused")?;
                        self.check_str(b.object(), i)?;
                    }
                    Kind::Big => {
                        ensure!(t == Type::Bigint, "bigint became {t:?}");
                        let b = a.try_ref::<JsBigint>().map_err(|_| "bigint refused")?;
                        self.check_big(b.object(), i)?;
                    }
                    Kind::Arr => {
                        ensure!(t == Type::Array, "array became {t:?}");
                        let b = a.try_ref::<JsArray<_>>().map_err(|_| "array refused")?;
                        self.check_arr(b.object(), i, deep)?;
                    }
                    Kind::Obj => {
                        ensure!(t == Type::Object, "object became {t:?}");
                        let b = a.try_ref::<JsObject<_>>().map_err(|_| "object refused")?;
                        self.check_obj(b.object(), i, deep)?;
                    }
                    _ => unreachable!(),
                }
            }
        }
        Ok(())
    }

    fn check_addr<T>(&self, x: &T, i: usize) -> R {
        ensure!(
            addr_of(x) == self.nodes[i].addr,
            "value {i} ({:?}) moved",
            self.nodes[i].kind
        );
        Ok(())
    }

    fn check_str(&self, x: &JsString, i: usize) -> R {
        self.check_addr(x, i)?;
        let Content::Str(v) = &self.nodes[i].content else {
            unreachable!()
        };
        ensure!(
            x.items() == v.as_slice(),
            "string {i} holds {:?}, not {v:?}",
            x.items()
        );
        Ok(())
    }

    fn check_big(&self, x: &JsBigint, i: usize) -> R {
        self.check_addr(x, i)?;
        let Content::Big(neg, v) = &self.nodes[i].content else {
            unreachable!()
        };
        ensure!(
            x.items() == v.as_slice() && (x.sign() == Sign::Negative) == *neg,
            "bigint {i} changed"
        );
        Ok(())
    }

    fn check_arr(&self, x: &JsArray<M::Dealloc>, i: usize, deep: usize) -> R {
        self.check_addr(x, i)?;
        let Content::Arr(v) = &self.nodes[i].content else {
            unreachable!()
        };
        ensure!(
            x.items().len() == v.len(),
            "array {i} has {} items, not {}",
            x.items().len(),
            v.len()
        );
        if deep > 0 && self.seen.borrow_mut().insert(i) {
            for (a, s) in x.items().iter().zip(v) {
                self.check_any(a, *s, deep - 1)
                    .map_err(|e| format!("in array {i}: {e}"))?;
            }
        }
        Ok(())
    }

    fn check_obj(&self, x: &JsObject<M::Dealloc>, i: usize, deep: usize) -> R {
        self.check_addr(x, i)?;
        let Content::Obj(v) = &self.nodes[i].content else {
            unreachable!()
        };
        ensure!(
            x.items().len() == v.len(),
            "object {i} has {} items",
            x.items().len()
        );
        if deep > 0 && self.seen.borrow_mut().insert(i) {
            for ((k, a), (ki, s)) in x.items().iter().zip(v) {
                self.check_str(k, *ki)
                    .map_err(|e| format!("key in object {i}: {e}"))?;
                self.check_any(a, *s, deep - 1)
                    .map_err(|e| format!("in object {i}: {e}"))?;
            }
        }
        Ok(())
    }

    fn check_probe(&self, x: &Probe<M::Dealloc>, tag: u64, child: Option<Slot>, deep: usize) -> R {
        ensure!(x.tag == tag, "stored value {tag} became {}", x.tag);
        match (&x.child, child) {
            (None, None) => Ok(()),
            (Some(a), Some(s)) if deep > 0 => self.check_any(a, s, deep - 1),
            (Some(_), Some(_)) => Ok(()),
            _ => Err("stored reference appeared or vanished".into()),
        }
    }

    fn check_flex(&self, x: &Flex<M::Dealloc>, i: usize, deep: usize) -> R {
        self.check_addr(x, i)?;
        let Content::Flex(t, h, v) = &self.nodes[i].content else {
            unreachable!()
        };
        self.check_probe(&x.header.probe, *t, *h, deep)
            .map_err(|e| format!("header of {i}: {e}"))?;
        ensure!(
            x.items().len() == v.len(),
            "flexible array {i} has {} items",
            x.items().len()
        );
        if !self.seen.borrow_mut().insert(i) {
            return Ok(());
        }
        for (p, (t, c)) in x.items().iter().zip(v) {
            self.check_probe(p, *t, *c, deep)
                .map_err(|e| format!("in {i}: {e}"))?;
        }
        Ok(())
    }

    fn check_fix(&self, x: &Probe<M::Dealloc>, addr: usize, i: usize, deep: usize) -> R {
        ensure!(addr == self.nodes[i].addr, "value {i} moved");
        let Content::Fix(t, c) = &self.nodes[i].content else {
            unreachable!()
        };
        self.check_probe(x, *t, *c, deep)
            .map_err(|e| format!("value {i}: {e}"))
    }

    fn check_handle(&self, k: usize, deep: usize) -> R {
        let (h, s) = &self.handles[k];
        if let H::Any(a) = h {
            return self.check_any(a, *s, deep);
        }
        let Slot::Ref(i) = *s else { unreachable!() };
        match h {
            H::Any(_) => unreachable!(),
            H::Str(r) => self.check_str(r, i),
            H::MStr(r) => self.check_str(r, i),
            H::Big(r) => self.check_big(r, i),
            H::MBig(r) => self.check_big(r, i),
            H::Arr(r) => self.check_arr(r, i, deep),
            H::MArr(r) => self.check_arr(r, i, deep),
            H::Obj(r) => self.check_obj(r, i, deep),
            H::MObj(r) => self.check_obj(r, i, deep),
            H::Fix(r) => self.check_fix(r.probe(), r.addr(), i, deep),
            H::MFix(r) => self.check_fix(r.look(), r.addr(), i, deep),
            H::Flex(r) => self.check_flex(r, i, deep),
            H::MFlex(r) => self.check_flex(r, i, deep),
        }
    }

    /// The books against the model.
    pub fn check(&self, deep: bool) -> R {
        if let Some(e) = probes_error() {
            return Err(e);
        }
        let p = self.probes();
        ensure!(
            probes_live() == p,
            "{} stored values exist, {p} are owned",
            probes_live()
        );
        if self.tracked {
            let n = self.alive();
            ensure!(
                track::live() == n,
                "{} blocks are allocated, {n} values are owned",
                track::live()
            );
            if deep {
                for (i, n) in self.nodes.iter().enumerate().filter(|n| n.1.alive) {
                    ensure!(
                        track::block_of(n.addr).is_some(),
                        "value {i} ({:?}, {} owners) lies in no live block",
                        n.kind,
                        n.owners
                    );
                }
                track::verify()?;
            }
        }
        if deep {
            self.seen.borrow_mut().clear();
            for k in 0..self.handles.len() {
                self.check_handle(k, 40)?;
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------- operations

    fn push(&mut self, h: H<M::Dealloc>, s: Slot) {
        self.gain(s);
        self.handles.push((h, s));
    }

    /// A value usable inside a container, owned by the caller; may consume a handle.
    fn child(&mut self, c: &mut Case) -> (Any<M::Dealloc>, Slot) {
        for _ in 0..4 {
            if self.handles.is_empty() || c.rng.chance(1, 3) {
                break;
            }
            let k = c.rng.below(self.handles.len());
            let take = c.rng.chance(1, 3);
            if self.height(self.handles[k].1) > 20 {
                continue;
            }
            if take {
                // the reference itself moves in
                let is_any = matches!(self.handles[k].0, H::Any(_));
                if is_any || self.to_any(k) {
                    // a converted handle is the last one
                    let k = if is_any { k } else { self.handles.len() - 1 };
                    let (h, s) = self.handles.swap_remove(k);
                    let H::Any(a) = h else { unreachable!() };
                    c.ev("handles moved into values", 1);
                    return (a, s);
                }
                continue;
            }
            let s = self.handles[k].1;
            let any: Option<Any<M::Dealloc>> = match &self.handles[k].0 {
                H::Any(a) => Some(a.clone()),
                H::Str(r) => Some(r.clone().move_to_any()),
                H::Big(r) => Some(Any::move_from(r.clone())),
                H::Arr(r) => Some(r.clone().move_to_any()),
                H::Obj(r) => Some(r.clone().move_to_any()),
                _ => None,
            };
            if let Some(a) = any {
                self.gain(s);
                return (a, s);
            }
        }
        match c.rng.below(3) {
            0 => {
                let b = (c.rng.below(1000) as f64 / 8.0).to_bits();
                (f64::from_bits(b).move_to_any(), Slot::Num(b))
            }
            1 => {
                let b = c.rng.bool();
                (b.move_to_any(), Slot::Bool(b))
            }
            _ => (Null().move_to_any(), Slot::Null),
        }
    }

    fn probe(&mut self, c: &mut Case) -> (Probe<M::Dealloc>, u64, Option<Slot>) {
        let tag = c.rng.u64();
        if c.rng.bool() {
            let (a, s) = self.child(c);
            (Probe::new(tag, Some(a)), tag, Some(s))
        } else {
            (Probe::new(tag, None), tag, None)
        }
    }

    fn key(&mut self, c: &mut Case) -> (JsStringRef<M::Dealloc>, usize) {
        // an existing string or a new one
        let strs: Vec<usize> = (0..self.handles.len())
            .filter(|&k| matches!(self.handles[k].0, H::Str(_)))
            .collect();
        if !strs.is_empty() && c.rng.bool() {
            let k = *c.rng.pick(&strs);
            if let (H::Str(r), Slot::Ref(i)) = &self.handles[k] {
                let (r, i) = (r.clone(), *i);
                self.gain(Slot::Ref(i));
                return (r, i);
            }
        }
        let r = self.new_str(c);
        let i = self.node(
            Kind::Str,
            Content::Str(r.items().to_vec()),
            addr_of::<JsString>(&r),
        );
        self.gain(Slot::Ref(i));
        (r.to_ref(), i)
    }

    fn node(&mut self, kind: Kind, content: Content, addr: usize) -> usize {
        self.nodes.push(Node {
            kind,
            owners: 0,
            content,
            addr,
            alive: true,
            height: 0,
        });
        let i = self.nodes.len() - 1;
        self.set_height(i);
        i
    }

    fn new_str(&mut self, c: &mut Case) -> JsStringMutRef<M::Dealloc> {
        let n = c.rng.size(9);
        let v: Vec<u16> = (0..n).map(|_| c.rng.u64() as u16).collect();
        new_string(self.m, v)
    }

    fn create(&mut self, c: &mut Case, kind: Kind) {
        c.ev("values created", 1);
        let (h, i) = match kind {
            Kind::Str => {
                let r = self.new_str(c);
                let i = self.node(
                    kind,
                    Content::Str(r.items().to_vec()),
                    addr_of::<JsString>(&r),
                );
                (H::MStr(r), i)
            }
            Kind::Big => {
                let n = c.rng.size(4);
                let v: Vec<u64> = (0..n).map(|_| c.rng.u64() | 1).collect();
                let neg = n > 0 && c.rng.bool();
                let s = if neg { Sign::Negative } else { Sign::Positive };
                let r = new_bigint(self.m, s, v.clone());
                let i = self.node(kind, Content::Big(neg, v), addr_of::<JsBigint>(&r));
                (H::MBig(r), i)
            }
            Kind::Arr => {
                let n = c.rng.size(5);
                let (mut items, mut v) = (vec![], vec![]);
                for _ in 0..n {
                    let (a, s) = self.child(c);
                    items.push(a);
                    v.push(s);
                }
                let r = new_array(self.m, items);
                let i = self.node(kind, Content::Arr(v), addr_of::<JsArray<_>>(&r));
                (H::MArr(r), i)
            }
            Kind::Obj => {
                let n = c.rng.size(4);
                let (mut items, mut v) = (vec![], vec![]);
                for _ in 0..n {
                    let (k, ki) = self.key(c);
                    let (a, s) = self.child(c);
                    items.push((k, a));
                    v.push((ki, s));
                }
                let r = new_object(self.m, items);
                let i = self.node(kind, Content::Obj(v), addr_of::<JsObject<_>>(&r));
                (H::MObj(r), i)
            }
            Kind::Fix => {
                let (p, t, s) = self.probe(c);
                let r = fix(self.m.fixed_new(p), |x| &x.0, |x| &mut x.0);
                let i = self.node(kind, Content::Fix(t, s), r.addr());
                (H::MFix(r), i)
            }
            Kind::Flex => {
                let n = c.rng.size(4);
                let (hp, ht, hs) = self.probe(c);
                let (mut items, mut v) = (vec![], vec![]);
                for _ in 0..n {
                    let (p, t, s) = self.probe(c);
                    items.push(p);
                    v.push((t, s));
                }
                let head = Head {
                    probe: hp,
                    len: n as u32,
                };
                let r = self.m.new(head.constructor(items.into_iter()));
                let i = self.node(kind, Content::Flex(ht, hs, v), addr_of::<Flex<_>>(&r));
                (H::MFlex(r), i)
            }
        };
        self.push(h, Slot::Ref(i));
        if c.rng.chance(3, 4) {
            let k = self.handles.len() - 1;
            self.share(k);
        }
    }

    fn share(&mut self, k: usize) {
        let (h, s) = self.handles.swap_remove(k);
        let h = match h {
            H::MStr(r) => H::Str(r.to_ref()),
            H::MBig(r) => H::Big(r.to_ref()),
            H::MArr(r) => H::Arr(r.to_ref()),
            H::MObj(r) => H::Obj(r.to_ref()),
            H::MFix(r) => H::Fix(r.share()),
            H::MFlex(r) => H::Flex(r.to_ref()),
            h => h,
        };
        self.handles.push((h, s));
    }

    fn drop_handle(&mut self, k: usize) {
        let (h, s) = self.handles.swap_remove(k);
        drop(h);
        self.lose(s);
    }

    fn clone_handle(&mut self, k: usize) -> bool {
        let s = self.handles[k].1;
        let h = match &self.handles[k].0 {
            H::Any(a) => H::Any(a.clone()),
            H::Str(r) => H::Str(r.clone()),
            H::Big(r) => H::Big(r.clone()),
            H::Arr(r) => H::Arr(r.clone()),
            H::Obj(r) => H::Obj(r.clone()),
            H::Fix(r) => H::Fix(r.copy()),
            H::Flex(r) => H::Flex(r.clone()),
            _ => return false,
        };
        self.push(h, s);
        true
    }

    fn to_any(&mut self, k: usize) -> bool {
        if !matches!(
            self.handles[k].0,
            H::Str(_) | H::Big(_) | H::Arr(_) | H::Obj(_)
        ) {
            return false;
        }
        let (h, s) = self.handles.swap_remove(k);
        let a = match h {
            H::Str(r) => r.move_to_any(),
            H::Big(r) => Any::move_from(r),
            H::Arr(r) => r.move_to_any(),
            H::Obj(r) => Any::move_from(r),
            _ => unreachable!(),
        };
        self.handles.push((H::Any(a), s));
        true
    }

    fn from_any(&mut self, k: usize) -> R {
        let (h, s) = self.handles.swap_remove(k);
        let H::Any(a) = h else { unreachable!() };
        let h = match s {
            Slot::Ref(i) => match self.nodes[i].kind {
                Kind::Str => H::Str(a.try_move().map_err(|_| "string refused")?),
                Kind::Big => H::Big(a.try_move().map_err(|_| "bigint refused")?),
                Kind::Arr => H::Arr(a.try_move().map_err(|_| "array refused")?),
                Kind::Obj => H::Obj(a.try_move().map_err(|_| "object refused")?),
                _ => unreachable!(),
            },
            _ => H::Any(a),
        };
        self.handles.push((h, s));
        Ok(())
    }

    /// Taking a value out as the wrong kind is refused, and gives the reference up.
    fn wrong_move(&mut self, c: &mut Case, k: usize) -> R {
        let (h, s) = self.handles.swap_remove(k);
        let H::Any(a) = h else { unreachable!() };
        let kind = match s {
            Slot::Ref(i) => Some(self.nodes[i].kind),
            _ => None,
        };
        let wrong = match c.rng.below(7) {
            0 if kind != Some(Kind::Str) => a.try_move::<JsStringRef<_>>().is_err(),
            1 if kind != Some(Kind::Big) => a.try_move::<JsBigintRef<_>>().is_err(),
            2 if kind != Some(Kind::Arr) => a.try_move::<JsArrayRef<_>>().is_err(),
            3 if kind != Some(Kind::Obj) => a.try_move::<JsObjectRef<_>>().is_err(),
            4 if !matches!(s, Slot::Num(_)) => a.try_move::<f64>().is_err(),
            5 if !matches!(s, Slot::Bool(_)) => a.try_move::<bool>().is_err(),
            6 if !matches!(s, Slot::Null) => a.try_move::<Null>().is_err(),
            _ => {
                drop(a);
                true
            }
        };
        ensure!(wrong, "{s:?} was given as another kind");
        self.lose(s);
        c.ev("refused kinds", 1);
        Ok(())
    }

    fn extract(&mut self, c: &mut Case, k: usize) -> bool {
        let got = match &self.handles[k] {
            (H::Arr(r), Slot::Ref(i)) => {
                let Content::Arr(v) = &self.nodes[*i].content else {
                    unreachable!()
                };
                if v.is_empty() {
                    return false;
                }
                let j = c.rng.below(v.len());
                (H::Any(r.items()[j].clone()), v[j])
            }
            (H::Obj(r), Slot::Ref(i)) => {
                let Content::Obj(v) = &self.nodes[*i].content else {
                    unreachable!()
                };
                if v.is_empty() {
                    return false;
                }
                let j = c.rng.below(v.len());
                if c.rng.bool() {
                    (H::Str(r.items()[j].0.clone()), Slot::Ref(v[j].0))
                } else {
                    (H::Any(r.items()[j].1.clone()), v[j].1)
                }
            }
            (H::Flex(r), Slot::Ref(i)) => {
                let Content::Flex(_, _, v) = &self.nodes[*i].content else {
                    unreachable!()
                };
                let with: Vec<usize> = (0..v.len()).filter(|&j| v[j].1.is_some()).collect();
                if with.is_empty() {
                    return false;
                }
                let j = *c.rng.pick(&with);
                (H::Any(r.items()[j].child.clone().unwrap()), v[j].1.unwrap())
            }
            _ => return false,
        };
        self.push(got.0, got.1);
        true
    }

    /// Asks for exclusive access; the model says what must happen.
    fn exclusive(&mut self, c: &mut Case, k: usize) -> R {
        let (h, s) = self.handles.swap_remove(k);
        let Slot::Ref(i) = s else { unreachable!() };
        let only = self.nodes[i].owners == 1;
        let h = match h {
            H::Str(r) => match r.try_to_mut_ref() {
                Ok(m) => H::MStr(m),
                Err(r) => H::Str(r),
            },
            H::Big(r) => match r.try_to_mut_ref() {
                Ok(m) => H::MBig(m),
                Err(r) => H::Big(r),
            },
            H::Arr(r) => match r.try_to_mut_ref() {
                Ok(m) => H::MArr(m),
                Err(r) => H::Arr(r),
            },
            H::Obj(r) => match r.try_to_mut_ref() {
                Ok(m) => H::MObj(m),
                Err(r) => H::Obj(r),
            },
            H::Flex(r) => match r.try_to_mut_ref() {
                Ok(m) => H::MFlex(m),
                Err(r) => H::Flex(r),
            },
            H::Fix(r) => match r.exclusive() {
                Ok(m) => H::MFix(m),
                Err(r) => H::Fix(r),
            },
            h => h,
        };
        let given = is_mut(&h);
        self.handles.push((h, s));
        if given {
            c.ev("exclusive access given", 1);
        } else {
            c.ev("exclusive access refused", 1);
        }
        ensure!(
            given == only,
            "exclusive access to value {i} ({:?}) with {} owners was {}",
            self.nodes[i].kind,
            self.nodes[i].owners,
            if given { "given" } else { "refused" }
        );
        self.seen.borrow_mut().clear();
        self.check_handle(self.handles.len() - 1, 3)
    }

    /// Changes a value through its exclusive reference.
    fn mutate(&mut self, c: &mut Case, k: usize) {
        let Slot::Ref(i) = self.handles[k].1 else {
            unreachable!()
        };
        // a fresh child whose ownership goes into the value (not the value itself)
        let keep = self.handles.swap_remove(k);
        let new = self.child_not(c, i);
        self.handles.push(keep);
        let k = self.handles.len() - 1;
        let mut lost = vec![];
        let mut used = false;
        let (any, slot) = new;
        let mut any = Some(any);
        let node = &mut self.nodes[i];
        match (&mut self.handles[k].0, &mut node.content) {
            (H::MStr(r), Content::Str(v)) => {
                if !v.is_empty() {
                    let j = c.rng.below(v.len());
                    v[j] = c.rng.u64() as u16;
                    r.items_mut()[j] = v[j];
                }
            }
            (H::MBig(r), Content::Big(_, v)) => {
                if !v.is_empty() {
                    let j = c.rng.below(v.len());
                    v[j] = c.rng.u64() | 1;
                    r.items_mut()[j] = v[j];
                }
            }
            (H::MArr(r), Content::Arr(v)) => {
                if !v.is_empty() {
                    let j = c.rng.below(v.len());
                    lost.push(v[j]);
                    v[j] = slot;
                    r.items_mut()[j] = any.take().unwrap();
                    used = true;
                    if v.len() > 1 && c.rng.bool() {
                        v.swap(0, 1);
                        r.items_mut().swap(0, 1);
                    }
                }
            }
            (H::MObj(r), Content::Obj(v)) => {
                if !v.is_empty() {
                    let j = c.rng.below(v.len());
                    lost.push(v[j].1);
                    v[j].1 = slot;
                    r.items_mut()[j].1 = any.take().unwrap();
                    used = true;
                }
            }
            (H::MFix(r), Content::Fix(t, s)) => {
                *t = c.rng.u64();
                lost.extend(s.take());
                *s = Some(slot);
                let p = r.probe();
                p.tag = *t;
                p.child = any.take();
                used = true;
            }
            (H::MFlex(r), Content::Flex(t, s, v)) => {
                if v.is_empty() || c.rng.chance(1, 4) {
                    *t = c.rng.u64();
                    lost.extend(s.take());
                    *s = Some(slot);
                    r.header.probe.tag = *t;
                    r.header.probe.child = any.take();
                } else {
                    let j = c.rng.below(v.len());
                    let tag = c.rng.u64();
                    lost.extend(v[j].1.take());
                    v[j] = (tag, Some(slot));
                    // the old element is destroyed, the new one moves in
                    r.items_mut()[j] = Probe::new(tag, any.take());
                }
                used = true;
            }
            _ => unreachable!(),
        }
        drop(any);
        if !used {
            lost.push(slot);
        }
        for s in lost {
            self.lose(s);
        }
        self.set_height(i);
        c.ev("changes in place", 1);
    }

    /// A child that does not reach `i` (exclusively owned values are reachable only through their
    /// handle, which is set aside, so no handle reaches it).
    fn child_not(&mut self, c: &mut Case, _i: usize) -> (Any<M::Dealloc>, Slot) {
        self.child(c)
    }

    fn children(&self, k: usize) -> R {
        let (H::Any(a), s) = &self.handles[k] else {
            return Ok(());
        };
        let want: Vec<(Option<usize>, Slot)> = match s {
            Slot::Ref(i) => match &self.nodes[*i].content {
                Content::Arr(v) => v.iter().map(|x| (None, *x)).collect(),
                Content::Obj(v) => v.iter().map(|x| (Some(x.0), x.1)).collect(),
                _ => vec![],
            },
            _ => vec![],
        };
        let mut n = 0;
        a.for_each(|k, v| -> Result<(), String> {
            ensure!(n < want.len(), "more children than items");
            match want[n].0 {
                None => ensure!(
                    k.try_move::<f64>().ok() == Some(n as f64),
                    "index of child {n} is wrong"
                ),
                Some(i) => self.check_any(&k, Slot::Ref(i), 0)?,
            }
            self.check_any(v, want[n].1, 0)?;
            n += 1;
            Ok(())
        })?;
        ensure!(n == want.len(), "{n} children enumerated of {}", want.len());
        Ok(())
    }

    fn pick(&self, c: &mut Case, f: impl Fn(&H<M::Dealloc>) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.handles.len())
            .filter(|&k| f(&self.handles[k].0))
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(*c.rng.pick(&v))
        }
    }

    /// One random operation; returns its number for the signature of the history.
    pub fn step(&mut self, c: &mut Case, exclusive_bias: bool) -> Result<u64, String> {
        let max = if c.tier == Tier::Tiny { 8 } else { 24 };
        let n = self.handles.len();
        let op = if n == 0 {
            0
        } else if n > max {
            2
        } else if exclusive_bias && c.rng.bool() {
            *c.rng.pick(&[1, 2, 3, 4, 7, 8, 8])
        } else {
            c.rng.below(12)
        };
        c.ev("operations", 1);
        match op {
            0 | 11 => {
                let kind = *c.rng.pick(&KINDS);
                self.create(c, kind);
            }
            1 => {
                if let Some(k) = self.pick(c, |h| !is_mut(h)) {
                    self.clone_handle(k);
                }
            }
            2 => {
                let k = c.rng.below(n);
                self.drop_handle(k);
            }
            3 => {
                let k = c.rng.below(n);
                if self.to_any(k) {
                    c.ev("made generic", 1);
                }
            }
            4 => {
                if let Some(k) = self.pick(c, |h| matches!(h, H::Any(_))) {
                    self.from_any(k)?;
                    c.ev("taken back", 1);
                }
            }
            5 => {
                if let Some(k) = self.pick(c, |h| matches!(h, H::Any(_))) {
                    if c.rng.chance(1, 3) {
                        self.wrong_move(c, k)?;
                    } else {
                        self.children(k)?;
                    }
                }
            }
            6 => {
                let k = c.rng.below(n);
                if self.extract(c, k) {
                    c.ev("taken out of a value", 1);
                }
            }
            7 => {
                if let Some(k) = self.pick(c, |h| !is_mut(h) && !matches!(h, H::Any(_))) {
                    self.exclusive(c, k)?;
                }
            }
            8 => {
                if let Some(k) = self.pick(c, is_mut) {
                    self.mutate(c, k);
                }
            }
            9 => {
                if let Some(k) = self.pick(c, is_mut) {
                    self.share(k);
                }
            }
            _ => {
                // a burst of references
                if let Some(k) = self.pick(c, |h| !is_mut(h)) {
                    let n = match c.tier {
                        Tier::Tiny => 3,
                        _ => c.rng.size(300),
                    };
                    self.burst(k, n)?;
                }
            }
        }
        Ok(op as u64)
    }

    /// Many references at once, dropped again in another order.
    pub fn burst(&mut self, k: usize, n: usize) -> R {
        let first = self.handles.len();
        for _ in 0..n {
            self.clone_handle(k);
        }
        self.check(false)?;
        self.seen.borrow_mut().clear();
        self.check_handle(k, 1)?;
        while self.handles.len() > first {
            let j = first + (self.handles.len() - first) / 2;
            self.drop_handle(j);
        }
        self.check(false)?;
        self.seen.borrow_mut().clear();
        self.check_handle(k, 2)
    }

    pub fn sig(&self) -> u64 {
        let mut h = 0u64;
        for n in &self.nodes {
            h = crate::run::mix(
                h ^ (n.kind as u64) << 8 ^ n.owners as u64 ^ (n.alive as u64) << 60,
            );
        }
        h
    }

    pub fn describe(&self) -> String {
        let v: Vec<String> = self
            .nodes
            .iter()
            .enumerate()
            .filter(|n| n.1.alive)
            .take(12)
            .map(|(i, n)| format!("{i}:{:?} owners={}", n.kind, n.owners))
            .collect();
        format!(
            "{} handles over {} values: {}",
            self.handles.len(),
            self.alive(),
            v.join(", ")
        )
    }

    pub fn drain(&mut self, c: &mut Case) -> R {
        while !self.handles.is_empty() {
            let k = c.rng.below(self.handles.len());
            self.drop_handle(k);
            self.check(false)?;
        }
        ensure!(self.alive() == 0, "model error: owned values remain");
        Ok(())
    }

    /// A failed history may leave references that must not run their release.
    pub fn abandon(mut self) {
        for (h, _) in self.handles.drain(..) {
            std::mem::forget(h);
        }
    }
}

/// A random history.
pub fn history<M: Manager>(c: &mut Case, m: M, tracked: bool, steps: usize, exclusive: bool) -> R
where
    M::Dealloc: 'static,
{
    probes_reset();
    let mut w = World::new(m, tracked);
    let r = (|| {
        let mut sig = 0;
        for n in 0..steps {
            let op = w.step(c, exclusive)?;
            sig = crate::run::mix(sig ^ op);
            w.check(n % 8 == 7)?;
        }
        w.check(true)?;
        c.sig(w.sig() ^ sig);
        c.sample(|| w.describe());
        c.ev("histories", 1);
        w.drain(c)?;
        w.check(true)
    })();
    if r.is_err() {
        w.abandon();
    }
    let e = probes_reset();
    r?;
    match e {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

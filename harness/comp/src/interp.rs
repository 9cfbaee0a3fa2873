//! What a program means: runs the source tree directly.
use std::collections::HashMap;

use crate::lang::{Conv, Ex, St, Ty, World};
use crate::val::{cast, operator, same, text, Stop, V};

type E<T> = Result<T, Stop>;

pub struct Obj {
    pub class: usize,
    pub fields: Vec<(String, V)>,
}

pub struct Interp<'a> {
    pub w: &'a World,
    pub heap: Vec<Obj>,
    pub trace: Vec<String>,
    pub fuel: u64,
    depth: u32,
    /// wrappers per function, innermost first
    pub wraps: HashMap<usize, Vec<crate::lang::Func>>,
    pub replaced: HashMap<usize, crate::lang::Func>,
}

enum Place {
    Slot(usize),
    Field(usize, String),
    Sub(Box<Place>, String),
    Elem(Box<Place>, usize),
}

enum Flow {
    Next,
    Break,
    Return(V),
}

struct Env {
    names: Vec<(String, usize)>,
    slots: Vec<V>,
    this: Option<usize>,
    /// class whose code this is
    class: Option<usize>,
    /// function and how many wrappers are below the running one
    wrapped: Option<(usize, usize)>,
}

impl Env {
    fn declare(&mut self, n: &str, v: V) {
        self.slots.push(v);
        self.names.push((n.to_owned(), self.slots.len() - 1));
    }
}

impl<'a> Interp<'a> {
    pub fn new(w: &'a World) -> Self {
        Interp { w, heap: vec![], trace: vec![], fuel: 20_000, depth: 0, wraps: HashMap::new(), replaced: HashMap::new() }
    }

    pub fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Bool => V::Bool(false),
            Ty::I32 => V::I32(0),
            Ty::I64 => V::I64(0),
            Ty::U32 => V::U32(0),
            Ty::U64 => V::U64(0),
            Ty::F32 => V::F32(0.0),
            Ty::F64 => V::F64(0.0),
            Ty::Str => V::Str(String::new()),
            Ty::Name => V::Name("None".into()),
            Ty::Tdb => V::Tdb(String::new()),
            Ty::Res => V::Res(String::new()),
            Ty::Variant => V::Var(Box::new(V::Void)),
            Ty::Enum(e) => V::Enum(self.w.enums[*e].name.clone(), self.w.enums[*e].members[0].1),
            Ty::Struct(s) => V::Struct(self.w.structs[*s].name.clone(), self.w.structs[*s].fields.iter().map(|f| (f.name.clone(), f.default.clone().unwrap_or_else(|| self.zero(&f.ty)))).collect()),
            Ty::Ref(_) => V::Null,
            Ty::WRef(_) => V::WNull,
            Ty::Arr(_) => V::Arr(vec![]),
            Ty::SRef(t) => V::SRef(Box::new(self.zero(t))),
        }
    }

    fn is_sub(&self, c: usize, of: usize) -> bool {
        let mut cur = Some(c);
        while let Some(x) = cur {
            if x == of {
                return true;
            }
            cur = self.w.classes[x].base;
        }
        false
    }

    fn fits(&self, v: &V, t: &Ty) -> bool {
        match (v, t) {
            (V::Null, Ty::Ref(_)) | (V::WNull, Ty::WRef(_)) => true,
            (V::Obj(o), Ty::Ref(c)) | (V::WObj(o), Ty::WRef(c)) => self.is_sub(self.heap[*o].class, *c),
            (V::Arr(a), Ty::Arr(t)) => a.iter().all(|x| self.fits(x, t)),
            (V::Enum(n, _), Ty::Enum(e)) => *n == self.w.enums[*e].name,
            (V::Struct(n, _), Ty::Struct(s)) => *n == self.w.structs[*s].name,
            (V::Null | V::WNull | V::Obj(_) | V::WObj(_) | V::Arr(_) | V::Enum(..) | V::Struct(..), _) => false,
            (v, t) => std::mem::discriminant(v) == std::mem::discriminant(&self.zero(t)),
        }
    }

    pub fn instantiate(&mut self, c: usize) -> V {
        let mut fields = vec![];
        let mut cur = Some(c);
        while let Some(x) = cur {
            for f in &self.w.classes[x].fields {
                fields.push((f.name.clone(), f.default.clone().unwrap_or_else(|| self.zero(&f.ty))));
            }
            cur = self.w.classes[x].base;
        }
        self.heap.push(Obj { class: c, fields });
        V::Obj(self.heap.len() - 1)
    }

    fn dispatch(&self, class: usize, f: usize) -> usize {
        let root = self.w.funcs[f].root;
        let mut cur = Some(class);
        while let Some(c) = cur {
            if let Some(i) = (0..self.w.funcs.len()).find(|i| self.w.funcs[*i].owner == Some(c) && self.w.funcs[*i].root == root) {
                return i;
            }
            cur = self.w.classes[c].base;
        }
        f
    }

    /// Runs function `f` with whatever wraps it.
    pub fn call(&mut self, f: usize, this: Option<usize>, args: Vec<Option<V>>) -> E<(V, Vec<V>)> {
        let n = self.wraps.get(&f).map_or(0, Vec::len);
        self.call_level(f, n, this, args)
    }

    fn call_level(&mut self, f: usize, level: usize, this: Option<usize>, args: Vec<Option<V>>) -> E<(V, Vec<V>)> {
        if self.depth > 60 {
            return Err(Stop::Fuel);
        }
        let w = self.w;
        let fun = if level > 0 {
            self.wraps[&f][level - 1].clone()
        } else {
            self.replaced.get(&f).cloned().unwrap_or_else(|| w.funcs[f].clone())
        };
        let mut env = Env { names: vec![], slots: vec![], this, class: fun.owner, wrapped: (level > 0).then_some((f, level - 1)) };
        let mut args = args.into_iter();
        for p in &fun.params {
            let v = args.next().flatten().unwrap_or_else(|| self.zero(&p.ty));
            env.declare(&p.name, v);
        }
        self.depth += 1;
        let r = self.block(&mut env, fun.body.as_ref().expect("a body"));
        self.depth -= 1;
        let v = match r? {
            Flow::Return(v) => v,
            _ => V::Void,
        };
        env.slots.truncate(fun.params.len());
        Ok((v, env.slots))
    }

    fn block(&mut self, env: &mut Env, b: &[St]) -> E<Flow> {
        let n = env.names.len();
        for s in b {
            match self.st(env, s)? {
                Flow::Next => {}
                f => {
                    env.names.truncate(n);
                    return Ok(f);
                }
            }
        }
        env.names.truncate(n);
        Ok(Flow::Next)
    }

    fn tick(&mut self) -> E<()> {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        Ok(())
    }

    fn st(&mut self, env: &mut Env, s: &St) -> E<Flow> {
        self.tick()?;
        match s {
            St::Let(n, t, _, init) => {
                let v = match init {
                    Some(e) => self.ex(env, e)?,
                    None => self.zero(t),
                };
                env.declare(n, v);
            }
            St::Assign(p, e) => {
                let p = self.place(env, p)?;
                let v = self.ex(env, e)?;
                self.store(env, &p, v)?;
            }
            St::OpAssign(op, p, e) => {
                let p = self.place(env, p)?;
                let a = self.load(env, &p)?;
                let b = self.ex(env, e)?;
                let v = operator(op, &[a, b], "").expect("operator")?;
                self.store(env, &p, v)?;
            }
            St::Ex(e) => {
                self.ex(env, e)?;
            }
            St::If(c, a, b) => {
                if self.ex(env, c)? == V::Bool(true) {
                    return self.block(env, a);
                } else if let Some(b) = b {
                    return self.block(env, b);
                }
            }
            St::While(c, b) => loop {
                self.tick()?;
                if self.ex(env, c)? != V::Bool(true) {
                    break;
                }
                match self.block(env, b)? {
                    Flow::Next => {}
                    Flow::Break => break,
                    f => return Ok(f),
                }
            },
            St::For(n, _, e, b) => {
                let V::Arr(a) = self.ex(env, e)? else { unreachable!() };
                for v in a {
                    self.tick()?;
                    let k = env.names.len();
                    env.declare(n, v);
                    let f = self.block(env, b)?;
                    env.names.truncate(k);
                    match f {
                        Flow::Next => {}
                        Flow::Break => break,
                        f => return Ok(f),
                    }
                }
            }
            St::Switch(e, cases, def) => {
                let v = self.ex(env, e)?;
                let mut hit = None;
                for (i, (m, _)) in cases.iter().enumerate() {
                    if same(&v, &self.ex(env, m)?) {
                        hit = Some(i);
                        break;
                    }
                }
                let start = hit.unwrap_or(cases.len());
                for b in cases[start..].iter().map(|c| &c.1).chain(def) {
                    match self.block(env, b)? {
                        Flow::Next => {}
                        Flow::Break => return Ok(Flow::Next),
                        f => return Ok(f),
                    }
                }
            }
            St::Break => return Ok(Flow::Break),
            St::Return(None) => return Ok(Flow::Return(V::Void)),
            St::Return(Some(e)) => return Ok(Flow::Return(self.ex(env, e)?)),
        }
        Ok(Flow::Next)
    }

    fn index(v: &V) -> E<usize> {
        match v {
            V::I32(i) => usize::try_from(*i).map_err(|_| Stop::Abort("index out of range")),
            v => unreachable!("{v:?}"),
        }
    }

    fn receiver(v: &V) -> E<usize> {
        match v {
            V::Obj(o) => Ok(*o),
            V::Null => Err(Stop::Abort("null receiver")),
            v => unreachable!("{v:?}"),
        }
    }

    fn place(&mut self, env: &mut Env, e: &Ex) -> E<Place> {
        Ok(match e {
            Ex::Var(n) => Place::Slot(env.names.iter().rev().find(|x| x.0 == *n).unwrap_or_else(|| panic!("no variable {n}")).1),
            Ex::Field(b, n) => {
                let o = self.ex(env, b)?;
                Place::Field(Self::receiver(&o)?, n.clone())
            }
            Ex::Sub(b, n) => Place::Sub(Box::new(self.place(env, b)?), n.clone()),
            Ex::Elem(b, i) => {
                let b = self.place(env, b)?;
                let i = self.ex(env, i)?;
                Place::Elem(Box::new(b), Self::index(&i)?)
            }
            e => unreachable!("{e:?}"),
        })
    }

    fn load(&self, env: &Env, p: &Place) -> E<V> {
        Ok(match p {
            Place::Slot(i) => env.slots[*i].clone(),
            Place::Field(o, n) => self.heap[*o].fields.iter().find(|f| f.0 == *n).expect("field").1.clone(),
            Place::Sub(p, n) => match self.load(env, p)? {
                V::Struct(_, fs) => fs.into_iter().find(|f| f.0 == *n).expect("field").1,
                v => unreachable!("{v:?}"),
            },
            Place::Elem(p, i) => match self.load(env, p)? {
                V::Arr(a) => a.get(*i).cloned().ok_or(Stop::Abort("index out of range"))?,
                v => unreachable!("{v:?}"),
            },
        })
    }

    fn store(&mut self, env: &mut Env, p: &Place, v: V) -> E<()> {
        match p {
            Place::Slot(i) => env.slots[*i] = v,
            Place::Field(o, n) => self.heap[*o].fields.iter_mut().find(|f| f.0 == *n).expect("field").1 = v,
            Place::Sub(p, n) => {
                let mut s = self.load(env, p)?;
                match &mut s {
                    V::Struct(_, fs) => fs.iter_mut().find(|f| f.0 == *n).expect("field").1 = v,
                    v => unreachable!("{v:?}"),
                }
                self.store(env, p, s)?;
            }
            Place::Elem(p, i) => {
                let mut s = self.load(env, p)?;
                match &mut s {
                    V::Arr(a) => *a.get_mut(*i).ok_or(Stop::Abort("index out of range"))? = v,
                    v => unreachable!("{v:?}"),
                }
                self.store(env, p, s)?;
            }
        }
        Ok(())
    }

    fn args(&mut self, env: &mut Env, f: usize, args: &[Ex]) -> E<(Vec<Option<V>>, Vec<Option<Place>>)> {
        let w = self.w;
        let mut vals = vec![];
        let mut places = vec![];
        for (a, p) in args.iter().zip(&w.funcs[f].params) {
            if p.out {
                let p = self.place(env, a)?;
                vals.push(Some(self.load(env, &p)?));
                places.push(Some(p));
            } else {
                vals.push(Some(self.ex(env, a)?));
                places.push(None);
            }
        }
        Ok((vals, places))
    }

    fn back(&mut self, env: &mut Env, places: Vec<Option<Place>>, outs: Vec<V>) -> E<()> {
        for (p, v) in places.into_iter().zip(outs) {
            if let Some(p) = p {
                self.store(env, &p, v)?;
            }
        }
        Ok(())
    }

    fn ex(&mut self, env: &mut Env, e: &Ex) -> E<V> {
        self.tick()?;
        let w = self.w;
        Ok(match e {
            Ex::Lit(v, _) => v.clone(),
            Ex::Null | Ex::Nil(_) => V::Null,
            Ex::EnumLit(e, m) => V::Enum(w.enums[*e].name.clone(), w.enums[*e].members[*m].1),
            Ex::Var(_) => {
                let p = self.place(env, e)?;
                self.load(env, &p)?
            }
            Ex::This => V::Obj(env.this.expect("this")),
            Ex::Field(..) => {
                let p = self.place(env, e)?;
                self.load(env, &p)?
            }
            Ex::Sub(b, n) => match self.ex(env, b)? {
                V::Struct(_, fs) => fs.into_iter().find(|f| f.0 == *n).expect("field").1,
                v => unreachable!("{v:?}"),
            },
            Ex::Elem(b, i) => {
                let a = self.ex(env, b)?;
                let i = self.ex(env, i)?;
                match a {
                    V::Arr(a) => a.get(Self::index(&i)?).cloned().ok_or(Stop::Abort("index out of range"))?,
                    v => unreachable!("{v:?}"),
                }
            }
            Ex::Call(f, a) | Ex::StaticCall(f, a) => {
                let (vals, places) = self.args(env, *f, a)?;
                let (v, outs) = self.call(*f, None, vals)?;
                self.back(env, places, outs)?;
                v
            }
            Ex::Method(b, f, a) => {
                let o = self.ex(env, b)?;
                let o = Self::receiver(&o)?;
                let (vals, places) = self.args(env, *f, a)?;
                let target = if w.funcs[*f].final_ { *f } else { self.dispatch(self.heap[o].class, *f) };
                let (v, outs) = self.call(target, Some(o), vals)?;
                self.back(env, places, outs)?;
                v
            }
            Ex::Super(f, a) => {
                let (vals, places) = self.args(env, *f, a)?;
                let (v, outs) = self.call(*f, env.this, vals)?;
                self.back(env, places, outs)?;
                v
            }
            Ex::Wrapped(a) => {
                let (f, level) = env.wrapped.expect("in a wrapper");
                let (vals, places) = self.args(env, f, a)?;
                let (v, outs) = self.call_level(f, level, env.this, vals)?;
                self.back(env, places, outs)?;
                v
            }
            Ex::Probe(n, t, e) => {
                let v = self.ex(env, e)?;
                self.trace.push(format!("P_{n}({:?})", [V::I32(*t), v.clone()]));
                if matches!(*n, "Ref" | "WRef" | "Variant" | "Ints" | "SRef") {
                    V::Void
                } else {
                    v
                }
            }
            Ex::Bin(op, l, r) => {
                let a = self.ex(env, l)?;
                let b = self.ex(env, r)?;
                operator(op, &[a, b], "").unwrap_or_else(|| panic!("{op} in {e:?}"))?
            }
            Ex::And(l, r) => {
                if self.ex(env, l)? == V::Bool(true) {
                    self.ex(env, r)?
                } else {
                    V::Bool(false)
                }
            }
            Ex::Or(l, r) => {
                if self.ex(env, l)? == V::Bool(true) {
                    V::Bool(true)
                } else {
                    self.ex(env, r)?
                }
            }
            Ex::Un(op, e) => {
                let a = self.ex(env, e)?;
                operator(op, &[a], "").expect("operator")?
            }
            Ex::Cast(t, e) => {
                let v = self.ex(env, e)?;
                cast(&v, &w.ty(t)).expect("cast")
            }
            Ex::As(c, e) => match self.ex(env, e)? {
                V::Obj(o) | V::WObj(o) if self.is_sub(self.heap[o].class, *c) => V::Obj(o),
                _ => V::Null,
            },
            Ex::Cond(c, a, b) => {
                if self.ex(env, c)? == V::Bool(true) {
                    self.ex(env, a)?
                } else {
                    self.ex(env, b)?
                }
            }
            Ex::New(c) => self.instantiate(*c),
            Ex::Make(s, a) => {
                let mut fs = vec![];
                for (f, e) in w.structs[*s].fields.iter().zip(a) {
                    fs.push((f.name.clone(), self.ex(env, e)?));
                }
                V::Struct(w.structs[*s].name.clone(), fs)
            }
            Ex::Array(a) => {
                let mut v = vec![];
                for e in a {
                    v.push(self.ex(env, e)?);
                }
                V::Arr(v)
            }
            Ex::Interp(p, parts) => {
                let mut o = p.clone();
                for (e, s) in parts {
                    o += &text(&self.ex(env, e)?);
                    o += s;
                }
                V::Str(o)
            }
            Ex::Conv(c, e) => {
                let v = self.ex(env, e)?;
                match (c, v) {
                    (Conv::ToW, V::Obj(o)) => V::WObj(o),
                    (Conv::ToW, V::Null) => V::WNull,
                    (Conv::ToRef, V::WObj(o)) => V::Obj(o),
                    (Conv::ToRef, V::WNull) => V::Null,
                    (Conv::ToVariant, v) => V::Var(Box::new(v)),
                    (Conv::ToSRef, v) => V::SRef(Box::new(v)),
                    (c, v) => unreachable!("{c:?} {v:?}"),
                }
            }
            Ex::Intr(n, t, a) => self.intrinsic(env, n, t.as_ref(), a)?,
        })
    }

    fn intrinsic(&mut self, env: &mut Env, n: &str, t: Option<&Ty>, a: &[Ex]) -> E<V> {
        let w = self.w;
        Ok(match n {
            "Equals" | "NotEquals" => {
                let x = self.ex(env, &a[0])?;
                let y = self.ex(env, &a[1])?;
                V::Bool(same(&x, &y) == (n == "Equals"))
            }
            "ArraySize" => match self.ex(env, &a[0])? {
                V::Arr(a) => V::I32(a.len() as i32),
                v => unreachable!("{v:?}"),
            },
            "ArrayLast" => match self.ex(env, &a[0])? {
                V::Arr(a) => a.last().cloned().ok_or(Stop::Abort("index out of range"))?,
                v => unreachable!("{v:?}"),
            },
            "ArrayContains" | "ArrayCount" | "ArrayFindFirst" | "ArrayFindLast" => {
                let V::Arr(arr) = self.ex(env, &a[0])? else { unreachable!() };
                let x = self.ex(env, &a[1])?;
                let hits: Vec<usize> = (0..arr.len()).filter(|i| same(&arr[*i], &x)).collect();
                match n {
                    "ArrayContains" => V::Bool(!hits.is_empty()),
                    "ArrayCount" => V::I32(hits.len() as i32),
                    "ArrayFindFirst" => V::I32(hits.first().map_or(-1, |i| *i as i32)),
                    _ => V::I32(hits.last().map_or(-1, |i| *i as i32)),
                }
            }
            "ArrayClear" | "ArrayPop" | "ArrayPush" | "ArrayResize" | "ArrayGrow" | "ArrayInsert" | "ArrayRemove" | "ArrayErase" => {
                let p = self.place(env, &a[0])?;
                self.load(env, &p)?;
                let mut ops = vec![];
                for e in &a[1..] {
                    ops.push(self.ex(env, e)?);
                }
                let V::Arr(mut arr) = self.load(env, &p)? else { unreachable!() };
                let mut ret = V::Void;
                match n {
                    "ArrayClear" => arr.clear(),
                    "ArrayPop" => ret = arr.pop().ok_or(Stop::Abort("index out of range"))?,
                    "ArrayPush" => arr.push(ops.remove(0)),
                    "ArrayResize" | "ArrayGrow" => {
                        let k = Self::index(&ops[0])? + if n == "ArrayGrow" { arr.len() } else { 0 };
                        let z = self.zero(t_elem(t));
                        arr.resize(k.min(1000), z);
                    }
                    "ArrayInsert" => {
                        let i = Self::index(&ops[0])?;
                        if i > arr.len() {
                            return Err(Stop::Abort("index out of range"));
                        }
                        arr.insert(i, ops.remove(1));
                    }
                    "ArrayRemove" => match arr.iter().position(|x| same(x, &ops[0])) {
                        Some(i) => {
                            arr.remove(i);
                            ret = V::Bool(true);
                        }
                        None => ret = V::Bool(false),
                    },
                    _ => {
                        let i = Self::index(&ops[0])?;
                        ret = V::Bool(i < arr.len());
                        if i < arr.len() {
                            arr.remove(i);
                        }
                    }
                }
                self.store(env, &p, V::Arr(arr))?;
                ret
            }
            "ToString" => V::Str(text(&self.ex(env, &a[0])?)),
            "EnumInt" => match self.ex(env, &a[0])? {
                V::Enum(_, i) => V::I32(i as i32),
                v => unreachable!("{v:?}"),
            },
            "IntEnum" => match (self.ex(env, &a[0])?, t) {
                (V::I32(i), Some(Ty::Enum(e))) => V::Enum(w.enums[*e].name.clone(), i64::from(i)),
                v => unreachable!("{v:?}"),
            },
            "ToVariant" => V::Var(Box::new(self.ex(env, &a[0])?)),
            "FromVariant" => match self.ex(env, &a[0])? {
                V::Var(v) if self.fits(&v, t.unwrap()) => *v,
                _ => self.zero(t.unwrap()),
            },
            "VariantIsRef" | "VariantIsArray" | "IsDefined" => match (n, self.ex(env, &a[0])?) {
                ("VariantIsRef", V::Var(v)) => V::Bool(matches!(*v, V::Obj(_) | V::Null)),
                ("VariantIsArray", V::Var(v)) => V::Bool(matches!(*v, V::Arr(_))),
                (_, V::Var(v)) => V::Bool(*v != V::Void),
                (_, v) => V::Bool(matches!(v, V::Obj(_) | V::WObj(_))),
            },
            "AsRef" => V::SRef(Box::new(self.ex(env, &a[0])?)),
            "Deref" => match self.ex(env, &a[0])? {
                V::SRef(v) => *v,
                v => unreachable!("{v:?}"),
            },
            _ => unreachable!("{n}"),
        })
    }
}

fn t_elem(t: Option<&Ty>) -> &Ty {
    t.expect("element type")
}

//! Well-typed programs: every class, struct, enum and function of a world, bodies included.
use pbt::Src;

use crate::lang::{lit, Class, Conv, Enum, Ex, FieldDef, Func, Param, St, Struct, Ty, World};
use crate::val::V;

pub const NUM: &[Ty] = &[Ty::I32, Ty::I64, Ty::U32, Ty::U64, Ty::F32, Ty::F64];
pub const SIMPLE: &[Ty] = &[Ty::I32, Ty::Bool, Ty::Str, Ty::F32, Ty::I64, Ty::U32, Ty::U64, Ty::F64, Ty::Name, Ty::Tdb, Ty::Res];
const TEXTS: &[&str] = &["", "a", "b c", "x\"y", "\\", "new\nline", "λ€", "(1)", "\t", "n'"];

#[derive(Clone, Copy)]
pub struct Opts {
    pub max_families: usize,
    pub max_stmts: usize,
    pub depth: u32,
}

pub struct G<'s> {
    pub s: &'s mut Src,
    pub w: World,
    /// family of every function; calls go to lower families only
    pub level: Vec<usize>,
    pub vars: Vec<(String, Ty, bool)>,
    pub this: Option<usize>,
    /// class whose base `super` refers to
    pub cur: usize,
    pub cur_fun: usize,
    pub ret: Option<Ty>,
    pub nest: usize,
    pub tag: i32,
    pub fresh: usize,
    pub o: Opts,
    /// nothing that can be observed or stop the program
    pub pure: bool,
    pub wrap: Option<usize>,
    pub budget: i32,
}

pub fn is_num(t: &Ty) -> bool {
    NUM.contains(t)
}

pub fn probe_name(t: &Ty) -> Option<&'static str> {
    Some(match t {
        Ty::Bool => "Bool",
        Ty::I32 => "Int32",
        Ty::I64 => "Int64",
        Ty::U32 => "Uint32",
        Ty::U64 => "Uint64",
        Ty::F32 => "Float",
        Ty::F64 => "Double",
        Ty::Str => "String",
        Ty::Name => "CName",
        Ty::Tdb => "TweakDBID",
        Ty::Res => "ResRef",
        _ => return None,
    })
}

fn b<T>(x: T) -> Box<T> {
    Box::new(x)
}

impl<'s> G<'s> {
    pub fn new(s: &'s mut Src, o: Opts) -> Self {
        G { s, w: World::default(), level: vec![], vars: vec![], this: None, cur: 0, cur_fun: usize::MAX, ret: None, nest: 0, tag: 0, fresh: 0, o, pure: false, wrap: None, budget: 0 }
    }

    pub fn sub(&self, c: usize, of: usize) -> bool {
        let mut cur = Some(c);
        while let Some(x) = cur {
            if x == of {
                return true;
            }
            cur = self.w.classes[x].base;
        }
        false
    }

    // ---------------------------------------------------------------- types

    pub fn simple_ty(&mut self) -> Ty {
        if self.w.enums.is_empty() || !self.s.chance(1, 6) {
            self.s.pick(SIMPLE).clone()
        } else {
            Ty::Enum(self.s.idx(self.w.enums.len()))
        }
    }

    pub fn any_ty(&mut self) -> Ty {
        match self.s.weighted(&[10, 2, 2, 2, 2, 1]) {
            1 if !self.w.structs.is_empty() => Ty::Struct(self.s.idx(self.w.structs.len())),
            2 if !self.w.classes.is_empty() => Ty::Ref(self.s.idx(self.w.classes.len())),
            3 if !self.w.classes.is_empty() => Ty::WRef(self.s.idx(self.w.classes.len())),
            4 => {
                let t = match self.s.weighted(&[4, 3, 1, 1]) {
                    0 => Ty::I32,
                    1 => self.simple_ty(),
                    2 if !self.w.classes.is_empty() => Ty::Ref(self.s.idx(self.w.classes.len())),
                    3 if !self.w.structs.is_empty() => Ty::Struct(self.s.idx(self.w.structs.len())),
                    _ => Ty::Str,
                };
                Ty::Arr(b(t))
            }
            5 => Ty::Variant,
            _ => self.simple_ty(),
        }
    }

    // ---------------------------------------------------------------- values

    pub fn text(&mut self) -> String {
        (*self.s.pick(TEXTS)).to_owned()
    }

    pub fn literal(&mut self, t: &Ty) -> Option<V> {
        Some(match t {
            Ty::Bool => V::Bool(self.s.bool()),
            Ty::I32 => V::I32(if self.s.chance(1, 4) { self.s.bits(31) as i32 } else { self.s.below(6) as i32 }),
            Ty::I64 => V::I64(if self.s.chance(1, 4) { (self.s.bits(63)) as i64 } else { self.s.below(6) as i64 }),
            Ty::U32 => V::U32(if self.s.chance(1, 4) { self.s.bits(32) as u32 } else { self.s.below(6) as u32 }),
            Ty::U64 => V::U64(if self.s.chance(1, 4) { self.s.bits(64) } else { self.s.below(6) }),
            Ty::F32 => V::F32(self.s.below(40) as f32 / 4.0),
            Ty::F64 => V::F64(self.s.below(400) as f64 / 10.0),
            Ty::Str => V::Str(self.text()),
            Ty::Name => V::Name(self.text()),
            Ty::Tdb => V::Tdb(self.text()),
            Ty::Res => V::Res(self.text()),
            _ => return None,
        })
    }

    fn leaf(&mut self, t: &Ty, expected: bool) -> Ex {
        if let Ty::Enum(e) = t {
            let m = self.s.idx(self.w.enums[*e].members.len());
            return Ex::EnumLit(*e, m);
        }
        if expected && self.s.chance(1, 6) {
            let k = self.s.below(9);
            match t {
                Ty::F32 => return Ex::Lit(V::F32(k as f32), k.to_string()),
                Ty::F64 => return if self.s.bool() { Ex::Lit(V::F64(k as f64), k.to_string()) } else { Ex::Lit(V::F64(k as f64 + 0.5), format!("{k}.5")) },
                Ty::I64 => return Ex::Lit(V::I64(k as i64), k.to_string()),
                Ty::U64 => return Ex::Lit(V::U64(k), format!("{k}u")),
                _ => {}
            }
        }
        let mut v = self.literal(t).expect("a literal type");
        // the least values are literals of their own, other negative numbers are negations
        match (&mut v, self.s.below(24)) {
            (V::I32(x), 0) if *x == 0 => *x = 0,
            (V::I32(x), 23) => *x = i32::MIN,
            (V::I64(x), 23) => *x = i64::MIN,
            _ => {}
        }
        let t = lit(&v);
        Ex::Lit(v, t)
    }

    pub fn vars_of(&self, f: impl Fn(&Ty) -> bool) -> Vec<(String, Ty, bool)> {
        let mut seen: Vec<&str> = vec![];
        let mut out = vec![];
        for v in self.vars.iter().rev() {
            if seen.contains(&v.0.as_str()) {
                continue;
            }
            seen.push(&v.0);
            if f(&v.1) {
                out.push(v.clone());
            }
        }
        out
    }

    fn class_fields(&self, c: usize) -> Vec<FieldDef> {
        let mut v = vec![];
        let mut cur = Some(c);
        while let Some(x) = cur {
            v.extend(self.w.classes[x].fields.iter().cloned());
            cur = self.w.classes[x].base;
        }
        v
    }

    /// Places of exactly type `t`. With `side`, receivers and indexes may be arbitrary.
    pub fn place(&mut self, t: &Ty, assign: bool, d: u32) -> Option<Ex> {
        let mut opts: Vec<Ex> = vec![];
        for (n, vt, m) in self.vars_of(|_| true) {
            if assign && !m {
                continue;
            }
            if vt == *t {
                opts.push(Ex::Var(n.clone()));
                opts.push(Ex::Var(n.clone()));
            }
            match &vt {
                Ty::Struct(s) => {
                    for f in self.w.structs[*s].fields.clone() {
                        if f.ty == *t {
                            opts.push(Ex::Sub(b(Ex::Var(n.clone())), f.name.clone()));
                        }
                        if let Ty::Struct(s2) = f.ty {
                            for g in &self.w.structs[s2].fields {
                                if g.ty == *t {
                                    opts.push(Ex::Sub(b(Ex::Sub(b(Ex::Var(n.clone())), f.name.clone())), g.name.clone()));
                                }
                            }
                        }
                    }
                }
                Ty::Arr(e) if !self.pure => {
                    if **e == *t {
                        let i = if d > 0 && self.s.chance(1, 3) { self.exact(&Ty::I32, 0, true) } else { Ex::Lit(V::I32(0), "0".into()) };
                        opts.push(Ex::Elem(b(Ex::Var(n.clone())), b(i)));
                    }
                    if let Ty::Struct(s) = &**e {
                        for f in &self.w.structs[*s].fields {
                            if f.ty == *t {
                                opts.push(Ex::Sub(b(Ex::Elem(b(Ex::Var(n.clone())), b(Ex::Lit(V::I32(0), "0".into())))), f.name.clone()));
                            }
                        }
                    }
                }
                Ty::Ref(c) if !self.pure => {
                    for f in self.class_fields(*c) {
                        if f.ty == *t {
                            opts.push(Ex::Field(b(Ex::Var(n.clone())), f.name.clone()));
                        }
                    }
                }
                Ty::WRef(c) if !self.pure => {
                    for f in self.class_fields(*c) {
                        if f.ty == *t {
                            opts.push(Ex::Field(b(Ex::Conv(Conv::ToRef, b(Ex::Var(n.clone())))), f.name.clone()));
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some(c) = self.this {
            for f in self.class_fields(c) {
                if f.ty == *t {
                    opts.push(Ex::Field(b(Ex::This), f.name.clone()));
                    opts.push(Ex::Field(b(Ex::This), f.name.clone()));
                }
                if let Ty::Struct(s) = f.ty {
                    for g in &self.w.structs[s].fields {
                        if g.ty == *t {
                            opts.push(Ex::Sub(b(Ex::Field(b(Ex::This), f.name.clone())), g.name.clone()));
                        }
                    }
                }
            }
        }
        if opts.is_empty() {
            None
        } else {
            Some(self.s.pick(&opts).clone())
        }
    }

    // ---------------------------------------------------------------- calls

    fn args(&mut self, f: usize, d: u32, expected: bool) -> Option<Vec<Ex>> {
        let params = self.w.funcs[f].params.clone();
        let opt = params.iter().filter(|p| p.opt).count();
        let n = params.len() - if opt > 0 { self.s.idx(opt + 1) } else { 0 };
        let mut v = vec![];
        for p in &params[..n] {
            if p.out {
                v.push(self.place(&p.ty, true, d)?);
            } else {
                v.push(self.conv(&p.ty, d, expected));
            }
        }
        Some(v)
    }

    /// The function `name` resolves to for a receiver of class `c`.
    fn resolve(&self, c: usize, root: usize) -> Option<usize> {
        let mut cur = Some(c);
        while let Some(x) = cur {
            if let Some(i) = (0..self.w.funcs.len()).find(|i| self.w.funcs[*i].owner == Some(x) && self.w.funcs[*i].root == root && !self.w.funcs[*i].static_) {
                return Some(i);
            }
            cur = self.w.classes[x].base;
        }
        None
    }

    /// A call whose type is exactly `ret`.
    pub fn call(&mut self, ret: Option<&Ty>, d: u32) -> Option<Ex> {
        let mut c: Vec<usize> = (0..self.w.funcs.len()).filter(|i| self.level[*i] < self.cur && self.w.funcs[*i].ret.as_ref() == ret).collect();
        if let Some(w) = self.wrap {
            if self.w.funcs[w].ret.as_ref() == ret && self.s.chance(1, 3) {
                let a = self.args(w, d, true)?;
                return Some(Ex::Wrapped(a));
            }
        }
        // the overridden method
        if let (Some(cl), true) = (self.this, self.cur_fun < self.w.funcs.len()) {
            let f = self.cur_fun;
            if let Some(base) = self.w.classes[cl].base {
                if self.w.funcs[f].ret.as_ref() == ret && !self.w.funcs[f].static_ && self.s.chance(1, 2) {
                    if let Some(t) = self.resolve(base, self.w.funcs[f].root) {
                        if self.w.funcs[t].body.is_some() && self.w.funcs[f].owner == Some(cl) {
                            let a = self.args(t, d, false)?;
                            return Some(Ex::Super(t, a));
                        }
                    }
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        let f = c.swap_remove(self.s.idx(c.len()));
        let fun = self.w.funcs[f].clone();
        match fun.owner {
            None => {
                let only = self.w.funcs.iter().filter(|g| g.owner.is_none() && g.name == fun.name).count() == 1;
                let a = self.args(f, d, only)?;
                Some(Ex::Call(f, a))
            }
            Some(_) if fun.static_ => {
                let a = self.args(f, d, false)?;
                Some(Ex::StaticCall(f, a))
            }
            Some(c) => {
                let (recv, rc) = self.receiver(c, d)?;
                let f = self.resolve(rc, fun.root)?;
                let a = self.args(f, d, false)?;
                Some(Ex::Method(b(recv), f, a))
            }
        }
    }

    /// An object of class `c` or below, with its static class.
    fn receiver(&mut self, c: usize, d: u32) -> Option<(Ex, usize)> {
        if let Some(t) = self.this {
            if self.sub(t, c) && self.s.chance(1, 2) {
                return Some((Ex::This, t));
            }
        }
        let subs: Vec<usize> = (0..self.w.classes.len()).filter(|x| self.sub(*x, c)).collect();
        let pick = *self.s.pick(&subs);
        if self.s.chance(1, 3) {
            let vs = self.vars_of(|t| *t == Ty::WRef(pick));
            if !vs.is_empty() {
                return Some((Ex::Conv(Conv::ToRef, b(Ex::Var(self.s.pick(&vs).0.clone()))), pick));
            }
        }
        Some((self.exact(&Ty::Ref(pick), d.saturating_sub(1), false), pick))
    }

    // ---------------------------------------------------------------- expressions

    /// Where a value of type `t` is wanted and conversions are inserted.
    pub fn conv(&mut self, t: &Ty, d: u32, expected: bool) -> Ex {
        match t {
            Ty::Ref(c) => match self.s.weighted(&[4, 3, 1, 1]) {
                1 => {
                    let subs: Vec<usize> = (0..self.w.classes.len()).filter(|x| self.sub(*x, *c)).collect();
                    let k = *self.s.pick(&subs);
                    self.exact(&Ty::Ref(k), d, expected)
                }
                2 => Ex::Null,
                3 => {
                    let vs = self.vars_of(|x| matches!(x, Ty::WRef(k) if self.sub(*k, *c)));
                    if vs.is_empty() {
                        self.exact(t, d, expected)
                    } else {
                        Ex::Conv(Conv::ToRef, b(Ex::Var(self.s.pick(&vs).0.clone())))
                    }
                }
                _ => self.exact(t, d, expected),
            },
            Ty::WRef(c) => {
                let vs = self.vars_of(|x| matches!(x, Ty::WRef(k) if self.sub(*k, *c)));
                if !vs.is_empty() && self.s.bool() {
                    return Ex::Var(self.s.pick(&vs).0.clone());
                }
                if self.s.chance(1, 8) {
                    return Ex::Conv(Conv::ToW, b(Ex::Null));
                }
                let subs: Vec<usize> = (0..self.w.classes.len()).filter(|x| self.sub(*x, *c)).collect();
                let k = *self.s.pick(&subs);
                Ex::Conv(Conv::ToW, b(self.exact(&Ty::Ref(k), d, expected)))
            }
            Ty::Variant if self.s.chance(2, 3) => {
                let mut t = self.any_ty();
                while matches!(t, Ty::Variant | Ty::WRef(_)) {
                    t = self.simple_ty();
                }
                Ex::Conv(Conv::ToVariant, b(self.exact(&t, d, false)))
            }
            Ty::SRef(t) => Ex::Conv(Conv::ToSRef, b(self.exact(t, d, false))),
            t => self.exact(t, d, expected),
        }
    }

    fn probe(&mut self, t: &Ty, e: Ex) -> Ex {
        self.tag += 1;
        Ex::Probe(probe_name(t).unwrap(), self.tag, b(e))
    }

    /// An expression the compiler gives exactly type `t`.
    pub fn exact(&mut self, t: &Ty, d: u32, expected: bool) -> Ex {
        self.budget -= 1;
        let d = if self.budget < 0 { 0 } else { d };
        if self.s.chance(1, 3) {
            if let Some(p) = self.place(t, false, d) {
                return p;
            }
        }
        if d > 0 && !self.pure {
            if self.s.chance(1, 6) {
                if let Some(c) = self.call(Some(t), d - 1) {
                    return c;
                }
            }
            if probe_name(t).is_some() && self.s.chance(1, 6) {
                let e = self.exact(t, d - 1, true);
                return self.probe(t, e);
            }
        }
        if d > 0 && self.s.chance(1, 10) && !matches!(t, Ty::WRef(_) | Ty::SRef(_)) {
            let c = self.exact(&Ty::Bool, d - 1, true);
            let x = self.exact(t, d - 1, false);
            // the second alternative is checked against the type of the first
            let y = self.exact(t, d - 1, true);
            return Ex::Cond(b(c), b(x), b(y));
        }
        match t {
            Ty::Struct(s) => {
                let fs = self.w.structs[*s].fields.clone();
                let a = fs.iter().map(|f| self.conv(&f.ty, d.saturating_sub(1), true)).collect();
                Ex::Make(*s, a)
            }
            Ty::Ref(c) => {
                if self.pure {
                    // objects must not be made where order matters
                    return match self.vars_of(|_| true).into_iter().find(|v| matches!(v.1, Ty::Ref(_))) {
                        Some(v) => Ex::As(*c, b(Ex::Var(v.0))),
                        None if self.this.is_some() => Ex::As(*c, b(Ex::This)),
                        None => Ex::Nil(*c),
                    };
                }
                if self.this == Some(*c) && self.s.chance(1, 3) {
                    return Ex::This;
                }
                if d > 0 && self.s.chance(1, 6) {
                    let k = self.s.idx(self.w.classes.len());
                    let e = self.exact(&Ty::Ref(k), d - 1, false);
                    return Ex::As(*c, b(e));
                }
                if !self.w.classes[*c].abstract_ {
                    return Ex::New(*c);
                }
                let subs: Vec<usize> = (0..self.w.classes.len()).filter(|x| self.sub(*x, *c) && !self.w.classes[*x].abstract_).collect();
                let k = if subs.is_empty() { 0 } else { *self.s.pick(&subs) };
                Ex::As(*c, b(Ex::New(k)))
            }
            Ty::WRef(c) => {
                let vs = self.vars_of(|x| *x == Ty::WRef(*c));
                match vs.first() {
                    Some(v) => Ex::Var(v.0.clone()),
                    None => unreachable!("no weak reference"),
                }
            }
            Ty::Variant => {
                let mut u = self.simple_ty();
                if self.s.chance(1, 4) && !self.pure {
                    u = self.any_ty();
                    while matches!(u, Ty::Variant | Ty::WRef(_)) {
                        u = self.simple_ty();
                    }
                }
                Ex::Intr("ToVariant", None, vec![self.exact(&u, d.saturating_sub(1), false)])
            }
            Ty::SRef(t) => Ex::Intr("AsRef", None, vec![self.exact(t, d.saturating_sub(1), false)]),
            Ty::Arr(e) => {
                // a literal; its elements are evaluated before the rest of the statement, so they have
                // to be insensitive to that
                let n = self.s.idx(4);
                if n == 0 && !expected {
                    return self.const_array(e, 1, expected);
                }
                self.const_array(e, n, expected)
            }
            Ty::Enum(e) if d > 0 && self.s.chance(1, 4) && !self.pure => {
                let m = self.s.pick(&self.w.enums[*e].members).1;
                Ex::Intr("IntEnum", Some(Ty::Enum(*e)), vec![Ex::Lit(V::I32(m as i32), (m as i32).to_string())])
            }
            Ty::Enum(_) => self.leaf(t, expected),
            t if d == 0 => self.leaf(t, expected),
            Ty::Bool => self.boolean(d - 1),
            Ty::Str => match self.s.below(5) {
                0 => {
                    let x = self.exact(&Ty::Str, d - 1, false);
                    let y = self.exact(&Ty::Str, d - 1, false);
                    Ex::Bin("Add", b(x), b(y))
                }
                1 | 2 => {
                    let p = self.text();
                    let n = self.s.idx(4);
                    let mut parts = vec![];
                    for _ in 0..n {
                        let t = self.printable();
                        let e = self.exact(&t, d - 1, false);
                        parts.push((e, self.text()));
                    }
                    Ex::Interp(p, parts)
                }
                3 => {
                    let t = self.printable();
                    let e = self.exact(&t, d - 1, false);
                    Ex::Intr("ToString", None, vec![e])
                }
                _ => {
                    let vs = self.vars_of(|x| *x == Ty::SRef(b(Ty::Str)));
                    match vs.first() {
                        Some(v) => Ex::Intr("Deref", None, vec![Ex::Var(v.0.clone())]),
                        None => self.leaf(t, expected),
                    }
                }
            },
            t if is_num(t) => match self.s.below(8) {
                0..=3 => {
                    let mut ops = vec!["Add", "Subtract", "Multiply"];
                    if !matches!(t, Ty::F32 | Ty::F64) {
                        ops.extend(["And", "Or", "Xor"]);
                        if !self.pure {
                            ops.extend(["Divide", "Modulo"]);
                        }
                    }
                    let op = *self.s.pick(&ops);
                    let x = self.exact(t, d - 1, false);
                    let y = if matches!(op, "Divide" | "Modulo") && self.s.chance(5, 6) {
                        let mut v = self.literal(t).unwrap();
                        match &mut v {
                            V::I32(0) => v = V::I32(3),
                            V::I64(0) => v = V::I64(3),
                            V::U32(0) => v = V::U32(3),
                            V::U64(0) => v = V::U64(3),
                            _ => {}
                        }
                        Ex::Lit(v.clone(), lit(&v))
                    } else {
                        self.exact(t, d - 1, false)
                    };
                    Ex::Bin(op, b(x), b(y))
                }
                4 if !matches!(t, Ty::U32 | Ty::U64) => {
                    let x = self.exact(t, d - 1, false);
                    Ex::Un("Neg", b(x))
                }
                5 if !matches!(t, Ty::F32 | Ty::F64) => {
                    let x = self.exact(t, d - 1, false);
                    Ex::Un("BitNot", b(x))
                }
                6 => {
                    let mut from = self.s.pick(NUM).clone();
                    if from == *t {
                        from = if *t == Ty::I32 { Ty::F32 } else { Ty::I32 };
                    }
                    let x = self.exact(&from, d - 1, false);
                    Ex::Cast(t.clone(), b(x))
                }
                7 if *t == Ty::I32 => self.int_intrinsic(d - 1),
                7 => {
                    let vs = self.vars_of(|x| *x == Ty::SRef(b(t.clone())));
                    match vs.first() {
                        Some(v) => Ex::Intr("Deref", None, vec![Ex::Var(v.0.clone())]),
                        None => self.leaf(t, expected),
                    }
                }
                _ => self.leaf(t, expected),
            },
            t => {
                if !self.pure && self.s.chance(1, 4) {
                    let vs = self.vars_of(|x| *x == Ty::Variant);
                    if let Some(v) = vs.first() {
                        return Ex::Intr("FromVariant", Some(t.clone()), vec![Ex::Var(v.0.clone())]);
                    }
                }
                self.leaf(t, expected)
            }
        }
    }

    fn printable(&mut self) -> Ty {
        let t = self.any_ty();
        match t {
            Ty::WRef(_) => Ty::I32,
            t => t,
        }
    }

    fn const_array(&mut self, e: &Ty, n: usize, expected: bool) -> Ex {
        let was = std::mem::replace(&mut self.pure, true);
        let vars = std::mem::take(&mut self.vars);
        let this = self.this.take();
        let mut v = vec![];
        for _ in 0..n {
            let x = match e {
                // a literal without objects
                Ty::Ref(c) => if expected && self.s.bool() { Ex::Null } else { Ex::Nil(*c) },
                Ty::WRef(c) => Ex::Conv(Conv::ToW, b(Ex::Nil(*c))),
                t if matches!(t, Ty::Struct(_) | Ty::Variant) => self.exact(t, 0, expected),
                t => self.leaf(t, expected),
            };
            v.push(x);
        }
        self.pure = was;
        self.vars = vars;
        self.this = this;
        Ex::Array(v)
    }

    /// An array literal of arbitrary elements, for where it is evaluated in order.
    pub fn array(&mut self, e: &Ty, d: u32, expected: bool) -> Ex {
        let n = self.s.idx(5);
        let n = if n == 0 && !expected { 1 } else { n };
        let mut v = vec![];
        for _ in 0..n {
            let x = if expected { self.conv(e, d, true) } else { self.exact(e, d, false) };
            v.push(x);
        }
        Ex::Array(v)
    }

    fn int_intrinsic(&mut self, d: u32) -> Ex {
        match self.s.below(4) {
            0 => {
                if let Some(e) = (!self.w.enums.is_empty()).then(|| self.s.idx(self.w.enums.len())) {
                    let x = self.exact(&Ty::Enum(e), d, false);
                    return Ex::Intr("EnumInt", None, vec![x]);
                }
            }
            1 => {
                let t = self.arr_ty();
                if let Some(p) = self.place(&t, false, 0) {
                    return Ex::Intr("ArraySize", None, vec![p]);
                }
            }
            2 if !self.pure => {
                if let Some(p) = self.place(&Ty::Arr(b(Ty::I32)), false, 0) {
                    return match self.s.below(4) {
                        0 => Ex::Intr("ArrayLast", None, vec![p]),
                        1 => {
                            let x = self.exact(&Ty::I32, d, true);
                            Ex::Intr(*self.s.pick(&["ArrayFindFirst", "ArrayFindLast", "ArrayCount"]), None, vec![p, x])
                        }
                        2 => match self.place(&Ty::Arr(b(Ty::I32)), true, 0) {
                            Some(p) => Ex::Intr("ArrayPop", None, vec![p]),
                            None => Ex::Intr("ArraySize", None, vec![p]),
                        },
                        _ => {
                            let x = self.exact(&Ty::I32, d, true);
                            Ex::Elem(b(p), b(x))
                        }
                    };
                }
            }
            _ => {}
        }
        self.leaf(&Ty::I32, false)
    }

    fn arr_ty(&mut self) -> Ty {
        let mut ts: Vec<Ty> = self.vars_of(|t| matches!(t, Ty::Arr(_))).into_iter().map(|v| v.1).collect();
        if let Some(c) = self.this {
            ts.extend(self.class_fields(c).into_iter().map(|f| f.ty).filter(|t| matches!(t, Ty::Arr(_))));
        }
        if ts.is_empty() {
            Ty::Arr(b(Ty::I32))
        } else {
            self.s.pick(&ts).clone()
        }
    }

    fn boolean(&mut self, d: u32) -> Ex {
        match self.s.below(11) {
            0 | 1 => {
                let t = self.s.pick(NUM).clone();
                let op = *self.s.pick(&["Less", "LessEqual", "Greater", "GreaterEqual", "Equal", "NotEqual"]);
                let x = self.exact(&t, d, false);
                let y = self.exact(&t, d, false);
                Ex::Bin(op, b(x), b(y))
            }
            2 => {
                let x = self.exact(&Ty::Bool, d, true);
                let y = self.exact(&Ty::Bool, d, true);
                Ex::And(b(x), b(y))
            }
            3 => {
                let x = self.exact(&Ty::Bool, d, true);
                let y = self.exact(&Ty::Bool, d, true);
                Ex::Or(b(x), b(y))
            }
            4 => Ex::Un("LogicNot", b(self.exact(&Ty::Bool, d, false))),
            5 => {
                let t = self.s.pick(&[Ty::Str, Ty::Name, Ty::Bool]).clone();
                let x = self.exact(&t, d, false);
                let y = self.exact(&t, d, false);
                Ex::Bin(*self.s.pick(&["Equal", "NotEqual"]), b(x), b(y))
            }
            6 => {
                let t = self.simple_ty();
                let x = self.exact(&t, d, false);
                let y = self.exact(&t, d, true);
                Ex::Intr(*self.s.pick(&["Equals", "NotEquals"]), None, vec![x, y])
            }
            7 if !self.w.classes.is_empty() && !self.pure => {
                let c = self.s.idx(self.w.classes.len());
                let x = self.exact(&Ty::Ref(c), d, false);
                if self.s.bool() {
                    let vs = self.vars_of(|t| matches!(t, Ty::WRef(_)));
                    let x = if vs.is_empty() || self.s.bool() { x } else { Ex::Var(self.s.pick(&vs).0.clone()) };
                    return Ex::Intr("IsDefined", None, vec![x]);
                }
                let y = match self.s.below(3) {
                    0 => Ex::Null,
                    _ => {
                        let k = self.s.idx(self.w.classes.len());
                        self.exact(&Ty::Ref(k), d, false)
                    }
                };
                Ex::Bin(*self.s.pick(&["Equal", "NotEqual"]), b(x), b(y))
            }
            8 => {
                let t = self.arr_ty();
                let Ty::Arr(e) = &t else { unreachable!() };
                if matches!(**e, Ty::Struct(_) | Ty::Ref(_) | Ty::WRef(_)) {
                    return self.leaf(&Ty::Bool, true);
                }
                if let Some(p) = self.place(&t, false, 0) {
                    let x = self.exact(e, d, true);
                    return Ex::Intr("ArrayContains", None, vec![p, x]);
                }
                self.leaf(&Ty::Bool, true)
            }
            9 => {
                // membership in a literal
                let t = self.simple_ty();
                let n = self.s.size(1, 3);
                let a = self.const_array(&t, n, false);
                let x = self.exact(&t, d, true);
                Ex::Intr("ArrayContains", None, vec![a, x])
            }
            _ if !self.pure => {
                let v = self.vars_of(|t| *t == Ty::Variant);
                match v.first() {
                    Some(v) => Ex::Intr(*self.s.pick(&["IsDefined", "VariantIsRef", "VariantIsArray"]), None, vec![Ex::Var(v.0.clone())]),
                    None => self.leaf(&Ty::Bool, true),
                }
            }
            _ => self.leaf(&Ty::Bool, true),
        }
    }

    // ---------------------------------------------------------------- statements

    fn name(&mut self) -> String {
        let vs = self.vars_of(|_| true);
        let vs: Vec<_> = vs.into_iter().filter(|v| v.2).collect();
        if !vs.is_empty() && self.s.chance(1, 8) {
            return self.s.pick(&vs).0.clone();
        }
        self.fresh += 1;
        format!("v{}", self.fresh)
    }

    /// A statement that shows the value of an expression.
    pub fn show(&mut self, t: &Ty, e: Ex) -> St {
        self.tag += 1;
        let k = self.tag;
        St::Ex(match t {
            t if probe_name(t).is_some() => Ex::Probe(probe_name(t).unwrap(), k, b(e)),
            Ty::Enum(_) => Ex::Probe("Int32", k, b(Ex::Intr("EnumInt", None, vec![e]))),
            Ty::Ref(_) => Ex::Probe("Ref", k, b(e)),
            Ty::WRef(_) => Ex::Probe("WRef", k, b(e)),
            Ty::Variant => Ex::Probe("Variant", k, b(e)),
            Ty::Arr(x) if **x == Ty::I32 => Ex::Probe("Ints", k, b(e)),
            Ty::SRef(x) if **x == Ty::Str => Ex::Probe("SRef", k, b(e)),
            _ => Ex::Probe("String", k, b(Ex::Interp("".into(), vec![(e, "".into())]))),
        })
    }

    /// A condition; array literals of arbitrary pure elements appear only among pure operands.
    fn cond(&mut self, d: u32) -> Ex {
        if self.s.chance(1, 5) {
            let was = std::mem::replace(&mut self.pure, true);
            let t = self.s.pick(SIMPLE).clone();
            let n = self.s.size(1, 3);
            let mut v = vec![];
            for _ in 0..n {
                v.push(self.exact(&t, 1, false));
            }
            let x = self.exact(&t, 1, true);
            let c = Ex::Intr("ArrayContains", None, vec![Ex::Array(v), x]);
            let c = if self.s.bool() {
                let y = self.exact(&Ty::Bool, 1, true);
                Ex::And(b(y), b(c))
            } else {
                c
            };
            self.pure = was;
            return c;
        }
        self.exact(&Ty::Bool, d, true)
    }

    pub fn block(&mut self, max: usize, depth: u32) -> Vec<St> {
        let k = self.vars.len();
        let n = self.s.idx(max + 1);
        let mut v = vec![];
        for _ in 0..n {
            if self.budget < 0 {
                break;
            }
            self.stmt(&mut v, depth);
        }
        self.vars.truncate(k);
        v
    }

    pub fn stmt(&mut self, out: &mut Vec<St>, depth: u32) {
        self.budget -= 1;
        let d = self.o.depth;
        let w: &[u64] = if depth == 0 { &[6, 4, 3, 5, 0, 0, 0, 0, 3, 2, 1] } else { &[6, 4, 3, 5, 4, 2, 2, 3, 3, 2, 1] };
        match self.s.weighted(w) {
            0 => {
                let mut t = self.any_ty();
                match self.s.below(6) {
                    0 => {
                        let n = self.name();
                        self.vars.push((n.clone(), t.clone(), true));
                        out.push(St::Let(n, t, true, None));
                    }
                    1..=3 => {
                        let e = match &t {
                            Ty::Arr(e) if self.s.chance(2, 3) => {
                                let e = (**e).clone();
                                self.array(&e, d - 1, true)
                            }
                            _ => self.conv(&t, d, true),
                        };
                        let n = self.name();
                        self.vars.push((n.clone(), t.clone(), true));
                        out.push(St::Let(n, t, true, Some(e)));
                    }
                    _ => {
                        if matches!(t, Ty::WRef(_)) {
                            t = self.simple_ty();
                        }
                        let e = match &t {
                            Ty::Arr(e) if self.s.chance(2, 3) && !matches!(**e, Ty::WRef(_)) => {
                                let e = (**e).clone();
                                self.array(&e, d - 1, false)
                            }
                            _ => self.exact(&t, d, false),
                        };
                        let n = self.name();
                        self.vars.push((n.clone(), t.clone(), true));
                        out.push(St::Let(n, t, false, Some(e)));
                    }
                }
            }
            1 => {
                let t = self.any_ty();
                if let Some(p) = self.place(&t, true, d) {
                    let e = match (&t, &p) {
                        (Ty::Arr(e), Ex::Var(_)) if self.s.bool() => {
                            let e = (**e).clone();
                            self.array(&e, d - 1, true)
                        }
                        _ => self.conv(&t, d, true),
                    };
                    out.push(St::Assign(p, e));
                }
            }
            2 => {
                let t = if self.s.chance(1, 5) { Ty::Str } else { self.s.pick(NUM).clone() };
                if let Some(p) = self.place(&t, true, d) {
                    let mut ops = vec!["AssignAdd"];
                    if t != Ty::Str {
                        ops.extend(["AssignSubtract", "AssignMultiply"]);
                        if !matches!(t, Ty::F32 | Ty::F64) {
                            ops.extend(["AssignAnd", "AssignOr"]);
                        } else {
                            ops.push("AssignDivide");
                        }
                    }
                    let op = *self.s.pick(&ops);
                    let e = self.exact(&t, d, false);
                    out.push(St::OpAssign(op, p, e));
                }
            }
            3 => {
                let t = self.any_ty();
                let e = match (&t, self.place(&t, false, d)) {
                    (_, Some(p)) => p,
                    (Ty::WRef(_), None) => return,
                    _ => self.exact(&t, d, false),
                };
                out.push(self.show(&t, e));
            }
            4 => {
                let c = self.cond(d);
                let a = self.block(3, depth - 1);
                let e = match self.s.below(4) {
                    0 | 1 => None,
                    2 => Some(self.block(3, depth - 1)),
                    _ => {
                        let c2 = self.cond(d);
                        let x = self.block(2, depth - 1);
                        let y = self.s.bool().then(|| self.block(2, depth - 1));
                        Some(vec![St::If(c2, x, y)])
                    }
                };
                out.push(St::If(c, a, e));
            }
            5 => {
                self.fresh += 1;
                let k = format!("k{}", self.fresh);
                let lim = self.s.size(0, 3) as i32;
                out.push(St::Let(k.clone(), Ty::I32, self.s.bool(), Some(Ex::Lit(V::I32(0), "0".into()))));
                self.vars.push((k.clone(), Ty::I32, false));
                let bound = Ex::Bin("Less", b(Ex::Var(k.clone())), b(Ex::Lit(V::I32(lim), lim.to_string())));
                let c = if self.s.bool() {
                    bound
                } else {
                    let c = self.cond(1);
                    Ex::And(b(bound), b(c))
                };
                let n = self.vars.len();
                self.nest += 1;
                let mut body = vec![St::OpAssign("AssignAdd", Ex::Var(k), Ex::Lit(V::I32(1), "1".into()))];
                body.extend(self.block(4, depth - 1));
                self.nest -= 1;
                self.vars.truncate(n);
                out.push(St::While(c, body));
            }
            6 => {
                let t = if self.s.bool() { self.arr_ty() } else { Ty::Arr(b(self.simple_ty())) };
                let Ty::Arr(e) = t.clone() else { unreachable!() };
                let a = match self.place(&t, false, 0) {
                    Some(p) if self.s.bool() => p,
                    _ if matches!(*e, Ty::WRef(_)) => return,
                    _ => self.array(&e, d - 1, false),
                };
                let n = self.name();
                let k = self.vars.len();
                self.vars.push((n.clone(), (*e).clone(), true));
                self.nest += 1;
                let body = self.block(4, depth - 1);
                self.nest -= 1;
                self.vars.truncate(k);
                out.push(St::For(n, *e, a, body));
            }
            7 => {
                let t = match self.s.below(4) {
                    0 if !self.w.enums.is_empty() => Ty::Enum(self.s.idx(self.w.enums.len())),
                    1 => self.s.pick(&[Ty::Name, Ty::Str, Ty::I64, Ty::U32]).clone(),
                    _ => Ty::I32,
                };
                let m = self.exact(&t, d, true);
                // the matched expression is checked without knowing a type
                let m = match m {
                    Ex::Lit(..) => self.exact(&t, 0, false),
                    Ex::Cond(..) => self.leaf(&t, false),
                    m => m,
                };
                let n = self.s.size(0, 4);
                let mut cases = vec![];
                self.nest += 1;
                for k in 0..n {
                    let l = self.leaf(&t, true);
                    let mut body = if self.s.chance(1, 4) { vec![] } else { self.block(3, depth - 1) };
                    // only the last body may run on into the default one
                    if matches!(body.last(), Some(x) if !matches!(x, St::Break | St::Return(_))) && (k + 1 < n || self.s.bool()) {
                        body.push(St::Break);
                    }
                    cases.push((l, body));
                }
                let def = self.s.bool().then(|| self.block(3, depth - 1));
                self.nest -= 1;
                out.push(St::Switch(m, cases, def));
            }
            8 => {
                let rets: Vec<Option<Ty>> = self.w.funcs.iter().zip(&self.level).filter(|(_, l)| **l < self.cur).map(|(f, _)| f.ret.clone()).collect();
                if !rets.is_empty() {
                    let r = self.s.pick(&rets).clone();
                    if let Some(c) = self.call(r.as_ref(), d) {
                        out.push(St::Ex(c));
                    }
                } else if let Some(c) = self.call(None, d) {
                    out.push(St::Ex(c));
                }
            }
            9 => {
                let t = self.arr_ty();
                let Ty::Arr(e) = &t else { unreachable!() };
                if let Some(p) = self.place(&t, true, 0) {
                    let idx = |g: &mut Self| {
                        let k = g.s.below(3) as i32;
                        Ex::Lit(V::I32(k), k.to_string())
                    };
                    let x = match self.s.below(8) {
                        0 => Ex::Intr("ArrayClear", None, vec![p]),
                        1 => {
                            let i = idx(self);
                            Ex::Intr("ArrayResize", Some((**e).clone()), vec![p, i])
                        }
                        2 => {
                            let i = idx(self);
                            Ex::Intr("ArrayGrow", Some((**e).clone()), vec![p, i])
                        }
                        3 => {
                            let i = idx(self);
                            Ex::Intr("ArrayErase", None, vec![p, i])
                        }
                        4 if !matches!(**e, Ty::Struct(_)) => {
                            let x = self.conv(e, 1, true);
                            Ex::Intr("ArrayRemove", None, vec![p, x])
                        }
                        5 => {
                            let x = self.conv(e, 1, true);
                            Ex::Intr("ArrayInsert", None, vec![p, Ex::Lit(V::I32(0), "0".into()), x])
                        }
                        _ => {
                            let x = self.conv(e, d, true);
                            Ex::Intr("ArrayPush", None, vec![p, x])
                        }
                    };
                    out.push(St::Ex(x));
                }
            }
            _ => {
                if self.nest > 0 && self.s.bool() {
                    let c = self.exact(&Ty::Bool, 1, true);
                    out.push(St::If(c, vec![St::Break], None));
                } else if self.s.bool() {
                    let c = self.exact(&Ty::Bool, 1, true);
                    let r = self.ret_stmt(1);
                    out.push(St::If(c, vec![r], None));
                }
            }
        }
    }

    pub fn ret_stmt(&mut self, d: u32) -> St {
        match self.ret.clone() {
            None => St::Return(None),
            Some(Ty::Arr(e)) if self.s.bool() => St::Return(Some(self.array(&e, d, true))),
            Some(t) => St::Return(Some(self.conv(&t, d, true))),
        }
    }

    /// A call of the wrapped function, its result kept.
    pub fn wrapped_call(&mut self, f: usize) -> Option<St> {
        let fun = self.w.funcs[f].clone();
        self.vars = fun.params.iter().map(|p| (p.name.clone(), p.ty.clone(), !matches!(p.ty, Ty::SRef(_)))).collect();
        self.this = if fun.static_ { None } else { fun.owner };
        self.cur = self.level[f];
        self.nest = 0;
        self.budget = 30;
        let a = self.args(f, 1, true)?;
        Some(match fun.ret {
            Some(t) => {
                self.fresh += 1;
                let n = format!("v{}", self.fresh);
                St::Let(n, t, true, Some(Ex::Wrapped(a)))
            }
            None => St::Ex(Ex::Wrapped(a)),
        })
    }

    /// Fills in the body of function `f` (or a stand-in for it with other variable names).
    pub fn body(&mut self, f: usize, with_super: bool) -> Vec<St> {
        let fun = self.w.funcs[f].clone();
        self.vars = fun.params.iter().map(|p| (p.name.clone(), p.ty.clone(), !p.opt || !matches!(p.ty, Ty::SRef(_)))).collect();
        for v in &mut self.vars {
            if matches!(v.1, Ty::SRef(_)) {
                v.2 = false;
            }
        }
        self.this = if fun.static_ { None } else { fun.owner };
        self.cur = self.level[f];
        self.cur_fun = if with_super { f } else { usize::MAX };
        self.ret = fun.ret.clone();
        self.nest = 0;
        self.budget = 120;
        let mut v = vec![];
        let n = self.s.size(1, self.o.max_stmts);
        for _ in 0..n {
            self.stmt(&mut v, 2);
        }
        if fun.ret.is_some() {
            let r = self.ret_stmt(self.o.depth);
            v.push(r);
        } else if self.s.chance(1, 8) {
            v.push(St::Return(None));
        }
        v
    }

    // ---------------------------------------------------------------- declarations

    fn default(&mut self, t: &Ty) -> Option<V> {
        if !self.s.chance(1, 3) {
            return None;
        }
        match t {
            Ty::Enum(e) => {
                let m = self.s.pick(&self.w.enums[*e].members).1;
                Some(V::Enum(self.w.enums[*e].name.clone(), m))
            }
            Ty::Ref(_) => Some(V::Null),
            t => self.literal(t),
        }
    }

    fn params(&mut self, fam: usize, overloaded: bool) -> Vec<Param> {
        let n = self.s.idx(4);
        let mut v = vec![];
        let mut opt = false;
        for i in 0..n {
            let name = format!("p{fam}_{i}");
            let mut t = self.any_ty();
            let mut out = false;
            if !overloaded {
                if i > 0 && (opt || self.s.chance(1, 5)) {
                    opt = true;
                } else if self.s.chance(1, 4) {
                    out = true;
                } else if self.s.chance(1, 6) {
                    t = Ty::SRef(b(self.s.pick(&[Ty::Str, Ty::I32, Ty::F32]).clone()));
                }
            }
            if opt && matches!(t, Ty::Variant) {
                t = Ty::I32;
            }
            v.push(Param { name, ty: t, out, opt });
        }
        v
    }

    pub fn types(&mut self) {
        let n = self.s.idx(3);
        for i in 0..n {
            let k = self.s.size(1, 4);
            let mut val = self.s.range(-2, 3);
            let mut members = vec![];
            for j in 0..k {
                members.push((format!("M{j}"), val));
                val += self.s.range(1, 3);
            }
            self.w.enums.push(Enum { name: format!("En{i}"), members });
        }
        let n = self.s.idx(3);
        for i in 0..n {
            let k = self.s.size(1, 3);
            let mut fields = vec![];
            for j in 0..k {
                let ty = match self.s.below(5) {
                    0 => Ty::Arr(b(self.simple_ty())),
                    1 if i > 0 => Ty::Struct(self.s.idx(i)),
                    _ => self.simple_ty(),
                };
                let default = self.default(&ty);
                fields.push(FieldDef { name: format!("s{i}_{j}"), ty, default });
            }
            self.w.structs.push(Struct { name: format!("St{i}"), fields });
        }
        let n = self.s.size(1, 4);
        for i in 0..n {
            let base = (i > 0 && self.s.chance(3, 4)).then(|| self.s.idx(i));
            let abstract_ = i > 0 && self.s.chance(1, 4);
            self.w.classes.push(Class { name: format!("Cl{i}"), base, abstract_, fields: vec![] });
        }
        for i in 0..n {
            let k = self.s.idx(4);
            for j in 0..k {
                let ty = self.any_ty();
                let default = self.default(&ty);
                self.w.classes[i].fields.push(FieldDef { name: format!("f{i}_{j}"), ty, default });
            }
        }
    }

    fn push(&mut self, f: Func, fam: usize) -> usize {
        self.w.funcs.push(f);
        self.level.push(fam);
        self.w.funcs.len() - 1
    }

    pub fn headers(&mut self) {
        let n = self.s.size(0, self.o.max_families);
        for fam in 0..n {
            let ret = self.s.chance(3, 4).then(|| self.any_ty());
            let root = self.w.funcs.len();
            let blank = Func { name: format!("F{fam}"), owner: None, root, static_: true, final_: false, params: vec![], ret: ret.clone(), body: Some(vec![]), short: false };
            match self.s.below(6) {
                0 | 1 => {
                    let params = self.params(fam, false);
                    self.push(Func { params, ..blank }, fam);
                }
                2 => {
                    // functions of one name, told apart by the types of their arguments
                    let owner = self.s.bool().then(|| self.s.idx(self.w.classes.len()));
                    let mut firsts = vec![Ty::Bool, Ty::I32, Ty::F32, Ty::Str, Ty::Name, Ty::U64];
                    let k = self.s.size(2, 3);
                    for i in 0..k {
                        let t = firsts.remove(self.s.idx(firsts.len()));
                        let mut params = vec![Param { name: format!("q{fam}_{i}"), ty: t, out: false, opt: false }];
                        if self.s.bool() {
                            params.extend(self.params(fam, true));
                        }
                        let ret = self.s.chance(3, 4).then(|| self.any_ty());
                        self.push(Func { owner, root: root + i, params, ret, ..blank.clone() }, fam);
                    }
                }
                3 => {
                    let c = self.s.idx(self.w.classes.len());
                    let params = self.params(fam, true);
                    self.push(Func { owner: Some(c), params, ..blank }, fam);
                }
                4 => {
                    let c = self.s.idx(self.w.classes.len());
                    let params = self.params(fam, false);
                    self.push(Func { owner: Some(c), static_: false, final_: true, params, ..blank }, fam);
                }
                _ => {
                    let c = self.s.idx(self.w.classes.len());
                    let params = self.params(fam, false);
                    let abs = self.w.classes[c].abstract_ && self.s.bool();
                    let body = if abs { None } else { Some(vec![]) };
                    self.push(Func { owner: Some(c), static_: false, params: params.clone(), body, ..blank.clone() }, fam);
                    for k in c + 1..self.w.classes.len() {
                        let direct = self.w.classes[k].base == Some(c);
                        if self.sub(k, c) && ((abs && direct) || self.s.bool()) {
                            self.push(Func { owner: Some(k), static_: false, params: params.clone(), ..blank.clone() }, fam);
                        }
                    }
                }
            }
        }
        let ret = Some(self.any_ty());
        let root = self.w.funcs.len();
        self.push(Func { name: "Main".into(), owner: None, root, static_: true, final_: false, params: vec![], ret, body: Some(vec![]), short: false }, n);
    }

    pub fn bodies(&mut self) {
        for f in 0..self.w.funcs.len() {
            if self.w.funcs[f].body.is_none() {
                continue;
            }
            if self.w.funcs[f].ret.is_some() && self.s.chance(1, 12) {
                self.vars = self.w.funcs[f].params.iter().map(|p| (p.name.clone(), p.ty.clone(), false)).collect();
                self.this = if self.w.funcs[f].static_ { None } else { self.w.funcs[f].owner };
                self.cur = self.level[f];
                self.cur_fun = f;
                self.budget = 60;
                self.ret = self.w.funcs[f].ret.clone();
                let r = self.ret_stmt(self.o.depth);
                self.w.funcs[f].body = Some(vec![r]);
                self.w.funcs[f].short = true;
                continue;
            }
            let v = self.body(f, true);
            self.w.funcs[f].body = Some(v);
        }
    }

    pub fn world(&mut self) {
        self.types();
        self.headers();
        self.bodies();
    }
}

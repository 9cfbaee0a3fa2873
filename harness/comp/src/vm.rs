//! A machine that runs compiled bytecode and checks its structure while doing so: every operand has to
//! end where the instruction that owns it says, every value has to fit the declared type of the place
//! or parameter that receives it.
use std::collections::HashMap;

use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::{Instr, Offset};
use redscript::definition::{AnyDefinition, Class, Field, Function, Type};

use crate::val::{cast, operator, same, text, Stop, V};

type E<T> = Result<T, Stop>;

fn bad<T>(m: impl Into<String>) -> E<T> {
    Err(Stop::Bad(m.into()))
}

#[derive(Clone)]
struct Code {
    at: Vec<(u16, Instr<Offset>)>,
    index: HashMap<u16, usize>,
    end: u16,
}

struct Obj {
    class: PoolIndex<Class>,
    fields: HashMap<u32, V>,
}

pub struct Vm<'a> {
    pub pool: &'a ConstantPool,
    heap: Vec<Obj>,
    pub trace: Vec<String>,
    pub fuel: u64,
    pub depth: u32,
    codes: HashMap<u32, std::rc::Rc<Code>>,
}

struct Frame {
    code: std::rc::Rc<Code>,
    this: Option<usize>,
    locals: HashMap<u32, V>,
    params: HashMap<u32, V>,
    /// parameters that were left out by the caller
    switch: Option<V>,
    fun: PoolIndex<Function>,
}

#[derive(Clone, Debug)]
enum Place {
    Local(u32),
    Param(u32),
    Field(usize, u32),
    Sub(Box<Place>, String),
    Elem(Box<Place>, usize),
}

impl<'a> Vm<'a> {
    pub fn new(pool: &'a ConstantPool) -> Self {
        Vm { pool, heap: vec![], trace: vec![], fuel: 20_000, depth: 0, codes: HashMap::new() }
    }

    fn name<A>(&self, i: PoolIndex<A>) -> E<String> {
        self.pool.def_name(i).map(|n| n.to_string()).map_err(|e| Stop::Bad(format!("no name for {i}: {e}")))
    }

    fn code(&mut self, f: PoolIndex<Function>) -> E<std::rc::Rc<Code>> {
        if let Some(c) = self.codes.get(&u32::from(f)) {
            return Ok(c.clone());
        }
        let fun = self.pool.function(f).map_err(|e| Stop::Bad(format!("function {f}: {e}")))?;
        let mut at = vec![];
        let mut index = HashMap::new();
        let mut end = 0;
        for (loc, i) in fun.code.iter() {
            if matches!(i, Instr::Target(_)) {
                return bad("a label was left in the code");
            }
            index.insert(loc.value, at.len());
            end = loc.value + i.size();
            at.push((loc.value, i));
        }
        let c = std::rc::Rc::new(Code { at, index, end });
        self.codes.insert(u32::from(f), c.clone());
        Ok(c)
    }

    pub fn find_function(&self, sig: &str) -> Option<PoolIndex<Function>> {
        let mut found = None;
        for (i, d) in self.pool.roots() {
            if matches!(d.value, AnyDefinition::Function(_)) && self.pool.def_name(i).ok().as_deref() == Some(sig) {
                found = Some(i.cast());
            }
        }
        found
    }

    pub fn find_prefix(&self, prefix: &str) -> Option<PoolIndex<Function>> {
        let is = |i: PoolIndex<_>| self.pool.def_name(i).is_ok_and(|n| n.starts_with(prefix));
        self.pool.roots().find(|(i, d)| matches!(d.value, AnyDefinition::Function(_)) && is(*i)).map(|(i, _)| i.cast())
    }

    pub fn find_class(&self, name: &str) -> Option<PoolIndex<Class>> {
        self.pool.roots().find(|(i, d)| matches!(d.value, AnyDefinition::Class(_)) && self.pool.def_name(*i).ok().as_deref() == Some(name)).map(|(i, _)| i.cast())
    }

    pub fn find_method(&self, class: PoolIndex<Class>, sig: &str) -> Option<PoolIndex<Function>> {
        let mut cur = class;
        while !cur.is_undefined() {
            let c = self.pool.class(cur).ok()?;
            for f in &c.functions {
                if self.pool.def_name(*f).ok().as_deref() == Some(sig) {
                    return Some(*f);
                }
            }
            cur = c.base;
        }
        None
    }

    fn is_sub(&self, class: PoolIndex<Class>, of: PoolIndex<Class>) -> bool {
        let mut cur = class;
        while !cur.is_undefined() {
            if cur == of {
                return true;
            }
            match self.pool.class(cur) {
                Ok(c) => cur = c.base,
                Err(_) => return false,
            }
        }
        false
    }

    fn class_of_type(&self, t: PoolIndex<Type>) -> Option<AnyKind> {
        let n = self.pool.def_name(t).ok()?;
        for (i, d) in self.pool.roots() {
            match &d.value {
                AnyDefinition::Class(_) if self.pool.def_name(i).ok().as_deref() == Some(&*n) => return Some(AnyKind::Class(i.cast())),
                AnyDefinition::Enum(_) if self.pool.def_name(i).ok().as_deref() == Some(&*n) => return Some(AnyKind::Enum(n.to_string())),
                _ => {}
            }
        }
        None
    }

    fn fits(&self, v: &V, t: PoolIndex<Type>) -> bool {
        let Ok(ty) = self.pool.type_(t) else { return false };
        match ty {
            Type::Prim => {
                let n = self.pool.def_name(t).unwrap();
                matches!(
                    (v, &*n),
                    (V::Bool(_), "Bool") | (V::I8(_), "Int8") | (V::I16(_), "Int16") | (V::I32(_), "Int32") | (V::I64(_), "Int64")
                        | (V::U8(_), "Uint8") | (V::U16(_), "Uint16") | (V::U32(_), "Uint32") | (V::U64(_), "Uint64")
                        | (V::F32(_), "Float") | (V::F64(_), "Double") | (V::Str(_), "String") | (V::Name(_), "CName")
                        | (V::Tdb(_), "TweakDBID") | (V::Res(_), "ResRef") | (V::Var(_), "Variant")
                )
            }
            Type::Class => match (v, self.class_of_type(t)) {
                (V::Struct(n, _), Some(AnyKind::Class(c))) => self.pool.def_name(c).ok().as_deref() == Some(n),
                (V::Enum(n, _), Some(AnyKind::Enum(e))) => *n == e,
                _ => false,
            },
            Type::Ref(inner) => match v {
                V::Null => true,
                V::Obj(o) => matches!(self.class_of_type(*inner), Some(AnyKind::Class(c)) if self.is_sub(self.heap[*o].class, c)),
                _ => false,
            },
            Type::WeakRef(inner) => match v {
                V::WNull => true,
                V::WObj(o) => matches!(self.class_of_type(*inner), Some(AnyKind::Class(c)) if self.is_sub(self.heap[*o].class, c)),
                _ => false,
            },
            Type::Array(inner) => match v {
                V::Arr(a) => a.iter().all(|x| self.fits(x, *inner)),
                _ => false,
            },
            Type::StaticArray(inner, n) => match v {
                V::Arr(a) => a.len() as u32 == *n && a.iter().all(|x| self.fits(x, *inner)),
                _ => false,
            },
            Type::ScriptRef(inner) => match v {
                V::SRef(x) => self.fits(x, *inner),
                _ => false,
            },
        }
    }

    pub fn zero(&self, t: PoolIndex<Type>) -> E<V> {
        let ty = self.pool.type_(t).map_err(|e| Stop::Bad(format!("type {t}: {e}")))?;
        Ok(match ty {
            Type::Prim => match &*self.name(t)? {
                "Bool" => V::Bool(false),
                "Int8" => V::I8(0),
                "Int16" => V::I16(0),
                "Int32" => V::I32(0),
                "Int64" => V::I64(0),
                "Uint8" => V::U8(0),
                "Uint16" => V::U16(0),
                "Uint32" => V::U32(0),
                "Uint64" => V::U64(0),
                "Float" => V::F32(0.0),
                "Double" => V::F64(0.0),
                "String" => V::Str(String::new()),
                "CName" => V::Name("None".into()),
                "TweakDBID" => V::Tdb(String::new()),
                "ResRef" => V::Res(String::new()),
                "Variant" => V::Var(Box::new(V::Void)),
                other => return bad(format!("no default for {other}")),
            },
            Type::Class => match self.class_of_type(t) {
                Some(AnyKind::Class(c)) => self.fresh_struct(c)?,
                Some(AnyKind::Enum(n)) => {
                    let e = self.pool.roots().find(|(i, d)| matches!(d.value, AnyDefinition::Enum(_)) && self.pool.def_name(*i).ok().as_deref() == Some(&n));
                    let Some((_, d)) = e else { return bad("no enum") };
                    let first = match &d.value {
                        AnyDefinition::Enum(e) => e.members.first().copied(),
                        _ => None,
                    };
                    V::Enum(n, first.and_then(|m| self.pool.enum_value(m).ok()).unwrap_or(0))
                }
                None => return bad(format!("type {} has no definition", self.name(t)?)),
            },
            Type::Ref(_) => V::Null,
            Type::WeakRef(_) => V::WNull,
            Type::Array(_) => V::Arr(vec![]),
            Type::StaticArray(inner, n) => V::Arr((0..*n).map(|_| self.zero(*inner)).collect::<E<_>>()?),
            Type::ScriptRef(inner) => V::SRef(Box::new(self.zero(*inner)?)),
        })
    }

    fn fresh_struct(&self, c: PoolIndex<Class>) -> E<V> {
        let cl = self.pool.class(c).map_err(|e| Stop::Bad(e.to_string()))?;
        let mut fs = vec![];
        for f in &cl.fields {
            fs.push((self.name(*f)?, self.field_init(*f)?));
        }
        Ok(V::Struct(self.name(c)?, fs))
    }

    fn field_init(&self, f: PoolIndex<Field>) -> E<V> {
        let fd = self.pool.field(f).map_err(|e| Stop::Bad(e.to_string()))?;
        let z = self.zero(fd.type_)?;
        let Some(p) = fd.defaults.first() else { return Ok(z) };
        let owner = self.pool.definition(f).map_err(|e| Stop::Bad(e.to_string()))?.parent;
        if p.name != self.name(owner)? {
            return bad(format!("default of {} is filed under {}", self.name(f)?, p.name));
        }
        let t = p.value.as_str();
        let parsed = match &z {
            V::Bool(_) => t.parse().ok().map(V::Bool),
            V::I32(_) => t.parse().ok().map(V::I32),
            V::I64(_) => t.parse().ok().map(V::I64),
            V::U32(_) => t.parse().ok().map(V::U32),
            V::U64(_) => t.parse().ok().map(V::U64),
            V::F32(_) => t.parse().ok().map(V::F32),
            V::F64(_) => t.parse().ok().map(V::F64),
            V::Str(_) => Some(V::Str(t.into())),
            V::Name(_) => Some(V::Name(t.into())),
            V::Tdb(_) => Some(V::Tdb(t.into())),
            V::Res(_) => Some(V::Res(t.into())),
            V::Null => (t == "null").then_some(V::Null),
            V::WNull => (t == "null").then_some(V::WNull),
            V::Enum(n, _) => t.strip_prefix(&format!("{n}.")).and_then(|m| self.enum_member(n, m)),
            _ => None,
        };
        match parsed {
            Some(v) => Ok(v),
            None => bad(format!("default {t:?} of {} cannot be read", self.name(f)?)),
        }
    }

    fn enum_member(&self, e: &str, m: &str) -> Option<V> {
        self.pool.roots().find_map(|(i, d)| match &d.value {
            AnyDefinition::Enum(en) if self.pool.def_name(i).ok().as_deref() == Some(e) => en
                .members
                .iter()
                .find(|x| self.pool.def_name(**x).ok().as_deref() == Some(m))
                .and_then(|x| self.pool.enum_value(*x).ok())
                .map(|v| V::Enum(e.to_owned(), v)),
            _ => None,
        })
    }

    pub fn instantiate(&mut self, c: PoolIndex<Class>) -> E<V> {
        let mut fields = HashMap::new();
        let mut cur = c;
        while !cur.is_undefined() {
            let cl = self.pool.class(cur).map_err(|e| Stop::Bad(e.to_string()))?;
            if cur == c && cl.flags.is_abstract() {
                return bad("instance of an abstract class");
            }
            for f in &cl.fields {
                fields.insert(u32::from(*f), self.field_init(*f)?);
            }
            cur = cl.base;
        }
        self.heap.push(Obj { class: c, fields });
        Ok(V::Obj(self.heap.len() - 1))
    }

    pub fn object_state(&self, id: usize) -> Vec<(String, V)> {
        let mut v: Vec<_> = self.heap[id].fields.iter().map(|(f, v)| (self.pool.def_name(PoolIndex::<Field>::new(*f)).unwrap().to_string(), v.clone())).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    }

    pub fn heap_size(&self) -> usize {
        self.heap.len()
    }

    pub fn class_name(&self, id: usize) -> String {
        self.name(self.heap[id].class).unwrap_or_default()
    }

    /// Runs a function; the values of `out` parameters afterwards come with the result.
    pub fn call(&mut self, f: PoolIndex<Function>, this: Option<usize>, args: Vec<Option<V>>) -> E<(V, Vec<V>)> {
        if self.depth > 60 {
            return Err(Stop::Fuel);
        }
        let fun = self.pool.function(f).map_err(|e| Stop::Bad(format!("call of {f}: {e}")))?;
        let name = self.name(f)?;
        if args.len() != fun.parameters.len() {
            return bad(format!("{name} takes {} arguments, {} were given", fun.parameters.len(), args.len()));
        }
        let mut params = HashMap::new();
        for (p, a) in fun.parameters.iter().zip(args) {
            let par = self.pool.parameter(*p).map_err(|e| Stop::Bad(e.to_string()))?;
            let v = match a {
                Some(v) => v,
                None => {
                    if !par.flags.is_optional() {
                        return bad(format!("{name}: a required argument is left out"));
                    }
                    self.zero(par.type_)?
                }
            };
            if !self.fits(&v, par.type_) {
                return bad(format!("{name}: {v:?} given for {}", self.name(par.type_)?));
            }
            params.insert(u32::from(*p), v);
        }
        if fun.flags.is_native() {
            let vals: Vec<V> = fun.parameters.iter().map(|p| params[&u32::from(*p)].clone()).collect();
            let ret = match fun.return_type {
                Some(t) => self.name(t)?,
                None => "Void".into(),
            };
            let short = name.split(';').next().unwrap();
            let v = if let Some(op) = short.strip_prefix("Operator") {
                match operator(op, &vals, &ret) {
                    Some(r) => r?,
                    None => return bad(format!("{name} given {vals:?}")),
                }
            } else if short == "Cast" {
                match cast(&vals[0], &ret) {
                    Some(v) => v,
                    None => return bad(format!("{name} given {vals:?}")),
                }
            } else {
                self.trace.push(format!("{short}({vals:?})"));
                if short.starts_with("P_") && fun.return_type.is_some() {
                    vals[1].clone()
                } else {
                    V::Void
                }
            };
            let mut outs = vals;
            if short.starts_with("OperatorAssign") {
                outs[0] = v.clone();
            }
            return Ok((v, outs));
        }
        if fun.flags.is_static() == this.is_some() {
            return bad(format!("{name}: static {} called with receiver {this:?}", fun.flags.is_static()));
        }
        let mut locals = HashMap::new();
        for l in &fun.locals {
            let loc = self.pool.local(*l).map_err(|e| Stop::Bad(format!("local of {name}: {e}")))?;
            let parent = self.pool.definition(*l).map_err(|e| Stop::Bad(e.to_string()))?.parent;
            if u32::from(parent) != u32::from(f) {
                return bad(format!("a local of {name} belongs to another function"));
            }
            locals.insert(u32::from(*l), self.zero(loc.type_)?);
        }
        let code = self.code(f)?;
        let mut fr = Frame { code, this, locals, params, switch: None, fun: f };
        self.depth += 1;
        let r = self.run(&mut fr);
        self.depth -= 1;
        let v = r?;
        match (&v, fun.return_type) {
            (V::Void, None) => {}
            (V::Void, Some(_)) => {}
            (v, Some(t)) => {
                if !self.fits(v, t) {
                    return bad(format!("{name} returns {v:?} for {}", self.name(t)?));
                }
            }
            (v, None) => return bad(format!("{name} returns {v:?} but is void")),
        }
        let outs = fun.parameters.iter().map(|p| fr.params[&u32::from(*p)].clone()).collect();
        Ok((v, outs))
    }

    fn target(&self, fr: &Frame, at: u16, o: Offset) -> E<u16> {
        let t = i32::from(at) + i32::from(o.value);
        if t < 0 || t > i32::from(fr.code.end) || (t != i32::from(fr.code.end) && !fr.code.index.contains_key(&(t as u16))) {
            return bad(format!("jump from {at} to {t}, which is no instruction"));
        }
        Ok(t as u16)
    }

    fn fetch(&mut self, fr: &Frame, pos: u16) -> E<(Instr<Offset>, u16)> {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        match fr.code.index.get(&pos) {
            Some(i) => {
                let (l, ins) = &fr.code.at[*i];
                Ok((ins.clone(), l + ins.size()))
            }
            None => bad(format!("no instruction at {pos}")),
        }
    }

    fn run(&mut self, fr: &mut Frame) -> E<V> {
        let mut pos = 0u16;
        let mut by_label = false;
        loop {
            if pos == fr.code.end {
                return Ok(V::Void);
            }
            let (ins, next) = self.fetch(fr, pos)?;
            let arrived = std::mem::replace(&mut by_label, false);
            match ins {
                Instr::Nop => pos = next,
                Instr::Jump(o) => pos = self.target(fr, pos, o)?,
                Instr::JumpIfFalse(o) => {
                    let t = self.target(fr, pos, o)?;
                    let (c, n) = self.eval(fr, next, None)?;
                    match c {
                        V::Bool(true) => pos = n,
                        V::Bool(false) => pos = t,
                        v => return bad(format!("condition is {v:?}")),
                    }
                }
                Instr::Switch(ty, o) => {
                    let t = self.target(fr, pos, o)?;
                    let (v, n) = self.eval(fr, next, None)?;
                    if n != t {
                        return bad("the first case does not follow the switch");
                    }
                    if !self.fits(&v, ty) {
                        return bad(format!("switch over {} given {v:?}", self.name(ty)?));
                    }
                    fr.switch = Some(v);
                    pos = t;
                    by_label = true;
                }
                Instr::SwitchLabel(nxt, body) => {
                    let nxt = self.target(fr, pos, nxt)?;
                    let body = self.target(fr, pos, body)?;
                    if arrived {
                        let (v, _) = self.eval(fr, next, None)?;
                        let Some(s) = &fr.switch else { return bad("case without switch") };
                        if same(s, &v) {
                            pos = body;
                        } else {
                            pos = nxt;
                            by_label = true;
                        }
                    } else {
                        pos = body;
                    }
                }
                Instr::SwitchDefault => pos = next,
                Instr::Return => {
                    let (i, _) = self.fetch(fr, next)?;
                    if i == Instr::Nop {
                        return Ok(V::Void);
                    }
                    let (v, _) = self.eval(fr, next, None)?;
                    return Ok(v);
                }
                _ => {
                    let (_, n) = self.eval(fr, pos, None)?;
                    pos = n;
                }
            }
        }
    }

    fn load(&self, fr: &Frame, p: &Place) -> E<V> {
        Ok(match p {
            Place::Local(i) => match fr.locals.get(i) {
                Some(v) => v.clone(),
                None => return bad(format!("{} uses a local it does not have", self.name(fr.fun)?)),
            },
            Place::Param(i) => match fr.params.get(i) {
                Some(v) => v.clone(),
                None => return bad(format!("{} uses a parameter it does not have", self.name(fr.fun)?)),
            },
            Place::Field(o, f) => match self.heap[*o].fields.get(f) {
                Some(v) => v.clone(),
                None => return bad(format!("field {} of an object of {}", self.name(PoolIndex::<Field>::new(*f))?, self.name(self.heap[*o].class)?)),
            },
            Place::Sub(p, n) => match self.load(fr, p)? {
                V::Struct(_, fs) => match fs.into_iter().find(|(k, _)| k == n) {
                    Some((_, v)) => v,
                    None => return bad("no such struct field"),
                },
                V::SRef(b) => match *b {
                    V::Struct(_, fs) => fs.into_iter().find(|(k, _)| k == n).map(|(_, v)| v).ok_or(Stop::Bad("no such struct field".into()))?,
                    v => return bad(format!("field of {v:?}")),
                },
                v => return bad(format!("field of {v:?}")),
            },
            Place::Elem(p, i) => match self.load(fr, p)? {
                V::Arr(a) => match a.get(*i) {
                    Some(v) => v.clone(),
                    None => return Err(Stop::Abort("index out of range")),
                },
                v => return bad(format!("element of {v:?}")),
            },
        })
    }

    fn store(&mut self, fr: &mut Frame, p: &Place, v: V) -> E<()> {
        match p {
            Place::Local(i) => {
                let t = self.pool.local(PoolIndex::new(*i)).map_err(|e| Stop::Bad(e.to_string()))?.type_;
                if !self.fits(&v, t) {
                    return bad(format!("{v:?} stored in a local of type {}", self.name(t)?));
                }
                if fr.locals.insert(*i, v).is_none() {
                    return bad(format!("{} assigns a local it does not have", self.name(fr.fun)?));
                }
            }
            Place::Param(i) => {
                let t = self.pool.parameter(PoolIndex::new(*i)).map_err(|e| Stop::Bad(e.to_string()))?.type_;
                if !self.fits(&v, t) {
                    return bad(format!("{v:?} stored in a parameter of type {}", self.name(t)?));
                }
                if fr.params.insert(*i, v).is_none() {
                    return bad("assigns a parameter it does not have");
                }
            }
            Place::Field(o, f) => {
                let t = self.pool.field(PoolIndex::new(*f)).map_err(|e| Stop::Bad(e.to_string()))?.type_;
                if !self.fits(&v, t) {
                    return bad(format!("{v:?} stored in a field of type {}", self.name(t)?));
                }
                if self.heap[*o].fields.insert(*f, v).is_none() {
                    return bad("assigns a field the object does not have");
                }
            }
            Place::Sub(p, n) => {
                let mut s = self.load(fr, p)?;
                match &mut s {
                    V::Struct(_, fs) => match fs.iter_mut().find(|(k, _)| k == n) {
                        Some(slot) => slot.1 = v,
                        None => return bad("no such struct field"),
                    },
                    v => return bad(format!("field of {v:?}")),
                }
                self.store(fr, p, s)?;
            }
            Place::Elem(p, i) => {
                let mut s = self.load(fr, p)?;
                match &mut s {
                    V::Arr(a) => match a.get_mut(*i) {
                        Some(slot) => *slot = v,
                        None => return Err(Stop::Abort("index out of range")),
                    },
                    v => return bad(format!("element of {v:?}")),
                }
                self.store(fr, p, s)?;
            }
        }
        Ok(())
    }

    fn index(v: &V) -> E<usize> {
        match v {
            V::I32(i) => usize::try_from(*i).map_err(|_| Stop::Abort("index out of range")),
            V::U64(i) => Ok(*i as usize),
            v => bad(format!("index is {v:?}")),
        }
    }

    fn place(&mut self, fr: &mut Frame, pos: u16, ctx: Option<usize>) -> E<(Place, u16)> {
        let (ins, next) = self.fetch(fr, pos)?;
        Ok(match ins {
            Instr::Local(i) => (Place::Local(u32::from(i)), next),
            Instr::Param(i) => (Place::Param(u32::from(i)), next),
            Instr::ObjectField(f) => match ctx.or(fr.this) {
                Some(o) => (Place::Field(o, u32::from(f)), next),
                None => return bad("field without object"),
            },
            Instr::Context(exit) => {
                let exit = self.target(fr, pos, exit)?;
                let (o, n) = self.eval(fr, next, None)?;
                let o = self.receiver(&o)?;
                let (p, n) = self.place(fr, n, Some(o))?;
                if n != exit {
                    return bad("a member does not end where its context says");
                }
                (p, n)
            }
            Instr::StructField(f) => {
                let (p, n) = self.place(fr, next, None)?;
                (Place::Sub(Box::new(p), self.name(f)?), n)
            }
            Instr::ArrayElement(_) | Instr::StaticArrayElement(_) => {
                let (p, n) = self.place(fr, next, None)?;
                let (i, n) = self.eval(fr, n, None)?;
                (Place::Elem(Box::new(p), Self::index(&i)?), n)
            }
            i => return bad(format!("{i:?} is not a place")),
        })
    }

    fn receiver(&self, v: &V) -> E<usize> {
        match v {
            V::Obj(o) => Ok(*o),
            V::Null => Err(Stop::Abort("null receiver")),
            v => bad(format!("receiver is {v:?}")),
        }
    }

    fn eval(&mut self, fr: &mut Frame, pos: u16, ctx: Option<usize>) -> E<(V, u16)> {
        let (ins, next) = self.fetch(fr, pos)?;
        let get = |r: Result<redscript::Ref<str>, redscript::bundle::PoolError>| r.map(|s| s.to_string()).map_err(|e| Stop::Bad(e.to_string()));
        Ok(match ins {
            Instr::Null => (V::Null, next),
            Instr::WeakRefNull => (V::WNull, next),
            Instr::I32One => (V::I32(1), next),
            Instr::I32Zero => (V::I32(0), next),
            Instr::I8Const(v) => (V::I8(v), next),
            Instr::I16Const(v) => (V::I16(v), next),
            Instr::I32Const(v) => (V::I32(v), next),
            Instr::I64Const(v) => (V::I64(v), next),
            Instr::U8Const(v) => (V::U8(v), next),
            Instr::U16Const(v) => (V::U16(v), next),
            Instr::U32Const(v) => (V::U32(v), next),
            Instr::U64Const(v) => (V::U64(v), next),
            Instr::F32Const(v) => (V::F32(v), next),
            Instr::F64Const(v) => (V::F64(v), next),
            Instr::TrueConst => (V::Bool(true), next),
            Instr::FalseConst => (V::Bool(false), next),
            Instr::NameConst(i) => (V::Name(get(self.pool.names.get(i))?), next),
            Instr::StringConst(i) => (V::Str(get(self.pool.strings.get(i))?), next),
            Instr::TweakDbIdConst(i) => (V::Tdb(get(self.pool.tweakdb_ids.get(i))?), next),
            Instr::ResourceConst(i) => (V::Res(get(self.pool.resources.get(i))?), next),
            Instr::EnumConst(e, m) => {
                let en = self.pool.enum_(e).map_err(|e| Stop::Bad(e.to_string()))?;
                if !en.members.contains(&m) {
                    return bad("a member of another enum");
                }
                (V::Enum(self.name(e)?, self.pool.enum_value(m).map_err(|e| Stop::Bad(e.to_string()))?), next)
            }
            Instr::Local(_) | Instr::Param(_) | Instr::ObjectField(_) => {
                let (p, n) = self.place(fr, pos, ctx)?;
                (self.load(fr, &p)?, n)
            }
            Instr::StructField(f) => {
                let (v, n) = self.eval(fr, next, None)?;
                let v = match v {
                    V::SRef(v) => *v,
                    v => v,
                };
                let name = self.name(f)?;
                match v {
                    V::Struct(_, fs) => match fs.into_iter().find(|(k, _)| *k == name) {
                        Some((_, v)) => (v, n),
                        None => return bad("no such struct field"),
                    },
                    v => return bad(format!("field of {v:?}")),
                }
            }
            Instr::ArrayElement(t) => {
                let (a, n) = self.eval(fr, next, None)?;
                if !self.fits(&a, t) {
                    return bad(format!("element of {a:?} as {}", self.name(t)?));
                }
                let (i, n) = self.eval(fr, n, None)?;
                match a {
                    V::Arr(a) => match a.get(Self::index(&i)?) {
                        Some(v) => (v.clone(), n),
                        None => return Err(Stop::Abort("index out of range")),
                    },
                    v => return bad(format!("element of {v:?}")),
                }
            }
            Instr::Context(exit) => {
                let exit = self.target(fr, pos, exit)?;
                let (o, n) = self.eval(fr, next, None)?;
                let o = self.receiver(&o)?;
                let (v, n) = self.eval(fr, n, Some(o))?;
                if n != exit {
                    return bad("a member does not end where its context says");
                }
                (v, n)
            }
            Instr::This => match fr.this {
                Some(o) => (V::Obj(o), next),
                None => return bad("this without object"),
            },
            Instr::Assign => {
                let (p, n) = self.place(fr, next, None)?;
                let (v, n) = self.eval(fr, n, None)?;
                self.store(fr, &p, v)?;
                (V::Void, n)
            }
            Instr::New(c) => (self.instantiate(c)?, next),
            Instr::Construct(k, c) => {
                let V::Struct(name, mut fs) = self.fresh_struct(c)? else { return bad("construct") };
                if k != 0 && usize::from(k) != fs.len() {
                    return bad("constructor with the wrong number of fields");
                }
                let cl = self.pool.class(c).map_err(|e| Stop::Bad(e.to_string()))?.fields.clone();
                let mut n = next;
                for i in 0..usize::from(k) {
                    let (v, m) = self.eval(fr, n, None)?;
                    n = m;
                    let t = self.pool.field(cl[i]).map_err(|e| Stop::Bad(e.to_string()))?.type_;
                    if !self.fits(&v, t) {
                        return bad(format!("{v:?} given for field {} of {name}", fs[i].0));
                    }
                    fs[i].1 = v;
                }
                (V::Struct(name, fs), n)
            }
            Instr::Conditional(fl, exit) => {
                let fl = self.target(fr, pos, fl)?;
                let exit = self.target(fr, pos, exit)?;
                let (c, n) = self.eval(fr, next, None)?;
                match c {
                    V::Bool(true) => {
                        let (v, n) = self.eval(fr, n, None)?;
                        if n != fl {
                            return bad("the first alternative does not end where the second starts");
                        }
                        (v, exit)
                    }
                    V::Bool(false) => {
                        let (v, n) = self.eval(fr, fl, None)?;
                        if n != exit {
                            return bad("the second alternative does not end at the exit");
                        }
                        (v, exit)
                    }
                    v => return bad(format!("condition is {v:?}")),
                }
            }
            Instr::InvokeStatic(exit, _, f, _) => {
                let exit = self.target(fr, pos, exit)?;
                let fun = self.pool.function(f).map_err(|e| Stop::Bad(format!("call of {f}: {e}")))?;
                let this = if fun.flags.is_static() { None } else { ctx.or(fr.this) };
                if let Some(o) = this {
                    let parent = self.pool.definition(f).map_err(|e| Stop::Bad(e.to_string()))?.parent;
                    if !self.is_sub(self.heap[o].class, parent.cast()) {
                        return bad(format!("{} called on an object of {}", self.name(f)?, self.name(self.heap[o].class)?));
                    }
                }
                (self.invoke(fr, f, this, next, exit)?, exit)
            }
            Instr::InvokeVirtual(exit, _, name, _) => {
                let exit = self.target(fr, pos, exit)?;
                let Some(o) = ctx.or(fr.this) else { return bad("virtual call without object") };
                let n = get(self.pool.names.get(name))?;
                match self.find_method(self.heap[o].class, &n) {
                    Some(f) => (self.invoke(fr, f, Some(o), next, exit)?, exit),
                    None => return bad(format!("objects of {} have no method {n}", self.name(self.heap[o].class)?)),
                }
            }
            Instr::Equals(t) | Instr::NotEquals(t) => {
                let (a, n) = self.eval(fr, next, None)?;
                if !self.fits(&a, t) {
                    return bad(format!("comparison as {} of {a:?}", self.name(t)?));
                }
                let (b, n) = self.eval(fr, n, None)?;
                let r = same(&a, &b);
                (V::Bool(if matches!(ins, Instr::Equals(_)) { r } else { !r }), n)
            }
            Instr::ArraySize(t) => {
                let (a, n) = self.eval(fr, next, None)?;
                if !self.fits(&a, t) {
                    return bad("size of a different array");
                }
                match a {
                    V::Arr(a) => (V::I32(a.len() as i32), n),
                    v => return bad(format!("size of {v:?}")),
                }
            }
            Instr::ArrayContains(t) | Instr::ArrayCount(t) | Instr::ArrayFindFirst(t) | Instr::ArrayFindLast(t) => {
                let (a, n) = self.eval(fr, next, None)?;
                if !self.fits(&a, t) {
                    return bad("search in a different array");
                }
                let (x, n) = self.eval(fr, n, None)?;
                let V::Arr(a) = a else { return bad("search in no array") };
                let hits: Vec<usize> = (0..a.len()).filter(|i| same(&a[*i], &x)).collect();
                let v = match ins {
                    Instr::ArrayContains(_) => V::Bool(!hits.is_empty()),
                    Instr::ArrayCount(_) => V::I32(hits.len() as i32),
                    Instr::ArrayFindFirst(_) => V::I32(hits.first().map_or(-1, |i| *i as i32)),
                    _ => V::I32(hits.last().map_or(-1, |i| *i as i32)),
                };
                (v, n)
            }
            Instr::ArrayLast(_) => {
                let (a, n) = self.eval(fr, next, None)?;
                match a {
                    V::Arr(a) => match a.last() {
                        Some(v) => (v.clone(), n),
                        None => return Err(Stop::Abort("index out of range")),
                    },
                    v => return bad(format!("last of {v:?}")),
                }
            }
            Instr::ArrayClear(t) | Instr::ArrayPop(t) | Instr::ArrayPush(t) | Instr::ArrayResize(t) | Instr::ArrayGrow(t) | Instr::ArrayInsert(t)
            | Instr::ArrayRemove(t) | Instr::ArrayErase(t) => {
                let (p, mut n) = self.place(fr, next, None)?;
                let cur = self.load(fr, &p)?;
                if !self.fits(&cur, t) {
                    return bad(format!("array operation on {} given {cur:?}", self.name(t)?));
                }
                let inner = match self.pool.type_(t) {
                    Ok(Type::Array(i)) => *i,
                    _ => return bad("array operation on no array type"),
                };
                let count = match ins {
                    Instr::ArrayClear(_) | Instr::ArrayPop(_) => 0,
                    Instr::ArrayInsert(_) => 2,
                    _ => 1,
                };
                let mut ops = vec![];
                for _ in 0..count {
                    let (v, m) = self.eval(fr, n, None)?;
                    ops.push(v);
                    n = m;
                }
                let V::Arr(mut a) = self.load(fr, &p)? else { return bad("array operation on no array") };
                let mut ret = V::Void;
                match ins {
                    Instr::ArrayClear(_) => a.clear(),
                    Instr::ArrayPop(_) => match a.pop() {
                        Some(v) => ret = v,
                        None => return Err(Stop::Abort("index out of range")),
                    },
                    Instr::ArrayPush(_) => a.push(ops.remove(0)),
                    Instr::ArrayResize(_) => {
                        let k = Self::index(&ops[0])?.min(1000);
                        let z = self.zero(inner)?;
                        a.resize(k, z);
                    }
                    Instr::ArrayGrow(_) => {
                        let k = (Self::index(&ops[0])? + a.len()).min(1000);
                        let z = self.zero(inner)?;
                        a.resize(k, z);
                    }
                    Instr::ArrayInsert(_) => {
                        let i = Self::index(&ops[0])?;
                        if i > a.len() {
                            return Err(Stop::Abort("index out of range"));
                        }
                        a.insert(i, ops.remove(1));
                    }
                    Instr::ArrayRemove(_) => match a.iter().position(|x| same(x, &ops[0])) {
                        Some(i) => {
                            a.remove(i);
                            ret = V::Bool(true);
                        }
                        None => ret = V::Bool(false),
                    },
                    _ => {
                        let i = Self::index(&ops[0])?;
                        if i < a.len() {
                            a.remove(i);
                            ret = V::Bool(true);
                        } else {
                            ret = V::Bool(false);
                        }
                    }
                }
                self.store(fr, &p, V::Arr(a))?;
                (ret, n)
            }
            Instr::ToString(t) => {
                let (v, n) = self.eval(fr, next, None)?;
                if !self.fits(&v, t) {
                    return bad(format!("text of {} given {v:?}", self.name(t)?));
                }
                (V::Str(text(&v)), n)
            }
            Instr::VariantToString => {
                let (v, n) = self.eval(fr, next, None)?;
                (V::Str(text(&v)), n)
            }
            Instr::EnumToI32(_, _) => {
                let (v, n) = self.eval(fr, next, None)?;
                match v {
                    V::Enum(_, i) => (V::I32(i as i32), n),
                    v => return bad(format!("number of {v:?}")),
                }
            }
            Instr::I32ToEnum(t, _) => {
                let (v, n) = self.eval(fr, next, None)?;
                match v {
                    V::I32(i) => (V::Enum(self.name(t)?, i64::from(i)), n),
                    v => return bad(format!("enum from {v:?}")),
                }
            }
            Instr::DynamicCast(c, _) => {
                let (v, n) = self.eval(fr, next, None)?;
                match v {
                    V::Null => (V::Null, n),
                    V::Obj(o) => (if self.is_sub(self.heap[o].class, c) { V::Obj(o) } else { V::Null }, n),
                    v => return bad(format!("cast of {v:?}")),
                }
            }
            Instr::ToVariant(t) => {
                let (v, n) = self.eval(fr, next, None)?;
                if !self.fits(&v, t) {
                    return bad(format!("variant of {} given {v:?}", self.name(t)?));
                }
                (V::Var(Box::new(v)), n)
            }
            Instr::FromVariant(t) => {
                let (v, n) = self.eval(fr, next, None)?;
                match v {
                    V::Var(v) => (if self.fits(&v, t) { *v } else { self.zero(t)? }, n),
                    v => return bad(format!("value of variant {v:?}")),
                }
            }
            Instr::VariantIsDefined => {
                let (v, n) = self.eval(fr, next, None)?;
                match v {
                    V::Var(v) => (V::Bool(*v != V::Void), n),
                    v => return bad(format!("variant test of {v:?}")),
                }
            }
            Instr::VariantIsRef | Instr::VariantIsArray => {
                let (v, n) = self.eval(fr, next, None)?;
                match v {
                    V::Var(v) if ins == Instr::VariantIsRef => (V::Bool(matches!(*v, V::Obj(_) | V::Null)), n),
                    V::Var(v) => (V::Bool(matches!(*v, V::Arr(_))), n),
                    v => return bad(format!("variant test of {v:?}")),
                }
            }
            Instr::RefToBool => {
                let (v, n) = self.eval(fr, next, None)?;
                match v {
                    V::Obj(_) => (V::Bool(true), n),
                    V::Null => (V::Bool(false), n),
                    v => return bad(format!("reference test of {v:?}")),
                }
            }
            Instr::WeakRefToBool => {
                let (v, n) = self.eval(fr, next, None)?;
                match v {
                    V::WObj(_) => (V::Bool(true), n),
                    V::WNull => (V::Bool(false), n),
                    v => return bad(format!("weak reference test of {v:?}")),
                }
            }
            Instr::RefToWeakRef => {
                let (v, n) = self.eval(fr, next, None)?;
                match v {
                    V::Obj(o) => (V::WObj(o), n),
                    V::Null => (V::WNull, n),
                    v => return bad(format!("weak reference to {v:?}")),
                }
            }
            Instr::WeakRefToRef => {
                let (v, n) = self.eval(fr, next, None)?;
                match v {
                    V::WObj(o) => (V::Obj(o), n),
                    V::WNull => (V::Null, n),
                    v => return bad(format!("reference from weak {v:?}")),
                }
            }
            Instr::AsRef(t) => {
                let (v, n) = self.eval(fr, next, None)?;
                if !self.fits(&v, t) {
                    return bad(format!("script reference to {} given {v:?}", self.name(t)?));
                }
                (V::SRef(Box::new(v)), n)
            }
            Instr::Deref(_) => {
                let (v, n) = self.eval(fr, next, None)?;
                match v {
                    V::SRef(v) => (*v, n),
                    v => return bad(format!("dereference of {v:?}")),
                }
            }
            i => return bad(format!("{i:?} where a value is expected")),
        })
    }

    fn invoke(&mut self, fr: &mut Frame, f: PoolIndex<Function>, this: Option<usize>, start: u16, exit: u16) -> E<V> {
        let fun = self.pool.function(f).map_err(|e| Stop::Bad(e.to_string()))?;
        let short = self.name(f)?.split(';').next().unwrap().to_owned();
        let params = fun.parameters.clone();
        let mut pos = start;
        let mut args = vec![];
        let mut places = vec![];
        for (i, p) in params.iter().enumerate() {
            let par = self.pool.parameter(*p).map_err(|e| Stop::Bad(e.to_string()))?;
            let flags = par.flags;
            let (ins, next) = self.fetch(fr, pos)?;
            if ins == Instr::ParamEnd {
                return bad(format!("{short} is given too few arguments"));
            }
            if ins == Instr::Nop {
                args.push(None);
                places.push(None);
                pos = next;
                continue;
            }
            if let Instr::Skip(o) = ins {
                if !flags.is_short_circuit() {
                    return bad(format!("argument {i} of {short} is lazy"));
                }
                let after = self.target(fr, pos, o)?;
                let decided = match (short.as_str(), args.last()) {
                    ("OperatorLogicAnd", Some(Some(V::Bool(false)))) => Some(V::Bool(false)),
                    ("OperatorLogicOr", Some(Some(V::Bool(true)))) => Some(V::Bool(true)),
                    _ => None,
                };
                if decided.is_some() {
                    args.push(Some(V::Bool(false)));
                } else {
                    let (v, n) = self.eval(fr, next, None)?;
                    if n != after {
                        return bad("a lazy argument does not end where its skip says");
                    }
                    args.push(Some(v));
                }
                places.push(None);
                pos = after;
                continue;
            }
            if flags.is_short_circuit() {
                return bad(format!("argument {i} of {short} is not lazy"));
            }
            if flags.is_out() {
                let (p, n) = self.place(fr, pos, None)?;
                args.push(Some(self.load(fr, &p)?));
                places.push(Some(p));
                pos = n;
            } else {
                let (v, n) = self.eval(fr, pos, None)?;
                args.push(Some(v));
                places.push(None);
                pos = n;
            }
        }
        let (ins, next) = self.fetch(fr, pos)?;
        if ins != Instr::ParamEnd || next != exit {
            return bad(format!("the arguments of {short} do not end where the call says"));
        }
        let (v, outs) = self.call(f, this, args)?;
        for (p, o) in places.into_iter().zip(outs) {
            if let Some(p) = p {
                self.store(fr, &p, o)?;
            }
        }
        Ok(v)
    }
}

enum AnyKind {
    Class(PoolIndex<Class>),
    Enum(String),
}

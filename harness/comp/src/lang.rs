//! The trees the generated programs are made of, and how they are written as source text.
//! Conversions the compiler has to insert are explicit nodes here (`Ex::Conv`) that print nothing.
use crate::val::V;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Bool,
    I32,
    I64,
    U32,
    U64,
    F32,
    F64,
    Str,
    Name,
    Tdb,
    Res,
    Variant,
    Enum(usize),
    Struct(usize),
    Ref(usize),
    WRef(usize),
    Arr(Box<Ty>),
    SRef(Box<Ty>),
}

#[derive(Clone, Debug)]
pub struct Enum {
    pub name: String,
    pub members: Vec<(String, i64)>,
}

#[derive(Clone, Debug)]
pub struct FieldDef {
    pub name: String,
    pub ty: Ty,
    pub default: Option<V>,
}

#[derive(Clone, Debug)]
pub struct Struct {
    pub name: String,
    pub fields: Vec<FieldDef>,
}

#[derive(Clone, Debug)]
pub struct Class {
    pub name: String,
    pub base: Option<usize>,
    pub abstract_: bool,
    pub fields: Vec<FieldDef>,
}

#[derive(Clone, Debug)]
pub struct Param {
    pub name: String,
    pub ty: Ty,
    pub out: bool,
    pub opt: bool,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    /// the class and, for overriding methods, the function first declaring the method
    pub owner: Option<usize>,
    pub root: usize,
    pub static_: bool,
    pub final_: bool,
    pub params: Vec<Param>,
    pub ret: Option<Ty>,
    /// none: an abstract method
    pub body: Option<Vec<St>>,
    /// written as `= expr` instead of a block
    pub short: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Conv {
    ToW,
    ToRef,
    ToVariant,
    ToSRef,
}

#[derive(Clone, Debug)]
pub enum Ex {
    /// the value and how it is written (an integer may stand for a float)
    Lit(V, String),
    Null,
    /// Null of a class, by a function that returns it.
    Nil(usize),
    EnumLit(usize, usize),
    Var(String),
    This,
    Field(Box<Ex>, String),
    Sub(Box<Ex>, String),
    Elem(Box<Ex>, Box<Ex>),
    Call(usize, Vec<Ex>),
    /// receiver, function the compiler resolves to, arguments
    Method(Box<Ex>, usize, Vec<Ex>),
    Super(usize, Vec<Ex>),
    StaticCall(usize, Vec<Ex>),
    Wrapped(Vec<Ex>),
    Probe(&'static str, i32, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    And(Box<Ex>, Box<Ex>),
    Or(Box<Ex>, Box<Ex>),
    Un(&'static str, Box<Ex>),
    Cast(Ty, Box<Ex>),
    As(usize, Box<Ex>),
    Cond(Box<Ex>, Box<Ex>, Box<Ex>),
    New(usize),
    Make(usize, Vec<Ex>),
    Array(Vec<Ex>),
    Interp(String, Vec<(Ex, String)>),
    Intr(&'static str, Option<Ty>, Vec<Ex>),
    Conv(Conv, Box<Ex>),
}

#[derive(Clone, Debug)]
pub enum St {
    /// name, type of the variable, whether the type is written, initial value
    Let(String, Ty, bool, Option<Ex>),
    Assign(Ex, Ex),
    OpAssign(&'static str, Ex, Ex),
    Ex(Ex),
    If(Ex, Vec<St>, Option<Vec<St>>),
    While(Ex, Vec<St>),
    For(String, Ty, Ex, Vec<St>),
    Switch(Ex, Vec<(Ex, Vec<St>)>, Option<Vec<St>>),
    Break,
    Return(Option<Ex>),
}

#[derive(Clone, Debug, Default)]
pub struct World {
    pub enums: Vec<Enum>,
    pub structs: Vec<Struct>,
    pub classes: Vec<Class>,
    pub funcs: Vec<Func>,
}

pub fn op_text(op: &str) -> &'static str {
    match op {
        "Add" => "+",
        "Subtract" => "-",
        "Multiply" => "*",
        "Divide" => "/",
        "Modulo" => "%",
        "And" => "&",
        "Or" => "|",
        "Xor" => "^",
        "Less" => "<",
        "LessEqual" => "<=",
        "Greater" => ">",
        "GreaterEqual" => ">=",
        "Equal" => "==",
        "NotEqual" => "!=",
        "AssignAdd" => "+=",
        "AssignSubtract" => "-=",
        "AssignMultiply" => "*=",
        "AssignDivide" => "/=",
        "AssignAnd" => "&=",
        "AssignOr" => "|=",
        "Neg" => "-",
        "BitNot" => "~",
        "LogicNot" => "!",
        _ => unreachable!(),
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            '\u{03bb}' => o += "\\u{3bB}",
            c => o.push(c),
        }
    }
    o + "\""
}

pub fn lit(v: &V) -> String {
    fn dot(s: String) -> String {
        if s.contains('.') {
            s
        } else {
            s + ".0"
        }
    }
    match v {
        V::Bool(b) => b.to_string(),
        V::I32(x) => x.to_string(),
        V::I64(x) => format!("{x}l"),
        V::U32(x) => format!("{x}u"),
        V::U64(x) => format!("{x}ul"),
        V::F32(x) => dot(x.to_string()),
        V::F64(x) => format!("{x}d"),
        V::Str(s) => quote(s),
        V::Name(s) => format!("n{}", quote(s)),
        V::Tdb(s) => format!("t{}", quote(s)),
        V::Res(s) => format!("r{}", quote(s)),
        V::Null | V::WNull => "null".into(),
        v => unreachable!("{v:?}"),
    }
}

impl World {
    pub fn ty(&self, t: &Ty) -> String {
        match t {
            Ty::Bool => "Bool".into(),
            Ty::I32 => "Int32".into(),
            Ty::I64 => "Int64".into(),
            Ty::U32 => "Uint32".into(),
            Ty::U64 => "Uint64".into(),
            Ty::F32 => "Float".into(),
            Ty::F64 => "Double".into(),
            Ty::Str => "String".into(),
            Ty::Name => "CName".into(),
            Ty::Tdb => "TweakDBID".into(),
            Ty::Res => "ResRef".into(),
            Ty::Variant => "Variant".into(),
            Ty::Enum(i) => self.enums[*i].name.clone(),
            Ty::Struct(i) => self.structs[*i].name.clone(),
            Ty::Ref(i) => format!("ref<{}>", self.classes[*i].name),
            Ty::WRef(i) => format!("wref<{}>", self.classes[*i].name),
            Ty::Arr(t) => format!("array<{}>", self.ty(t)),
            Ty::SRef(t) => format!("script_ref<{}>", self.ty(t)),
        }
    }

    fn list(&self, es: &[Ex]) -> String {
        es.iter().map(|e| self.ex(e)).collect::<Vec<_>>().join(", ")
    }

    /// An expression where any operator may follow or precede it.
    fn atom(&self, e: &Ex) -> String {
        match e {
            Ex::Conv(_, e) => self.atom(e),
            Ex::Lit(v, t) if matches!(v, V::Bool(_) | V::Str(_) | V::Name(_) | V::Tdb(_) | V::Res(_)) => t.clone(),
            Ex::Lit(_, t) if t.starts_with('-') => format!("({t})"),
            Ex::Lit(..) | Ex::Null | Ex::Nil(_) | Ex::EnumLit(..) | Ex::Var(_) | Ex::This | Ex::Field(..) | Ex::Sub(..) | Ex::Elem(..) | Ex::Call(..) | Ex::Method(..)
            | Ex::Super(..) | Ex::StaticCall(..) | Ex::Wrapped(_) | Ex::Probe(..) | Ex::Intr(..) | Ex::Interp(..) | Ex::Cast(..) | Ex::Array(_) => self.ex(e),
            _ => format!("({})", self.ex(e)),
        }
    }

    /// What may stand before `.`: numbers may not.
    fn base(&self, e: &Ex) -> String {
        match e {
            Ex::Conv(_, e) => self.base(e),
            Ex::Lit(..) => format!("({})", self.ex(e)),
            e => self.atom(e),
        }
    }

    pub fn ex(&self, e: &Ex) -> String {
        match e {
            Ex::Lit(_, t) => t.clone(),
            Ex::Null => "null".into(),
            Ex::Nil(c) => format!("Nil_{}()", self.classes[*c].name),
            Ex::EnumLit(e, m) => format!("{}.{}", self.enums[*e].name, self.enums[*e].members[*m].0),
            Ex::Var(n) => n.clone(),
            Ex::This => "this".into(),
            Ex::Field(b, n) | Ex::Sub(b, n) => format!("{}.{n}", self.base(b)),
            Ex::Elem(b, i) => format!("{}[{}]", self.base(b), self.ex(i)),
            Ex::Call(f, a) => format!("{}({})", self.funcs[*f].name, self.list(a)),
            Ex::Method(b, f, a) => format!("{}.{}({})", self.base(b), self.funcs[*f].name, self.list(a)),
            Ex::Super(f, a) => format!("super.{}({})", self.funcs[*f].name, self.list(a)),
            Ex::StaticCall(f, a) => format!("{}.{}({})", self.classes[self.funcs[*f].owner.unwrap()].name, self.funcs[*f].name, self.list(a)),
            Ex::Wrapped(a) => format!("wrappedMethod({})", self.list(a)),
            Ex::Probe(n, t, v) => format!("P_{n}({t}, {})", self.ex(v)),
            Ex::Bin(op, l, r) => format!("{} {} {}", self.atom(l), op_text(op), self.atom(r)),
            Ex::And(l, r) => format!("{} && {}", self.atom(l), self.atom(r)),
            Ex::Or(l, r) => format!("{} || {}", self.atom(l), self.atom(r)),
            Ex::Un(op, e) => format!("{}{}", op_text(op), self.atom(e)),
            Ex::Cast(t, e) => format!("Cast<{}>({})", self.ty(t), self.ex(e)),
            Ex::As(c, e) => format!("{} as {}", self.base(e), self.classes[*c].name),
            Ex::Cond(c, a, b) => format!("{} ? {} : {}", self.atom(c), self.atom(a), self.atom(b)),
            Ex::New(c) => format!("new {}()", self.classes[*c].name),
            Ex::Make(s, a) => format!("new {}({})", self.structs[*s].name, self.list(a)),
            Ex::Array(a) => format!("[{}]", self.list(a)),
            Ex::Interp(p, parts) => {
                let inner = |s: &str| {
                    let q = quote(s);
                    q[1..q.len() - 1].to_owned()
                };
                let mut o = format!("s\"{}", inner(p));
                for (e, s) in parts {
                    o += &format!("\\({}){}", self.ex(e), inner(s));
                }
                o + "\""
            }
            Ex::Intr(n @ ("IntEnum" | "FromVariant"), Some(t), a) => format!("{n}<{}>({})", self.ty(t), self.list(a)),
            Ex::Intr(n, _, a) => format!("{n}({})", self.list(a)),
            Ex::Conv(_, e) => self.ex(e),
        }
    }

    pub fn block(&self, b: &[St], ind: usize, o: &mut String) {
        for s in b {
            self.st(s, ind, o);
        }
    }

    fn st(&self, s: &St, ind: usize, o: &mut String) {
        let pad = "  ".repeat(ind);
        let mut line = |t: String| *o += &format!("{pad}{t}\n");
        match s {
            St::Let(n, t, written, init) => {
                let t = if *written { format!(": {}", self.ty(t)) } else { String::new() };
                let i = init.as_ref().map_or(String::new(), |e| format!(" = {}", self.ex(e)));
                line(format!("let {n}{t}{i};"));
            }
            St::Assign(p, e) => line(format!("{} = {};", self.ex(p), self.ex(e))),
            St::OpAssign(op, p, e) => line(format!("{} {} {};", self.ex(p), op_text(op), self.ex(e))),
            St::Ex(e) => line(format!("{};", self.ex(e))),
            St::If(c, a, b) => {
                line(format!("if {} {{", self.ex(c)));
                self.block(a, ind + 1, o);
                match b {
                    Some(b) if b.len() == 1 && matches!(b[0], St::If(..)) => {
                        *o += &format!("{pad}}} else ");
                        let mut t = String::new();
                        self.st(&b[0], ind, &mut t);
                        *o += t.trim_start();
                    }
                    Some(b) => {
                        *o += &format!("{pad}}} else {{\n");
                        self.block(b, ind + 1, o);
                        *o += &format!("{pad}}}\n");
                    }
                    None => *o += &format!("{pad}}}\n"),
                }
            }
            St::While(c, b) => {
                line(format!("while {} {{", self.ex(c)));
                self.block(b, ind + 1, o);
                *o += &format!("{pad}}}\n");
            }
            St::For(n, _, e, b) => {
                line(format!("for {n} in {} {{", self.ex(e)));
                self.block(b, ind + 1, o);
                *o += &format!("{pad}}}\n");
            }
            St::Switch(e, cases, def) => {
                line(format!("switch {} {{", self.ex(e)));
                for (m, b) in cases {
                    *o += &format!("{pad}  case {}:\n", self.ex(m));
                    self.block(b, ind + 2, o);
                }
                if let Some(b) = def {
                    *o += &format!("{pad}  default:\n");
                    self.block(b, ind + 2, o);
                }
                *o += &format!("{pad}}}\n");
            }
            St::Break => line("break;".into()),
            St::Return(None) => line("return;".into()),
            St::Return(Some(e)) => line(format!("return {};", self.ex(e))),
        }
    }

    pub fn func(&self, f: &Func, ind: usize, prefix: &str) -> String {
        let pad = "  ".repeat(ind);
        let params = f
            .params
            .iter()
            .map(|p| format!("{}{}{}: {}", if p.opt { "opt " } else { "" }, if p.out { "out " } else { "" }, p.name, self.ty(&p.ty)))
            .collect::<Vec<_>>()
            .join(", ");
        let ret = f.ret.as_ref().map_or(String::new(), |t| format!(" -> {}", self.ty(t)));
        let quals = format!(
            "{}{}{}",
            if f.body.is_none() { "abstract " } else { "" },
            if f.static_ && f.owner.is_some() { "static " } else { "" },
            if f.final_ { "final " } else { "" }
        );
        let mut o = format!("{pad}{prefix}public {quals}func {}({params}){ret}", f.name);
        match &f.body {
            None => o += ";\n",
            Some(b) if f.short => {
                let [St::Return(Some(e))] = b.as_slice() else { unreachable!() };
                o += &format!(" = {};\n", self.ex(e));
            }
            Some(b) => {
                o += " {\n";
                self.block(b, ind + 1, &mut o);
                o += &format!("{pad}}}\n");
            }
        }
        o
    }

    pub fn field(&self, f: &FieldDef) -> String {
        let d = match &f.default {
            Some(V::Enum(n, m)) => {
                let e = self.enums.iter().find(|e| e.name == *n).unwrap();
                format!(" = {}.{}", n, e.members.iter().find(|x| x.1 == *m).unwrap().0)
            }
            Some(v) => format!(" = {}", lit(v)),
            None => String::new(),
        };
        format!("public let {}: {}{d};", f.name, self.ty(&f.ty))
    }

    /// Every top-level declaration on its own.
    pub fn decls(&self) -> Vec<String> {
        let mut v = vec![];
        for e in &self.enums {
            v.push(format!("enum {} {{ {} }}\n", e.name, e.members.iter().map(|(n, x)| format!("{n} = {x}")).collect::<Vec<_>>().join(", ")));
        }
        for s in &self.structs {
            v.push(format!("public struct {} {{ {} }}\n", s.name, s.fields.iter().map(|f| self.field(f)).collect::<Vec<_>>().join(" ")));
        }
        for (i, c) in self.classes.iter().enumerate() {
            let ext = c.base.map_or(String::new(), |b| format!(" extends {}", self.classes[b].name));
            let mut o = format!("public {}class {}{ext} {{\n", if c.abstract_ { "abstract " } else { "" }, c.name);
            for f in &c.fields {
                o += &format!("  {}\n", self.field(f));
            }
            for f in self.funcs.iter().filter(|f| f.owner == Some(i)) {
                o += &self.func(f, 1, "");
            }
            v.push(o + "}\n");
            v.push(format!("public func Nil_{0}() -> ref<{0}> {{ return null; }}\n", c.name));
        }
        for f in self.funcs.iter().filter(|f| f.owner.is_none()) {
            v.push(self.func(f, 0, ""));
        }
        v
    }
}

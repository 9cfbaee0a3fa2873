//! Plain trees for code: what the generator means, what the decompiler reconstructs and what the
//! printed text says are all turned into these and compared.

use redscript::ast::{Constant, Expr, Literal, Seq, SourceAst, SwitchCase};

#[derive(Clone, PartialEq)]
pub enum K {
    Str(char, String),
    F32(u32),
    F64(u64),
    I32(i32),
    I64(i64),
    U32(u32),
    U64(u64),
    Bool(bool),
}

impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            K::Str(k, s) => write!(f, "{k}{s:?}"),
            K::F32(b) => write!(f, "f32:{:?}", f32::from_bits(*b)),
            K::F64(b) => write!(f, "f64:{:?}", f64::from_bits(*b)),
            K::I32(v) => write!(f, "i32:{v}"),
            K::I64(v) => write!(f, "i64:{v}"),
            K::U32(v) => write!(f, "u32:{v}"),
            K::U64(v) => write!(f, "u64:{v}"),
            K::Bool(v) => write!(f, "{v}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(String),
    Const(K),
    Null,
    This,
    Super,
    Cast(String, Box<T>),
    Assign(Box<T>, Box<T>),
    Call(String, Vec<String>, Vec<T>),
    MCall(Box<T>, String, Vec<T>),
    Member(Box<T>, String),
    Elem(Box<T>, Box<T>),
    New(String, Vec<T>),
    Cond(Box<T>, Box<T>, Box<T>),
    Bin(&'static str, Box<T>, Box<T>),
    Un(&'static str, Box<T>),
    Chain(&'static str, Vec<T>),
    Declare(String, Option<String>, Option<Box<T>>),
    Return(Option<Box<T>>),
    Break,
    If(Box<T>, Vec<T>, Option<Vec<T>>),
    While(Box<T>, Vec<T>),
    Switch(Box<T>, Vec<(T, Vec<T>)>, Option<Vec<T>>),
    Goto(u16),
    Other(String),
}

pub fn b(t: T) -> Box<T> {
    Box::new(t)
}

fn k(c: &Constant) -> K {
    match c {
        Constant::String(Literal::String, s) => K::Str('s', s.to_string()),
        Constant::String(Literal::Name, s) => K::Str('n', s.to_string()),
        Constant::String(Literal::Resource, s) => K::Str('r', s.to_string()),
        Constant::String(Literal::TweakDbId, s) => K::Str('t', s.to_string()),
        Constant::F32(v) => K::F32(v.to_bits()),
        Constant::F64(v) => K::F64(v.to_bits()),
        Constant::I32(v) => K::I32(*v),
        Constant::I64(v) => K::I64(*v),
        Constant::U32(v) => K::U32(*v),
        Constant::U64(v) => K::U64(*v),
        Constant::Bool(v) => K::Bool(*v),
    }
}

pub fn seq(s: &Seq<SourceAst>) -> Vec<T> {
    let mut out = vec![];
    for e in &s.exprs {
        flatten(e, &mut out);
    }
    out
}

fn flatten(e: &Expr<SourceAst>, out: &mut Vec<T>) {
    if let Expr::Seq(s) = e {
        for e in &s.exprs {
            flatten(e, out);
        }
    } else {
        out.push(expr(e));
    }
}

fn many(es: &[Expr<SourceAst>]) -> Vec<T> {
    es.iter().map(expr).collect()
}

pub fn expr(e: &Expr<SourceAst>) -> T {
    match e {
        Expr::Ident(n, _) => T::Id(n.to_string()),
        Expr::Constant(c, _) => T::Const(k(c)),
        Expr::Declare(n, ty, v, _) => T::Declare(
            n.to_string(),
            ty.as_ref().map(|t| t.pretty().to_string()),
            v.as_ref().map(|v| b(expr(v))),
        ),
        Expr::Cast(t, e, _) => T::Cast(t.pretty().to_string(), b(expr(e))),
        Expr::Assign(l, r, _) => T::Assign(b(expr(l)), b(expr(r))),
        Expr::Call(n, tys, args, _) => T::Call(
            n.to_string(),
            tys.iter().map(|t| t.pretty().to_string()).collect(),
            many(args),
        ),
        Expr::MethodCall(o, n, args, _) => T::MCall(b(expr(o)), n.to_string(), many(args)),
        Expr::Member(o, n, _) => T::Member(b(expr(o)), n.to_string()),
        Expr::ArrayElem(a, i, _) => T::Elem(b(expr(a)), b(expr(i))),
        Expr::New(t, args, _) => T::New(t.pretty().to_string(), many(args)),
        Expr::Return(v, _) => T::Return(v.as_ref().map(|v| b(expr(v)))),
        Expr::Switch(s, cases, default, _) => T::Switch(
            b(expr(s)),
            cases
                .iter()
                .map(|SwitchCase { matcher, body }| (expr(matcher), seq(body)))
                .collect(),
            default.as_ref().map(seq),
        ),
        Expr::Goto(t, _) => T::Goto(t.position.value),
        Expr::If(c, t, f, _) => T::If(b(expr(c)), seq(t), f.as_ref().map(seq)),
        Expr::Conditional(c, t, f, _) => T::Cond(b(expr(c)), b(expr(t)), b(expr(f))),
        Expr::While(c, s, _) => T::While(b(expr(c)), seq(s)),
        Expr::BinOp(l, r, op, _) => T::Call(op.to_string(), vec![], vec![expr(l), expr(r)]),
        Expr::UnOp(e, op, _) => T::Call(op.to_string(), vec![], vec![expr(e)]),
        Expr::This(_) => T::This,
        Expr::Super(_) => T::Super,
        Expr::Break(_) => T::Break,
        Expr::Null(_) => T::Null,
        other => T::Other(format!("{other:?}")),
    }
}

pub fn has_goto(ts: &[T]) -> bool {
    ts.iter().any(|t| match t {
        T::Goto(_) => true,
        T::If(_, a, o) => has_goto(a) || o.as_ref().map_or(false, |o| has_goto(o)),
        T::While(_, a) => has_goto(a),
        T::Switch(_, cs, d) => cs.iter().any(|(_, x)| has_goto(x)) || d.as_ref().map_or(false, |d| has_goto(d)),
        _ => false,
    })
}

/// Where the jumps of the program lead.
pub fn gotos(ts: &[T]) -> Vec<u16> {
    let mut out = vec![];
    for t in ts {
        match t {
            T::Goto(p) => out.push(*p),
            T::If(_, a, o) => {
                out.extend(gotos(a));
                out.extend(o.iter().flat_map(|o| gotos(o)));
            }
            T::While(_, a) => out.extend(gotos(a)),
            T::Switch(_, cs, d) => {
                out.extend(cs.iter().flat_map(|(_, x)| gotos(x)));
                out.extend(d.iter().flat_map(|d| gotos(d)));
            }
            _ => {}
        }
    }
    out
}

/// Declarations removed from the statements: initialised ones become assignments.
pub fn without_lets(ts: &[T], decls: &mut Vec<(String, Option<String>)>) -> Vec<T> {
    let mut out = vec![];
    for t in ts {
        match t {
            T::Declare(n, ty, v) => {
                decls.push((n.clone(), ty.clone()));
                if let Some(v) = v {
                    out.push(T::Assign(b(T::Id(n.clone())), v.clone()));
                }
            }
            T::If(c, x, y) => out.push(T::If(
                c.clone(),
                without_lets(x, decls),
                y.as_ref().map(|y| without_lets(y, decls)),
            )),
            T::While(c, x) => out.push(T::While(c.clone(), without_lets(x, decls))),
            T::Switch(c, cs, d) => out.push(T::Switch(
                c.clone(),
                cs.iter().map(|(m, x)| (m.clone(), without_lets(x, decls))).collect(),
                d.as_ref().map(|d| without_lets(d, decls)),
            )),
            other => out.push(other.clone()),
        }
    }
    out
}

// ---- execution -------------------------------------------------------------------------------

enum Flow {
    Next,
    Break,
    Return,
    Stop,
    /// a jump back to the head of the loop
    Again,
}

pub struct Run {
    pub seed: u64,
    pub events: Vec<String>,
    pub limit: usize,
}

impl Run {
    fn event(&mut self, s: String) -> bool {
        self.events.push(s);
        self.events.len() < self.limit
    }

    fn choice(&self, n: u64) -> bool {
        pbt::mix(self.seed ^ pbt::mix(self.events.len() as u64)) % n == 0
    }

    fn block(&mut self, ts: &[T]) -> Flow {
        for t in ts {
            match self.stmt(t) {
                Flow::Next => {}
                other => return other,
            }
        }
        Flow::Next
    }

    fn stmt(&mut self, t: &T) -> Flow {
        match t {
            T::If(c, x, y) => {
                if !self.event(format!("if {c:?}")) {
                    return Flow::Stop;
                }
                if self.choice(2) {
                    self.block(x)
                } else if let Some(y) = y {
                    self.block(y)
                } else {
                    Flow::Next
                }
            }
            T::While(c, x) => loop {
                // the machine has one conditional jump for both, so the two look the same in a trace
                if !self.event(format!("if {c:?}")) {
                    return Flow::Stop;
                }
                if !self.choice(2) {
                    return Flow::Next;
                }
                match self.block(x) {
                    Flow::Next | Flow::Again => {}
                    Flow::Break => return Flow::Next,
                    other => return other,
                }
            },
            T::Switch(c, cs, d) => {
                if !self.event(format!("switch {c:?}")) {
                    return Flow::Stop;
                }
                let mut hit = None;
                for (i, (m, _)) in cs.iter().enumerate() {
                    if !self.event(format!("case {m:?}")) {
                        return Flow::Stop;
                    }
                    if self.choice(3) {
                        hit = Some(i);
                        break;
                    }
                }
                let from = hit.unwrap_or(cs.len());
                for (_, x) in &cs[from..] {
                    match self.block(x) {
                        Flow::Next => {}
                        Flow::Break => return Flow::Next,
                        other => return other,
                    }
                }
                if let Some(d) = d {
                    match self.block(d) {
                        Flow::Next | Flow::Break => {}
                        other => return other,
                    }
                }
                Flow::Next
            }
            T::Break => Flow::Break,
            T::Goto(_) => Flow::Again,
            T::Return(_) => {
                self.event(format!("{t:?}"));
                Flow::Return
            }
            other => {
                if self.event(format!("{other:?}")) {
                    Flow::Next
                } else {
                    Flow::Stop
                }
            }
        }
    }
}

pub fn trace(ts: &[T], seed: u64, limit: usize) -> Vec<String> {
    let mut r = Run {
        seed,
        events: vec![],
        limit,
    };
    match r.block(ts) {
        Flow::Break => r.events.push("break outside".into()),
        Flow::Next => r.events.push("end".into()),
        Flow::Again => r.events.push("jump outside".into()),
        Flow::Return | Flow::Stop => {}
    }
    r.events
}

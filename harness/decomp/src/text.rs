//! A reader for printed code: tokens, expressions by precedence, statements and declarations,
//! following the language's grammar. Written separately from the parser in the repository.

use crate::env::{BINOPS, UNOPS};
use crate::tree::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Num(String),
    Str(char, String),
    P(&'static str),
    End,
}

const PUNCT: [&str; 35] = [
    "+=", "-=", "*=", "/=", "|=", "&=", "||", "&&", "==", "!=", "<=", ">=", "->", "+", "-", "*", "/", "%", "|", "^", "&",
    "<", ">", "!", "~", "=", "(", ")", "[", "]", "{", "}", ",", ";", ":",
];
const PUNCT2: [&str; 3] = [".", "?", "@"];

pub fn lex(src: &str) -> Result<Vec<Tok>, String> {
    let cs: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    'outer: while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        let quoted = if c == '"' {
            Some('s')
        } else if matches!(c, 'n' | 'r' | 't') && cs.get(i + 1) == Some(&'"') {
            i += 1;
            Some(c)
        } else {
            None
        };
        if let Some(kind) = quoted {
            i += 1;
            let mut s = String::new();
            loop {
                let Some(&c) = cs.get(i) else { return Err("string without end".into()) };
                i += 1;
                match c {
                    '"' => break,
                    '\\' => {
                        let Some(&e) = cs.get(i) else { return Err("string without end".into()) };
                        i += 1;
                        match e {
                            'n' => s.push('\n'),
                            'r' => s.push('\r'),
                            't' => s.push('\t'),
                            '\'' => s.push('\''),
                            '"' => s.push('"'),
                            '\\' => s.push('\\'),
                            'u' => {
                                let mut hex = String::new();
                                if cs.get(i) != Some(&'{') {
                                    return Err("bad escape".into());
                                }
                                i += 1;
                                while let Some(&h) = cs.get(i) {
                                    i += 1;
                                    if h == '}' {
                                        break;
                                    }
                                    hex.push(h);
                                }
                                if hex.is_empty() || hex.len() > 6 {
                                    return Err("bad escape".into());
                                }
                                let v = u32::from_str_radix(&hex, 16).map_err(|e| e.to_string())?;
                                s.push(char::from_u32(v).ok_or("bad character")?);
                            }
                            other => return Err(format!("unknown escape {other:?}")),
                        }
                    }
                    c => s.push(c),
                }
            }
            out.push(Tok::Str(kind, s));
            continue;
        }
        if c.is_ascii_alphabetic() || c == '_' {
            let mut s = String::new();
            while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_') {
                s.push(cs[i]);
                i += 1;
            }
            out.push(Tok::Id(s));
            continue;
        }
        if c.is_ascii_digit() {
            let mut s = String::new();
            while i < cs.len() && (cs[i].is_ascii_digit() || cs[i] == '.') {
                s.push(cs[i]);
                i += 1;
            }
            for suffix in ['u', 'l', 'd'] {
                if cs.get(i) == Some(&suffix) {
                    s.push(suffix);
                    i += 1;
                }
            }
            out.push(Tok::Num(s));
            continue;
        }
        for p in PUNCT.iter().chain(&PUNCT2) {
            let n = p.chars().count();
            if cs[i..].iter().take(n).copied().eq(p.chars()) {
                out.push(Tok::P(p));
                i += n;
                continue 'outer;
            }
        }
        return Err(format!("unexpected character {c:?}"));
    }
    out.push(Tok::End);
    Ok(out)
}

pub struct Parser {
    pub toks: Vec<Tok>,
    pub i: usize,
}

type P<A> = Result<A, String>;

const LEVELS: [&[&str]; 9] = [
    &["||"],
    &["&&"],
    &["|"],
    &["^"],
    &["&"],
    &["==", "!="],
    &["<", "<=", ">", ">="],
    &["+", "-"],
    &["*", "/", "%"],
];

fn op_name(sym: &str) -> &'static str {
    BINOPS.iter().find(|(_, s)| *s == sym).map_or("?", |(n, _)| n)
}

impl Parser {
    pub fn new(src: &str) -> P<Parser> {
        Ok(Parser { toks: lex(src)?, i: 0 })
    }

    pub fn peek(&self) -> &Tok {
        &self.toks[self.i.min(self.toks.len() - 1)]
    }

    fn ahead(&self, n: usize) -> &Tok {
        &self.toks[(self.i + n).min(self.toks.len() - 1)]
    }

    pub fn next(&mut self) -> Tok {
        let t = self.peek().clone();
        self.i += 1;
        t
    }

    pub fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Tok::P(q) if *q == p)
    }

    pub fn is_word(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::Id(q) if q == w)
    }

    pub fn eat(&mut self, p: &str) -> bool {
        if self.is(p) {
            self.i += 1;
            true
        } else {
            false
        }
    }

    pub fn eat_word(&mut self, w: &str) -> bool {
        if self.is_word(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }

    fn around(&self) -> String {
        let lo = self.i.saturating_sub(6);
        let hi = (self.i + 4).min(self.toks.len());
        format!("{:?} <here> {:?}", &self.toks[lo..self.i.min(hi)], &self.toks[self.i.min(hi)..hi])
    }

    pub fn want(&mut self, p: &str) -> P<()> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(format!("expected {p:?} at {}", self.around()))
        }
    }

    pub fn ident(&mut self) -> P<String> {
        match self.next() {
            Tok::Id(s) => Ok(s),
            _ => {
                self.i -= 1;
                Err(format!("expected a name at {}", self.around()))
            }
        }
    }

    /// A type as text: name<args>, or name<arg; size>
    pub fn ty(&mut self) -> P<String> {
        let n = self.ident()?;
        if !self.eat("<") {
            return Ok(n);
        }
        let mut args = vec![self.ty()?];
        while self.eat(",") {
            args.push(self.ty()?);
        }
        let mut size = String::new();
        if self.eat(";") {
            match self.next() {
                Tok::Num(k) => size = format!("; {k}"),
                other => return Err(format!("array size: {other:?}")),
            }
        }
        self.want(">")?;
        Ok(format!("{n}<{}{size}>", args.join(", ")))
    }

    pub fn expr(&mut self) -> P<T> {
        let x = self.level(0)?;
        if self.eat("?") {
            let y = self.expr()?;
            self.want(":")?;
            let z = self.expr()?;
            return Ok(T::Cond(b(x), b(y), b(z)));
        }
        if self.eat("=") {
            let y = self.expr()?;
            return Ok(T::Assign(b(x), b(y)));
        }
        for sym in ["+=", "-=", "*=", "/=", "|=", "&="] {
            if self.eat(sym) {
                let y = self.expr()?;
                return Ok(T::Bin(op_name(sym), b(x), b(y)));
            }
        }
        Ok(x)
    }

    fn level(&mut self, k: usize) -> P<T> {
        if k == LEVELS.len() {
            return self.unary();
        }
        let mut x = self.level(k + 1)?;
        'outer: loop {
            for sym in LEVELS[k] {
                if self.eat(sym) {
                    let y = self.level(k + 1)?;
                    x = T::Bin(op_name(sym), b(x), b(y));
                    continue 'outer;
                }
            }
            return Ok(x);
        }
    }

    fn unary(&mut self) -> P<T> {
        if self.is("-") {
            // the smallest integers have no positive counterpart
            if let Tok::Num(n) = self.ahead(1).clone() {
                if number(&n).is_err() {
                    let k = number(&format!("-{n}"))?;
                    self.i += 2;
                    return self.postfix(T::Const(k));
                }
            }
        }
        for (name, sym) in UNOPS {
            if self.eat(sym) {
                let x = self.unary()?;
                return Ok(T::Un(name, b(x)));
            }
        }
        let x = self.primary()?;
        self.postfix(x)
    }

    fn args(&mut self) -> P<Vec<T>> {
        self.want("(")?;
        let mut v = vec![];
        if self.eat(")") {
            return Ok(v);
        }
        loop {
            v.push(self.expr()?);
            if self.eat(")") {
                return Ok(v);
            }
            self.want(",")?;
        }
    }

    fn postfix(&mut self, mut x: T) -> P<T> {
        loop {
            if self.eat("[") {
                let i = self.expr()?;
                self.want("]")?;
                x = T::Elem(b(x), b(i));
            } else if self.eat(".") {
                let n = self.ident()?;
                if self.is("(") {
                    let a = self.args()?;
                    x = T::MCall(b(x), n, a);
                } else {
                    x = T::Member(b(x), n);
                }
            } else if self.eat_word("as") {
                let t = self.ty()?;
                x = T::Cast(t, b(x));
            } else {
                return Ok(x);
            }
        }
    }

    fn primary(&mut self) -> P<T> {
        if self.eat("(") {
            let x = self.expr()?;
            self.want(")")?;
            return Ok(x);
        }
        match self.next() {
            Tok::Num(n) => Ok(T::Const(number(&n)?)),
            Tok::Str(kind, s) => Ok(T::Const(K::Str(kind, s))),
            Tok::Id(w) => match w.as_str() {
                "true" => Ok(T::Const(K::Bool(true))),
                "false" => Ok(T::Const(K::Bool(false))),
                "null" => Ok(T::Null),
                "this" => Ok(T::This),
                "super" => Ok(T::Super),
                "new" => {
                    let n = self.ident()?;
                    let a = self.args()?;
                    Ok(T::New(n, a))
                }
                "if" | "while" | "switch" | "case" | "default" | "return" | "break" | "let" | "goto" => {
                    self.i -= 1;
                    Err(format!("unexpected keyword at {}", self.around()))
                }
                _ => {
                    let typed = matches!(w.as_str(), "Cast" | "IntEnum" | "FromVariant");
                    let mut tys = vec![];
                    if typed && self.eat("<") {
                        loop {
                            tys.push(self.ty()?);
                            if self.eat(">") {
                                break;
                            }
                            self.want(",")?;
                        }
                    }
                    if self.is("(") {
                        let a = self.args()?;
                        Ok(T::Call(w, tys, a))
                    } else {
                        Ok(T::Id(w))
                    }
                }
            },
            _ => {
                self.i -= 1;
                Err(format!("expected an expression at {}", self.around()))
            }
        }
    }

    pub fn body(&mut self) -> P<Vec<T>> {
        self.want("{")?;
        let v = self.stmts()?;
        self.want("}")?;
        Ok(v)
    }

    fn stmts(&mut self) -> P<Vec<T>> {
        let mut v = vec![];
        loop {
            if self.is("}") || self.is_word("case") || self.is_word("default") {
                return Ok(v);
            }
            v.push(self.stmt()?);
        }
    }

    fn stmt(&mut self) -> P<T> {
        if self.eat_word("if") {
            let t = self.if_rest()?;
            self.eat(";");
            return Ok(t);
        }
        if self.eat_word("while") {
            let c = self.expr()?;
            let x = self.body()?;
            self.eat(";");
            return Ok(T::While(b(c), x));
        }
        if self.eat_word("switch") {
            let c = self.expr()?;
            self.want("{")?;
            let mut cases = vec![];
            let mut default = None;
            while self.eat_word("case") {
                let m = self.expr()?;
                self.want(":")?;
                cases.push((m, self.stmts()?));
            }
            if self.eat_word("default") {
                self.want(":")?;
                default = Some(self.stmts()?);
            }
            self.want("}")?;
            self.eat(";");
            return Ok(T::Switch(b(c), cases, default));
        }
        if self.eat_word("return") {
            if self.eat(";") {
                return Ok(T::Return(None));
            }
            let v = self.expr()?;
            self.want(";")?;
            return Ok(T::Return(Some(b(v))));
        }
        if self.eat_word("break") {
            self.want(";")?;
            return Ok(T::Break);
        }
        if self.eat_word("let") {
            let n = self.ident()?;
            let ty = if self.eat(":") { Some(self.ty()?) } else { None };
            let v = if self.eat("=") { Some(b(self.expr()?)) } else { None };
            self.want(";")?;
            return Ok(T::Declare(n, ty, v));
        }
        let x = self.expr()?;
        self.want(";")?;
        Ok(x)
    }

    fn if_rest(&mut self) -> P<T> {
        let c = self.expr()?;
        let x = self.body()?;
        let y = if self.eat_word("else") {
            if self.eat_word("if") {
                Some(vec![self.if_rest()?])
            } else {
                Some(self.body()?)
            }
        } else {
            None
        };
        Ok(T::If(b(c), x, y))
    }
}

pub fn number(n: &str) -> P<K> {
    let e = |_: &dyn std::fmt::Display| format!("bad number {n}");
    let (digits, unsigned, postfix) = {
        let d = n.trim_end_matches(|c: char| c.is_ascii_alphabetic());
        let suffix = &n[d.len()..];
        (d, suffix.starts_with('u'), suffix.trim_start_matches('u'))
    };
    Ok(match (postfix, unsigned, digits.contains('.')) {
        ("d", _, _) => K::F64(digits.parse::<f64>().map_err(|x| e(&x))?.to_bits()),
        (_, _, true) => K::F32(digits.parse::<f32>().map_err(|x| e(&x))?.to_bits()),
        ("l", true, _) => K::U64(digits.parse().map_err(|x: std::num::ParseIntError| e(&x))?),
        ("", true, _) => K::U32(digits.parse().map_err(|x: std::num::ParseIntError| e(&x))?),
        ("l", false, _) => K::I64(digits.parse().map_err(|x: std::num::ParseIntError| e(&x))?),
        ("", false, _) => K::I32(digits.parse().map_err(|x: std::num::ParseIntError| e(&x))?),
        _ => return Err(format!("bad number {n}")),
    })
}

// ---- normal form of code as far as text can carry it -----------------------------------------

const ASSOCIATIVE: [&str; 5] = [
    "OperatorLogicOr",
    "OperatorLogicAnd",
    "OperatorOr",
    "OperatorXor",
    "OperatorAnd",
];

fn base(n: &str) -> &str {
    n.split(';').next().unwrap_or("")
}

pub fn norm(t: &T, verbose: bool) -> T {
    let n = |t: &T| norm(t, verbose);
    let nb = |t: &T| b(norm(t, verbose));
    let ns = |ts: &[T]| norms(ts, verbose);
    match t {
        T::Call(name, tys, args) => {
            let name = base(name);
            if let Some((op, _)) = BINOPS.iter().find(|(o, _)| *o == name) {
                if args.len() == 2 {
                    return chain(op, n(&args[0]), n(&args[1]));
                }
            }
            if let Some((op, _)) = UNOPS.iter().find(|(o, _)| *o == name) {
                if args.len() == 1 {
                    return un(op, n(&args[0]));
                }
            }
            if !verbose && matches!(name, "WeakRefToRef" | "RefToWeakRef" | "AsRef") && args.len() == 1 {
                return n(&args[0]);
            }
            T::Call(name.to_owned(), tys.clone(), ns(args))
        }
        T::Bin(op, l, r) => chain(op, n(l), n(r)),
        T::Un(op, x) => un(op, n(x)),
        T::Chain(op, v) => T::Chain(op, ns(v)),
        T::MCall(o, name, args) => T::MCall(nb(o), base(name).to_owned(), ns(args)),
        T::Cast(ty, x) => T::Cast(ty.clone(), nb(x)),
        T::Assign(l, r) => T::Assign(nb(l), nb(r)),
        T::Member(o, m) => T::Member(nb(o), m.clone()),
        T::Elem(a, i) => T::Elem(nb(a), nb(i)),
        T::New(c, args) => T::New(c.clone(), ns(args)),
        T::Cond(c, x, y) => T::Cond(nb(c), nb(x), nb(y)),
        T::Declare(name, ty, v) => T::Declare(name.clone(), ty.clone(), v.as_ref().map(|v| nb(v))),
        T::Return(v) => T::Return(v.as_ref().map(|v| nb(v))),
        T::If(c, x, y) => T::If(nb(c), ns(x), y.as_ref().map(|y| ns(y))),
        T::While(c, x) => T::While(nb(c), ns(x)),
        T::Switch(c, cs, d) => T::Switch(
            nb(c),
            cs.iter().map(|(m, x)| (n(m), ns(x))).collect(),
            d.as_ref().map(|d| ns(d)),
        ),
        other => other.clone(),
    }
}

pub fn norms(ts: &[T], verbose: bool) -> Vec<T> {
    ts.iter().map(|t| norm(t, verbose)).collect()
}

fn chain(op: &'static str, l: T, r: T) -> T {
    if !ASSOCIATIVE.contains(&op) {
        return T::Bin(op, b(l), b(r));
    }
    let mut v = vec![];
    for t in [l, r] {
        match t {
            T::Chain(o, xs) if o == op => v.extend(xs),
            other => v.push(other),
        }
    }
    T::Chain(op, v)
}

/// The sign of a constant may be written either way.
fn un(op: &'static str, x: T) -> T {
    if op == "OperatorNeg" {
        match &x {
            T::Const(K::I32(v)) if *v != i32::MIN => return T::Const(K::I32(-v)),
            T::Const(K::I64(v)) if *v != i64::MIN => return T::Const(K::I64(-v)),
            T::Const(K::F32(v)) => return T::Const(K::F32(v ^ 0x8000_0000)),
            T::Const(K::F64(v)) => return T::Const(K::F64(v ^ 0x8000_0000_0000_0000)),
            _ => {}
        }
    }
    T::Un(op, b(x))
}

//! Reading printed declarations.

use crate::text::{Parser, Tok};
use crate::tree::T;

type P<A> = Result<A, String>;

#[derive(Debug, Clone, PartialEq)]
pub struct PFun {
    pub words: Vec<String>,
    pub name: String,
    pub params: Vec<(Vec<String>, String, String)>,
    pub ret: String,
    pub body: Option<Vec<T>>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct PField {
    pub props: Vec<(String, String)>,
    pub defaults: Vec<(String, String)>,
    pub words: Vec<String>,
    pub name: String,
    pub ty: String,
}

#[derive(Debug, Clone, PartialEq)]
pub struct PClass {
    pub words: Vec<String>,
    pub name: String,
    pub base: Option<String>,
    pub members: Vec<PMember>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum PMember {
    Field(PField),
    Fun(PFun),
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

pub fn words_until(p: &mut Parser, stops: &[&str]) -> P<(Vec<String>, String)> {
    let mut words = vec![];
    loop {
        let w = p.ident()?;
        if stops.contains(&w.as_str()) {
            return Ok((sorted(words), w));
        }
        words.push(w);
    }
}

pub fn fun_rest(p: &mut Parser, words: Vec<String>) -> P<PFun> {
    let name = p.ident()?;
    p.want("(")?;
    let mut params = vec![];
    if !p.eat(")") {
        loop {
            let mut ws = vec![p.ident()?];
            while !p.is(":") {
                ws.push(p.ident()?);
            }
            let pname = ws.pop().unwrap_or_default();
            p.want(":")?;
            let ty = p.ty()?;
            params.push((sorted(ws), pname, ty));
            if p.eat(")") {
                break;
            }
            p.want(",")?;
        }
    }
    p.want("->")?;
    let ret = p.ty()?;
    let body = if p.eat(";") { None } else { Some(p.body()?) };
    Ok(PFun {
        words,
        name,
        params,
        ret,
        body,
    })
}

pub fn function(p: &mut Parser) -> P<PFun> {
    let (words, _) = words_until(p, &["func"])?;
    fun_rest(p, words)
}

/// The text between parentheses is taken as is for @default.
fn member(p: &mut Parser) -> P<PMember> {
    let mut props = vec![];
    let mut defaults = vec![];
    while p.eat("@") {
        let w = p.ident()?;
        p.want("(")?;
        match w.as_str() {
            "runtimeProperty" => {
                let a = string(p)?;
                p.want(",")?;
                let v = string(p)?;
                props.push((a, v));
            }
            "default" => {
                let a = p.ident()?;
                p.want(",")?;
                let v = if *p.peek() == Tok::P(")") {
                    String::new()
                } else {
                    match p.next() {
                    Tok::Id(s) | Tok::Num(s) => s,
                    Tok::P("-") => match p.next() {
                        Tok::Num(s) => format!("-{s}"),
                        other => return Err(format!("default value: {other:?}")),
                    },
                    other => return Err(format!("default value: {other:?}")),
                    }
                };
                defaults.push((a, v));
            }
            other => return Err(format!("unknown annotation {other}")),
        }
        p.want(")")?;
    }
    let (words, kind) = words_until(p, &["func", "let"])?;
    if kind == "func" {
        if !props.is_empty() || !defaults.is_empty() {
            return Err("annotations on a method".into());
        }
        return Ok(PMember::Fun(fun_rest(p, words)?));
    }
    let name = p.ident()?;
    p.want(":")?;
    let ty = p.ty()?;
    p.want(";")?;
    Ok(PMember::Field(PField {
        props,
        defaults,
        words,
        name,
        ty,
    }))
}

fn string(p: &mut Parser) -> P<String> {
    match p.next() {
        Tok::Str('s', s) => Ok(s),
        other => Err(format!("expected a string, found {other:?}")),
    }
}

pub fn class(p: &mut Parser) -> P<PClass> {
    let (mut words, kind) = words_until(p, &["class", "struct"])?;
    words.push(kind);
    words.sort();
    let name = p.ident()?;
    let base = if p.eat_word("extends") { Some(p.ident()?) } else { None };
    p.want("{")?;
    let mut members = vec![];
    while !p.eat("}") {
        members.push(member(p)?);
    }
    Ok(PClass {
        words,
        name,
        base,
        members,
    })
}

pub fn enum_(p: &mut Parser) -> P<(String, Vec<(String, i64)>)> {
    let (words, _) = words_until(p, &["enum"])?;
    if !words.is_empty() {
        return Err(format!("unexpected {words:?}"));
    }
    let name = p.ident()?;
    p.want("{")?;
    let mut v = vec![];
    while !p.eat("}") {
        let n = p.ident()?;
        p.want("=")?;
        let sign = if p.eat("-") { "-" } else { "" };
        let val = match p.next() {
            Tok::Num(s) => format!("{sign}{s}").parse::<i64>().map_err(|e| e.to_string())?,
            other => return Err(format!("enum value {other:?}")),
        };
        v.push((n, val));
        p.want(",")?;
    }
    Ok((name, v))
}

pub fn end(p: &Parser) -> P<()> {
    if *p.peek() == Tok::End {
        Ok(())
    } else {
        Err(format!("text continues with {:?}", p.peek()))
    }
}

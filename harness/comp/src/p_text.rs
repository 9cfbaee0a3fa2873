//! Source text: layout, grouping, literals, and texts that are no programs.
use pbt::{ensure, fail, Ctx, Prop, Src, Sub, R};
use redscript::bytecode::Instr;
use redscript::definition::AnyDefinition;
use redscript_compiler::diagnostics::Diagnostic;
use redscript_compiler::parser::parse_str;

use crate::base;
use crate::gen::{Opts, G};
use crate::p_sem::{compile_ok, into_files, listing, shuffled};
use crate::vm::Vm;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Word,
    Num,
    Str,
    Op,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub kind: Kind,
    pub text: String,
    /// follows the previous one directly
    pub glued: bool,
}

/// The end of a string literal starting at `i` (its opening quote).
fn string_end(b: &[u8], mut i: usize, interpolated: bool) -> usize {
    i += 1;
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if interpolated && b[i + 1] == b'(' {
                let mut depth = 1;
                i += 2;
                while depth > 0 {
                    match b[i] {
                        b'(' => depth += 1,
                        b')' => depth -= 1,
                        b'"' => i = string_end(b, i, b[i - 1] == b's') - 1,
                        _ => {}
                    }
                    i += 1;
                }
                continue;
            }
            i += 1;
        }
        i += 1;
    }
    i + 1
}

/// Tokens of text without comments as the generator writes it.
pub fn tokens(text: &str) -> Vec<Tok> {
    let b = text.as_bytes();
    let mut i = 0;
    let mut out: Vec<Tok> = vec![];
    let mut glued = false;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            glued = false;
            continue;
        }
        let start = i;
        let kind = if c == b'"' {
            i = string_end(b, i, false);
            Kind::Str
        } else if matches!(c, b's' | b'n' | b'r' | b't') && b.get(i + 1) == Some(&b'"') {
            i = string_end(b, i + 1, c == b's');
            Kind::Str
        } else if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            Kind::Word
        } else if c.is_ascii_digit() {
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.') {
                i += 1;
            }
            while i < b.len() && matches!(b[i], b'u' | b'l' | b'd') {
                i += 1;
            }
            Kind::Num
        } else {
            let two = text.get(i..i + 2).unwrap_or("");
            i += if ["->", "||", "&&", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "|=", "&="].contains(&two) { 2 } else { 1 };
            Kind::Op
        };
        out.push(Tok { kind, text: text[start..i].to_owned(), glued });
        glued = true;
    }
    out
}

fn gap(s: &mut Src, required: bool, slash: bool) -> String {
    let n = s.size(usize::from(required || slash), 3);
    let mut o = String::new();
    for i in 0..n {
        // a comment must not merge with an operator before it
        match s.below(if i == 0 && (slash || required) { 4 } else { 9 }) {
            0 => o += " ",
            1 => o += "\n",
            2 => o += "\t",
            3 => o += "\r\n",
            4 => o += "// x { \" */ \n",
            5 => o += "/* a // b \" ; */",
            6 => o += "/* a /* n * / */ ' \n } */",
            7 => o += "/**/",
            _ => o += "   ",
        }
    }
    o
}

/// The same tokens with other space and comments between them.
pub fn relayout(s: &mut Src, toks: &[Tok]) -> String {
    let mut o = String::new();
    if s.bool() {
        o += &gap(s, false, false);
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let p = &toks[i - 1];
            let wordy = |k: Kind| matches!(k, Kind::Word | Kind::Num);
            let merge = wordy(p.kind) && (wordy(t.kind) || t.kind == Kind::Str);
            let slash = p.text.ends_with(['/', '*']);
            let fixed = t.glued
                && (matches!(t.text.as_str(), "," | "<")
                    || t.kind == Kind::Num
                    || t.text == "." && p.kind == Kind::Num
                    || p.kind == Kind::Op && !matches!(p.text.as_str(), "(" | "[" | "{" | ")" | "]" | "." | ";" | "!" | "<")
                    || t.text == ">" && p.text == ">");
            if !(fixed || t.text == ",") {
                let keep = !t.glued && (merge || p.text == "-" || (p.kind == Kind::Op && t.kind == Kind::Op) || t.text == "<" || p.text == "@");
                let dense = s.chance(1, 2);
                if dense {
                    o += if keep || (!t.glued && s.bool()) { " " } else { "" };
                } else {
                    o += &gap(s, keep, slash);
                }
            }
        }
        o += &t.text;
    }
    if s.bool() {
        o += &gap(s, false, false);
    }
    if s.chance(1, 4) {
        o += "// the end";
    }
    o
}

/// Everything compiled, without lines.
fn code_of(p: &redscript::bundle::ConstantPool) -> Vec<String> {
    p.definitions()
        .map(|(i, d)| {
            let mut d = d.clone();
            if let AnyDefinition::Function(f) = &mut d.value {
                f.source = None;
                for x in f.code.as_mut() {
                    match x {
                        Instr::InvokeStatic(_, l, _, _) | Instr::InvokeVirtual(_, l, _, _) => *l = 0,
                        _ => {}
                    }
                }
            }
            format!("{i} {} {d:?}", p.def_name(i).map(|n| n.to_string()).unwrap_or_default())
        })
        .collect()
}

fn layout(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut g = G::new(s, Opts { max_families: 3, max_stmts: 4, depth: 3 });
    g.world();
    let w = g.w;
    let decls = shuffled(s, w.decls());
    let files = into_files(s, decls);
    let other: Vec<_> = files.iter().map(|(p, t)| (p.clone(), relayout(s, &tokens(t)))).collect();
    ctx.sample(|| listing(&other));
    ctx.nontrivial_if(files.iter().map(|f| f.1.len()).sum::<usize>() > 300);
    let mut a = base::base();
    compile_ok(&mut a, &files)?;
    let mut b = base::base();
    compile_ok(&mut b, &other).map_err(|mut f| {
        f.sig = "layout-rejected".into();
        f.msg += &format!("\nthe same laid out plainly is accepted:\n{}", listing(&files));
        f
    })?;
    let (a, b) = (code_of(&a), code_of(&b));
    for (x, y) in a.iter().zip(&b) {
        ensure!(x == y, "layout", "layout changes what is compiled: {x}\nbecomes {y}\n{}\n{}", listing(&files), listing(&other));
    }
    ensure!(a.len() == b.len(), "layout", "layout changes what is compiled\n{}\n{}", listing(&files), listing(&other));
    Ok(())
}

// ------------------------------------------------------------------------------------------- grouping

#[derive(Debug)]
enum T {
    Leaf(String),
    Bin(&'static str, u32, Box<T>, Box<T>),
    /// right associative
    Set(&'static str, Box<T>, Box<T>),
    Un(&'static str, Box<T>),
    Cond(Box<T>, Box<T>, Box<T>),
    Post(Box<T>, Vec<T>, u64),
    Group(&'static str, Vec<T>, &'static str),
}

const BINS: &[(&str, u32)] = &[
    ("||", 2), ("&&", 3), ("|", 4), ("^", 5), ("&", 6), ("==", 7), ("!=", 7), ("<", 8), ("<=", 8), (">", 8), (">=", 8), ("+", 9),
    ("-", 9), ("*", 10), ("/", 10), ("%", 10),
];

fn tree(s: &mut Src, d: u32) -> T {
    let b = |s: &mut Src| Box::new(tree(s, d - 1));
    if d == 0 || s.chance(1, 8) {
        return T::Leaf((*s.pick(&["a", "b", "nn", "this", "null", "1", "2.5", "7ul", "\"x\"", "n\"y\"", "true", "new A()", "s\"p\\(q)r\"", "super", "returned", "asx"])).to_owned());
    }
    match s.below(12) {
        0..=5 => {
            let (op, p) = *s.pick(BINS);
            T::Bin(op, p, b(s), b(s))
        }
        6 => T::Set(*s.pick(&["=", "+=", "-=", "*=", "/=", "|=", "&="]), b(s), b(s)),
        7 => T::Un(*s.pick(&["!", "~", "-"]), b(s)),
        8 => T::Cond(b(s), b(s), b(s)),
        9 | 10 => {
            let k = s.below(4);
            let n = match k {
                0 => 1,
                1 => s.idx(3),
                _ => 0,
            };
            let base = b(s);
            T::Post(base, (0..n).map(|_| tree(s, d - 1)).collect(), k)
        }
        _ => {
            let n = s.idx(3);
            let args = (0..n).map(|_| tree(s, d - 1)).collect();
            let (o, c) = *s.pick(&[("f(", ")"), ("g<Int32>(", ")"), ("[", "]"), ("new B(", ")")]);
            T::Group(o, args, c)
        }
    }
}

/// Binding strength; the operands of looser operators need parentheses.
fn level(t: &T) -> u32 {
    match t {
        T::Leaf(x) if x.starts_with("new") => 11,
        T::Group("new B(", ..) => 11,
        T::Leaf(_) | T::Post(..) | T::Group(..) => 12,
        T::Un(..) => 11,
        T::Bin(_, p, ..) => *p,
        T::Set(..) | T::Cond(..) => 1,
    }
}

/// Written with parentheses where `min` says they are needed, or everywhere.
fn show(t: &T, all: bool) -> String {
    let at = |t: &T, min: u32| if all || level(t) < min { format!("({})", show(t, all)) } else { show(t, all) };
    let list = |v: &[T]| v.iter().map(|x| if all { format!("({})", show(x, all)) } else { show(x, all) }).collect::<Vec<_>>().join(", ");
    match t {
        T::Leaf(x) => x.clone(),
        T::Bin(op, p, l, r) => format!("{} {op} {}", at(l, *p), at(r, *p + 1)),
        T::Set(op, l, r) => format!("{} {op} {}", at(l, 2), at(r, 1)),
        // a sign directly before digits would belong to the number
        T::Un("-", x) => format!("- {}", at(x, 11)),
        T::Un(op, x) => format!("{op}{}", at(x, 11)),
        T::Cond(c, x, y) => format!("{} ? {} : {}", at(c, 2), at(x, 1), at(y, 1)),
        T::Post(x, a, k) => {
            // digits would run on into the dot
            let x = match &**x {
                T::Leaf(l) if l.starts_with(|c: char| c.is_ascii_digit()) => format!("({l})"),
                x => at(x, 12),
            };
            match k {
                0 => format!("{x}[{}]", list(a)),
                1 => format!("{x}.m({})", list(a)),
                2 => format!("{x}.fld"),
                _ => format!("{x} as Cls"),
            }
        }
        T::Group(o, a, c) => format!("{o}{}{c}", list(a)),
    }
}

/// The debug text of a syntax tree without positions.
fn bare(mut t: &str) -> String {
    let mut o = String::new();
    while let Some(i) = t.find("Span {") {
        o += &t[..i];
        t = &t[i + t[i..].find('}').unwrap() + 1..];
    }
    o + t
}

fn grouping(s: &mut Src, ctx: &mut Ctx) -> R {
    let d = s.size(1, 4) as u32;
    let t = tree(s, d);
    let (few, all) = (show(&t, false), show(&t, true));
    // `a < b > (c)` is a call with a type argument
    let words: Vec<&str> = few.split_whitespace().collect();
    if words.windows(4).any(|w| w[0].ends_with(char::is_alphanumeric) && w[1] == "<" && w[2].chars().all(char::is_alphanumeric) && w[3] == ">") {
        ctx.label("generic");
        return Ok(());
    }
    ctx.nontrivial_if(few != all && few.len() > 8);
    ctx.sample(|| few.clone());
    let parse = |e: &str| match pbt::catch(|| parse_str(&format!("func F() {{ x = {e}; }}"))) {
        Ok(Ok(m)) => Ok(bare(&format!("{:?}", m.entries))),
        Ok(Err(e)) => Err(format!("{e}")),
        Err(p) => Err(format!("panic: {p}")),
    };
    let a = match parse(&all) {
        Ok(a) => a,
        Err(m) => return fail("parse", format!("`{all}` does not parse: {m}")),
    };
    match parse(&few) {
        Ok(b) => ensure!(a == b, "grouping", "`{few}` is not read as `{all}` but as {b}"),
        Err(m) => return fail("parse", format!("`{few}` does not parse: {m}")),
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- literals

fn literals(s: &mut Src, ctx: &mut Ctx) -> R {
    let neg = s.chance(1, 4);
    let sign = if neg { "-" } else { "" };
    // what is written and the instruction it stands for; none where the value does not fit
    let (ty, text, want): (&str, String, Option<String>) = match s.below(8) {
        k @ 0..=3 => {
            let (ty, suffix, min, max): (_, _, i128, i128) = match k {
                0 => ("Int32", "", i32::MIN.into(), i32::MAX.into()),
                1 => ("Int64", "l", i64::MIN.into(), i64::MAX.into()),
                2 => ("Uint32", "u", 0, u32::MAX.into()),
                _ => ("Uint64", "ul", 0, u64::MAX.into()),
            };
            let mut v: i128 = match s.below(4) {
                0 => s.below(10).into(),
                1 => i128::from(s.bits(66.min(64))) * if s.chance(1, 8) { 5 } else { 1 },
                2 => (if neg { -min } else { max }) + i128::from(s.range(-2, 2)),
                _ => i128::from(s.bits(32)),
            };
            v = v.abs();
            let zeros = "0".repeat(s.idx(3));
            let x = if neg { -v } else { v };
            // unsigned numbers have no sign of their own
            if neg && k >= 2 {
                ("Int32", "0".into(), None)
            } else {
                let want = (min..=max).contains(&x).then(|| match (k, x) {
                    (0, x) => format!("I32Const({x})"),
                    (1, x) => format!("I64Const({x})"),
                    (2, x) => format!("U32Const({x})"),
                    (_, x) => format!("U64Const({x})"),
                });
                (ty, format!("{sign}{zeros}{v}{suffix}"), Some(want.unwrap_or_default()))
            }
        }
        k @ 4..=5 if s.chance(1, 4) => {
            // around the largest value of the type
            let (ty, suffix, max) = if k == 4 { ("Float", "", 39) } else { ("Double", "d", 309) };
            let digits = max - 3 + s.idx(6);
            let mut t: String = (0..digits).map(|_| (b'0' + s.below(10) as u8) as char).collect();
            t.replace_range(0..1, *s.pick(&["1", "3", "9"]));
            let frac = if k == 4 || s.bool() { ".0" } else { "" };
            // (the value as the type itself rounds it)
            let want = if k == 4 {
                let v: f32 = t.parse().unwrap();
                if v.is_finite() { format!("F32Const({:?})", if neg { -v } else { v }) } else { String::new() }
            } else {
                let v: f64 = t.parse().unwrap();
                if v.is_finite() { format!("F64Const({:?})", if neg { -v } else { v }) } else { String::new() }
            };
            (ty, format!("{sign}{t}{frac}{suffix}"), Some(want))
        }
        4 => {
            let (a, b) = (s.below(100_000), s.below(1000));
            let t = match s.below(4) {
                0 => format!("{sign}{a}."),
                1 => format!("{sign}.{b:03}"),
                _ => format!("{sign}{a}.{b:03}"),
            };
            let v = (if t.contains(".") && !t.ends_with('.') { b as f64 / 1000.0 } else { 0.0 } + if t.starts_with('.') || t.starts_with("-.") { 0.0 } else { a as f64 }) as f32;
            ("Float", t, Some(format!("F32Const({:?})", if neg { -v } else { v })))
        }
        5 => {
            let (a, b) = (s.below(1 << 40), s.below(64));
            // sixty-fourths are exact
            let v = a as f64 + b as f64 / 64.0;
            ("Double", format!("{sign}{v}d"), Some(format!("F64Const({:?})", if neg { -v } else { v })))
        }
        _ => {
            let n = s.size(0, 6);
            let mut value = String::new();
            let mut text = String::new();
            for _ in 0..n {
                let c = match s.below(6) {
                    0 => *s.pick(&['\n', '\r', '\t', '\'', '"', '\\']),
                    1 => char::from_u32(s.bits(21) as u32 % 0x11_0000).unwrap_or('\u{fffd}'),
                    2 => *s.pick(&['λ', '日', '\u{1F600}', '\u{0}', '\u{7f}', '{', '}', '(', '/', '*', 'u', 'n']),
                    _ => (b' ' + s.below(95) as u8) as char,
                };
                value.push(c);
                let simple = match c {
                    '\n' => Some("\\n"),
                    '\r' => Some("\\r"),
                    '\t' => Some("\\t"),
                    '\'' => Some("\\'"),
                    '"' => Some("\\\""),
                    '\\' => Some("\\\\"),
                    _ => None,
                };
                match (simple, s.below(3)) {
                    (_, 0) => text += &format!("\\u{{{:0w$x}}}", c as u32, w = s.size(1, 6)),
                    (_, 1) if c != '"' && c != '\\' => text.push(c),
                    (Some(e), _) => text += e,
                    (None, _) => text.push(c),
                }
            }
            let (ty, p) = *s.pick(&[("String", ""), ("CName", "n"), ("TweakDBID", "t"), ("ResRef", "r")]);
            (ty, format!("{p}\"{text}\""), Some(value))
        }
    };
    let Some(want) = want else { return Ok(()) };
    let src = format!("func F() -> {ty} {{ return {text}; }}");
    ctx.sample(|| src.clone());
    ctx.nontrivial_if(text.len() > 3);
    ctx.label(ty);
    let mut pool = base::base();
    let files = [("a.reds".to_owned(), src.clone())];
    let out = match pbt::catch(|| base::compile(&mut pool, &files)) {
        Ok(o) => o,
        Err(p) => return fail("panic", format!("compiling panicked: {p}\n{src}")),
    };
    let rejected = match &out {
        Ok(o) => !base::fatal(o).is_empty(),
        Err(_) => true,
    };
    let number = ty != "String" && ty != "CName" && ty != "TweakDBID" && ty != "ResRef";
    if number && want.is_empty() {
        ctx.label("out-of-range");
        ensure!(rejected, "accepted", "a number too large for its type is accepted\n{src}");
        return Ok(());
    }
    if !number && want.contains('\0') {
        ctx.label("zero");
        ensure!(rejected, "accepted", "a text which a cache cannot hold is accepted\n{src}");
        return Ok(());
    }
    ensure!(!rejected, "rejected", "a literal is rejected: {out:?}\n{src}");
    let vm = Vm::new(&pool);
    let f = vm.find_prefix("F;").expect("F");
    let code: Vec<_> = pool.function(f).unwrap().code.iter().map(|(_, i)| i).collect();
    let at = |i: &Instr<redscript::bytecode::Offset>| match i {
        Instr::NameConst(i) => pool.names.get(*i).unwrap().to_string(),
        Instr::StringConst(i) => pool.strings.get(*i).unwrap().to_string(),
        Instr::TweakDbIdConst(i) => pool.tweakdb_ids.get(*i).unwrap().to_string(),
        Instr::ResourceConst(i) => pool.resources.get(*i).unwrap().to_string(),
        Instr::I32Zero => "I32Const(0)".into(),
        Instr::I32One => "I32Const(1)".into(),
        i => format!("{i:?}"),
    };
    ensure!(code.len() >= 2 && matches!(code[0], Instr::Return), "shape", "{src}: {code:?}");
    let got = match &code[1] {
        // a sign may be an operator of its own
        Instr::InvokeStatic(_, _, f, _) if neg && pool.def_name(*f).is_ok_and(|n| n.starts_with("OperatorNeg")) => {
            at(&code[2]).replace('(', "(-").replace("Const(-0)", "Const(0)")
        }
        i => at(i),
    };
    ensure!(got == want, "value", "{src}\nstands for {got:?}, not {want:?}");
    Ok(())
}

// ------------------------------------------------------------------------------------------- no programs

const SOUP: &[&str] = &[
    "class", "struct", "enum", "func", "let", "if", "else", "while", "for", "in", "switch", "case", "default", "break", "return", "new",
    "null", "this", "super", "true", "false", "public", "private", "protected", "static", "final", "native", "abstract", "cb", "out", "opt",
    "const", "quest", "exec", "importonly", "persistent", "extends", "module", "import", "as", "@if", "@wrapMethod", "@replaceMethod",
    "@addMethod", "@addField", "@replaceGlobal", "@runtimeProperty", "@x", "(", ")", "[", "]", "{", "}", "<", ">", ",", ";", ":", ".", "..", "*", "=", "+",
    "-", "!", "~", "?", "&", "|", "^", "%", "/", "==", "->", "||", "&&", "+=", "0", "1", "2.5", "1.1.1", "9999999999", "-", "1u", "1ul", "3d", ".",
    "\"a\"", "\"", "s\"\\(a)b\"", "s\"", "n\"x\"", "r\"", "\\", "\"\\u{0}\"", "\"\\u{d800}\"", "\"\\u{110000}\"", "\"\\u{}\"", "\"\\q\"", "/*", "*/", "//", "\n", " ", "Cl0", "Cl1", "F0", "Main", "Int32",
    "ref<Cl0>", "array<Int32>", "array", "ref", "wref", "script_ref", "Bool", "String", "IScriptable", "wrappedMethod", "a", "v1", "x", "λ", "\u{0}",
    "ModuleExists", "Cast", "ToString", "ArrayPush", "Equals", "EnumInt", "IntEnum", "FromVariant", "Deref", "AsRef", "IsDefined",
];

fn damaged(s: &mut Src, ctx: &mut Ctx) -> R {
    let text = match s.below(8) {
        0 => {
            ctx.label("soup");
            let n = s.size(0, 40);
            (0..n).map(|_| format!("{}{}", s.pick(SOUP), if s.bool() { " " } else { "" })).collect::<String>()
        }
        1 => {
            ctx.label("characters");
            let n = s.size(0, 60);
            (0..n).map(|_| if s.chance(1, 8) { char::from_u32(s.bits(21) as u32 % 0x11_0000).unwrap_or('x') } else { (s.below(128) as u8) as char }).collect()
        }
        k => {
            let m = crate::p_mods::mods(s, 2);
            let mut text = m.game.concat();
            if s.bool() {
                text += &m.mods.concat();
                text += &m.loose.concat();
            }
            let mut toks = tokens(&text);
            if k == 2 {
                ctx.label("truncated");
                let mut at = s.idx(text.len() + 1);
                while !text.is_char_boundary(at) {
                    at -= 1;
                }
                text.truncate(at);
                text
            } else {
                ctx.label("edited");
                for _ in 0..s.size(1, 4) {
                    if toks.is_empty() {
                        break;
                    }
                    let i = s.idx(toks.len());
                    match s.below(9) {
                        0 => {
                            toks.remove(i);
                        }
                        1 => {
                            let t = toks[i].clone();
                            toks.insert(i, t);
                        }
                        2 => {
                            let j = s.idx(toks.len());
                            toks.swap(i, j);
                        }
                        3 => {
                            let j = s.idx(toks.len());
                            toks[i].text = toks[j].text.clone();
                        }
                        4..=7 => {
                            // another word for a word
                            let words: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].kind == Kind::Word).collect();
                            if !words.is_empty() {
                                let (a, b) = (*s.pick(&words), *s.pick(&words));
                                toks[a].text = toks[b].text.clone();
                            }
                        }
                        _ => toks[i].text = (*s.pick(SOUP)).to_owned(),
                    }
                }
                toks.iter().map(|t| format!("{}{}", if t.glued { "" } else { " " }, t.text)).collect()
            }
        }
    };
    ctx.nontrivial_if(text.len() > 5);
    ctx.sample(|| text.clone());
    let files = vec![("a.reds".to_owned(), "func Other() {}".to_owned()), ("b.reds".to_owned(), text.clone())];
    let map = base::files(&files);
    let mut pool = base::base();
    let res = pbt::catch(|| redscript_compiler::unit::CompilationUnit::new_with_defaults(&mut pool).and_then(|u| u.compile_files(&map)));
    let diags = match res {
        Err(p) => return fail("panic", format!("compiling panicked: {p}\n{text}")),
        Ok(Ok(o)) => o.into_diagnostics(),
        Ok(Err(e)) => {
            match Diagnostic::from_error(e) {
                Ok(d) => vec![d],
                Err(_) => {
                    // modifications of a class that is declared along with them end like this
                    ctx.label("rejected-without-position");
                    return Ok(());
                }
            }
        }
    };
    ctx.label(if diags.iter().any(Diagnostic::is_fatal) { "rejected" } else { "accepted" });
    for d in &diags {
        let span = d.span();
        ensure!(map.lookup(span).is_some(), "position", "`{d}` is reported at {span:?}, which is in no file\n{text}");
        let mut o = String::new();
        match pbt::catch(|| d.display(&map, &mut o)) {
            Ok(Ok(())) => {}
            r => return fail("display", format!("{d} cannot be shown: {r:?}\n{text}")),
        }
    }
    Ok(())
}

/// Class declarations naming each other as base, in any order and with cycles.
fn hierarchies(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.size(1, 7);
    let bases: Vec<Option<usize>> = (0..n).map(|_| if s.chance(1, 4) { None } else { Some(s.idx(n)) }).collect();
    let cyclic = (0..n).any(|i| {
        let mut at = bases[i];
        for _ in 0..n {
            at = at.and_then(|k| bases[k]);
        }
        at.is_some()
    });
    let mut decls: Vec<String> = (0..n)
        .map(|i| {
            let ext = bases[i].map(|b| format!(" extends K{b}")).unwrap_or_default();
            let over = if s.bool() { "public func Who() -> Int32 { return super.Who(); }" } else { "" };
            format!("public class K{i}{ext} {{ {} }}\n", if bases[i].is_some() { over } else { "public func Who() -> Int32 { return 1; }" })
        })
        .collect();
    decls.push("func Try(k: ref<K0>) -> Int32 { return k.Who(); }\n".into());
    let decls = crate::p_sem::shuffled(s, decls);
    let files = crate::p_sem::into_files(s, decls);
    let text = crate::p_sem::listing(&files);
    ctx.sample(|| text.clone());
    ctx.nontrivial_if(n > 2);
    ctx.label(if cyclic { "cyclic" } else { "forest" });
    let mut pool = base::base();
    let out = match pbt::catch(|| base::compile(&mut pool, &files)) {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => return fail("error", format!("compiling ends with {e}\n{text}")),
        Err(p) => return fail("panic", format!("compiling panicked: {p}\n{text}")),
    };
    let rejected = !base::fatal(&out).is_empty();
    ensure!(rejected == cyclic, "cycle", "{}\n{text}", if cyclic { "a class is accepted as its own ancestor" } else { "a hierarchy without a cycle is rejected" });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C44",
            rule: "a program of more than 300 bytes, or an expression whose parentheses can be left out in part",
            level: "exploration",
            assumptions: &["no space stands before commas or between a generic type and `<`, which the language does not allow"],
            subs: vec![
                Sub { name: "layout", quick: 150, thorough: 20_000, run: layout },
                Sub { name: "grouping", quick: 600, thorough: 200_000, run: grouping },
            ],
        },
        Prop {
            id: "C45",
            rule: "the literal is longer than three bytes",
            level: "exploration",
            assumptions: &[],
            subs: vec![Sub { name: "literals", quick: 1500, thorough: 100_000, run: literals }],
        },
        Prop {
            id: "C46",
            rule: "the text is longer than five bytes, more than two classes name bases",
            level: "exploration",
            assumptions: &["nesting is shallow enough for the stack"],
            subs: vec![
                Sub { name: "hierarchies", quick: 100, thorough: 20_000, run: hierarchies },
                Sub { name: "damaged", quick: 800, thorough: 100_000, run: damaged },
            ],
        },
    ]
}

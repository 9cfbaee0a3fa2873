//! Which programs are accepted and which are not, and what is said about the latter.
use pbt::{ensure, fail, Ctx, Prop, Src, Sub, R};
use redscript_compiler::diagnostics::Diagnostic;
use redscript_compiler::source_map::Files;

use crate::base::{self, is_int, NUMS};
use crate::gen::{Opts, G};
use crate::lang::{Param, Ty, World};
use crate::p_sem::{compile_ok, into_files, listing, shuffled};

/// Declarations that are in order or contain one mistake, between the marks `/*<k*/` and `/*>k*/`.
struct Case {
    label: &'static str,
    decls: Vec<String>,
    /// the code of the mistake; `*` when any will do
    want: Option<&'static str>,
    /// modifies declarations compiled before
    modifies: bool,
}

impl Case {
    fn set(&mut self, ok: bool, code: &'static str) {
        self.want = (!ok).then_some(code);
    }
}

fn ex(k: usize, t: &str) -> String {
    format!("(/*<{k}*/{t}/*>{k}*/)")
}

fn st(k: usize, t: &str) -> String {
    format!("/*<{k}*/{t}/*>{k}*/")
}

// ---------------------------------------------------------------- what converts to what

fn sub(w: &World, c: usize, of: usize) -> bool {
    let mut cur = Some(c);
    while let Some(x) = cur {
        if x == of {
            return true;
        }
        cur = w.classes[x].base;
    }
    false
}

/// Without a change to the value.
fn same(w: &World, from: &Ty, to: &Ty) -> bool {
    match (from, to) {
        (Ty::Ref(a), Ty::Ref(b)) | (Ty::WRef(a), Ty::WRef(b)) => sub(w, *a, *b),
        _ => from == to,
    }
}

fn converts(w: &World, from: &Ty, to: &Ty) -> bool {
    same(w, from, to)
        || match (from, to) {
            (Ty::Ref(a), Ty::WRef(b)) | (Ty::WRef(a), Ty::Ref(b)) => sub(w, *a, *b),
            (_, Ty::SRef(t)) => same(w, from, t),
            (_, Ty::Variant) => true,
            _ => false,
        }
}

/// Whether two values have a common type.
fn unify(from: &Ty, to: &Ty) -> bool {
    from == to || matches!((from, to), (Ty::Ref(_), Ty::Ref(_)) | (Ty::WRef(_), Ty::WRef(_)))
}

/// An operand of the operators: a type of the prelude.
fn operand(w: &World, t: &Ty, of: &str) -> bool {
    match of {
        "ref<IScriptable>" => matches!(t, Ty::Ref(_) | Ty::WRef(_)),
        "script_ref<String>" => *t == Ty::Str || *t == Ty::SRef(Box::new(Ty::Str)),
        of => w.ty(t) == of,
    }
}

fn overloads(op: &str) -> Vec<(&'static str, &'static str)> {
    let mut v: Vec<(&'static str, &'static str)> = vec![];
    let nums = || NUMS.iter().map(|t| (*t, *t));
    let ints = || NUMS.iter().filter(|t| is_int(t)).map(|t| (*t, *t));
    match op {
        "+" => {
            v.extend(nums());
            v.push(("script_ref<String>", "script_ref<String>"));
        }
        "+=" => {
            v.extend(nums());
            v.push(("String", "script_ref<String>"));
        }
        "-" | "*" | "/" | "-=" | "*=" | "/=" | "<" | "<=" | ">" | ">=" => v.extend(nums()),
        "%" | "&" | "|" | "^" | "&=" | "|=" => v.extend(ints()),
        "&&" | "||" => v.push(("Bool", "Bool")),
        "==" | "!=" => {
            v.extend(nums());
            for t in ["Bool", "script_ref<String>", "CName", "ref<IScriptable>"] {
                v.push((t, t));
            }
        }
        _ => unreachable!(),
    }
    v
}

const LITS: &[(&str, &str)] = &[
    ("1", "Int32"), ("1.5", "Float"), ("1u", "Uint32"), ("1l", "Int64"), ("1ul", "Uint64"), ("1d", "Double"), ("true", "Bool"), ("\"x\"", "String"),
    ("n\"x\"", "CName"), ("t\"x\"", "TweakDBID"), ("r\"x\"", "ResRef"), ("null", "ref<IScriptable>"),
];

/// A literal of the first type where the second one is wanted.
fn literal_fits(t: &str, u: &str) -> bool {
    t == u || matches!((t, u), ("Int32", "Float" | "Double" | "Int64") | ("Uint32", "Uint64") | ("Float", "Double"))
}

// ---------------------------------------------------------------- generation

struct D<'s, 'w> {
    s: &'s mut Src,
    w: &'w World,
    k: usize,
}

impl D<'_, '_> {
    fn class(&mut self) -> usize {
        self.s.idx(self.w.classes.len())
    }

    fn ty(&mut self, d: u32) -> Ty {
        const SIMPLE: &[Ty] = &[Ty::I32, Ty::Bool, Ty::Str, Ty::F32, Ty::I64, Ty::U32, Ty::U64, Ty::F64, Ty::Name, Ty::Tdb, Ty::Res];
        match self.s.weighted(&[6, 2, 2, 3, 3, 3, 1, 2]) {
            1 if !self.w.enums.is_empty() => Ty::Enum(self.s.idx(self.w.enums.len())),
            2 if !self.w.structs.is_empty() => Ty::Struct(self.s.idx(self.w.structs.len())),
            3 => Ty::Ref(self.class()),
            4 => Ty::WRef(self.class()),
            5 if d > 0 => Ty::Arr(Box::new(self.ty(d - 1))),
            6 => Ty::Variant,
            7 if d == 2 => match self.ty(1) {
                Ty::Variant => Ty::Variant,
                t => Ty::SRef(Box::new(t)),
            },
            _ => self.s.pick(SIMPLE).clone(),
        }
    }

    /// A type that might convert.
    fn near(&mut self, t: &Ty) -> Ty {
        match (self.s.below(4), t) {
            (0, _) => self.ty(2),
            (1, t) => t.clone(),
            (2, Ty::Ref(_) | Ty::WRef(_)) => Ty::WRef(self.class()),
            (_, Ty::Ref(_) | Ty::WRef(_)) => Ty::Ref(self.class()),
            (2, Ty::SRef(t)) => (**t).clone(),
            (_, Ty::Arr(t)) => match self.near(t) {
                Ty::SRef(_) => Ty::Arr(Box::new(Ty::I32)),
                t => Ty::Arr(Box::new(t)),
            },
            (2, Ty::Variant) => self.ty(2),
            (2, t) => Ty::SRef(Box::new(t.clone())),
            _ => self.ty(2),
        }
    }

    /// The statements deeper in a body; `c` is a condition.
    fn nest(&mut self, body: String, loops: bool) -> String {
        let mut b = body;
        for i in 0..self.s.idx(4) {
            b = match self.s.below(if loops { 9 } else { 4 }) {
                0 => format!("if c {{ {b} }}"),
                1 => format!("if c {{}} else {{ {b} }}"),
                2 => format!("if c {{ let y{i} = 1; P_Int32(0, y{i}); }} else if !c {{ {b} }} else {{ }}"),
                3 => format!("P_Int32(0, 1);\n/* \u{3bb} */ {b}\nP_Int32(1, 1);"),
                4 => format!("while c {{\n{b}\n}}"),
                5 => format!("for y{i} in [1, 2] {{ P_Int32(0, y{i}); {b} }}"),
                6 => format!("switch 1 {{ case 1: {b} break; case 2: default: P_Int32(0, 1); }}"),
                7 => format!("switch 1 {{ case 0: break; default: {b} }}"),
                _ => format!("switch 1 {{ case 0: P_Int32(0, 1); break; case 1:\n\t{b} }}"),
            };
        }
        b
    }

    /// A function with these statements: global, static or of an object (`kind` 3).
    fn host(&mut self, params: &[(&str, String)], ret: Option<&str>, body: String, loops: bool, kind: Option<u64>) -> String {
        let body = self.nest(body, loops);
        let k = self.k;
        let mut ps: Vec<String> = params.iter().map(|(n, t)| format!("{n}: {t}")).collect();
        ps.push("c: Bool".into());
        let ps = ps.join(", ");
        let ret = ret.map_or(String::new(), |r| format!(" -> {r}"));
        let kind = kind.unwrap_or_else(|| self.s.below(4));
        match kind {
            0 => format!("func Z{k}({ps}){ret} {{ {body} }}\n"),
            1 => format!("public static func Z{k}({ps}){ret} {{\n  {body}\n}}\n"),
            2 => format!("class ZC{k} {{\n  public static func Z({ps}){ret} {{ {body} }}\n}}\n"),
            _ => {
                let base = self.class();
                format!("class ZC{k} extends {} {{\n  let zf: Int32;\n  func Z{k}_({ps}){ret} {{ {body} }}\n}}\n", self.w.classes[base].name)
            }
        }
    }

    fn case(&mut self, alone: bool) -> Case {
        let mut c = Case { label: "", decls: vec![], want: None, modifies: false };
        match self.s.weighted(&[24, 8, 8, 10, 30, 16]) {
            0 => self.convert(&mut c),
            1 => self.position(&mut c),
            2 => self.common(&mut c),
            3 => self.operator(&mut c),
            4 => self.body(&mut c, alone),
            _ => self.declaration(&mut c, alone),
        }
        c
    }

    /// A value of one type where another is wanted.
    fn convert(&mut self, c: &mut Case) {
        let (w, k) = (self.w, self.k);
        c.label = "convert";
        let t = self.ty(2);
        let u = self.near(&t);
        let ok = converts(w, &t, &u);
        let (tn, un) = (w.ty(&t), w.ty(&u));
        let a = ex(k, "a");
        let plain = !matches!(u, Ty::SRef(_));
        let params = [("a", tn), ("b", un.clone())];
        c.set(ok, "TYPE_ERR");
        let (body, ret) = match self.s.below(10) {
            0 => (format!("let z: {un} = {a};"), None),
            1 => (format!("b = {a};"), None),
            2 => (format!("return {a};"), Some(un.as_str())),
            3 if plain => (format!("let z: array<{un}> = [b, {a}, b];"), None),
            4 if plain => (format!("let z: array<{un}>; ArrayPush(z, {a});"), None),
            5 if plain => (format!("let z: array<{un}>; P_Bool(0, ArrayContains(z, {a}));"), None),
            6 if plain => (format!("let z: array<{un}>; ArrayInsert(z, 0, {a});"), None),
            7 => {
                c.set(ok, "NO_MATCHING_OVERLOAD");
                let at = self.s.bool();
                c.decls.push(format!("func ZH{k}({}p: {un}, {}) -> Int32 {{ return 1; }}\n", if at { "" } else { "x: Int32, " }, if at { "opt y: String" } else { "y: Bool" }));
                let call = if at { format!("ZH{k}(a)") } else { format!("ZH{k}(1, a, true)") };
                (format!("P_Int32(0, {});", ex(k, &call)), None)
            }
            8 => {
                c.set(ok, "NO_MATCHING_OVERLOAD");
                let stat = self.s.bool();
                c.decls.push(format!("class ZK{k} {{ {} func M(p: {un}) {{ }} }}\n", if stat { "static" } else { "" }));
                if stat {
                    (st(k, &format!("ZK{k}.M(a);")), None)
                } else {
                    (format!("let o = new ZK{k}(); {}", st(k, "o.M(a);")), None)
                }
            }
            9 if plain => {
                c.decls.push(format!("struct ZS{k} {{ let x: Int32; let y: {un}; }}\n"));
                if self.s.bool() {
                    (format!("let z = new ZS{k}(7, {a});"), None)
                } else {
                    (format!("let z: ZS{k}; z.y = {a};"), None)
                }
            }
            _ => (format!("b = {a};"), None),
        };
        let h = self.host(&params, ret, body, true, None);
        c.decls.push(h);
    }

    /// A value where a condition or an index is wanted.
    fn position(&mut self, c: &mut Case) {
        let (w, k) = (self.w, self.k);
        c.label = "position";
        let t = if self.s.chance(1, 4) { self.s.pick(&[Ty::Bool, Ty::I32]).clone() } else { self.ty(2) };
        let a = ex(k, "a");
        let wanted = if self.s.bool() { Ty::Bool } else { Ty::I32 };
        c.set(converts(w, &t, &wanted), "TYPE_ERR");
        let body = if wanted == Ty::Bool {
            match self.s.below(4) {
                0 => format!("if {a} {{ }}"),
                1 => format!("while {a} {{ P_Int32(0, 1); }}"),
                2 => format!("let z = {a} ? 1 : 2;"),
                _ => format!("if c {{ }} else if {a} {{ }} else {{ P_Int32(0, 1); }}"),
            }
        } else {
            match self.s.below(5) {
                0 => format!("let z = xs[{a}];"),
                1 => format!("xs[{a}] = \"\";"),
                2 => format!("ArrayResize(xs, {a});"),
                3 => format!("P_Bool(0, ArrayErase(xs, {a}));"),
                _ => format!("ArrayInsert(xs, {a}, \"x\");"),
            }
        };
        let h = self.host(&[("a", w.ty(&t)), ("xs", "array<String>".into())], None, body, true, None);
        c.decls.push(h);
    }

    /// Two values that must have a type in common.
    fn common(&mut self, c: &mut Case) {
        let (w, k) = (self.w, self.k);
        c.label = "unify";
        let t = self.ty(2);
        let u = self.near(&t);
        c.set(unify(&t, &u), "TYPE_ERR");
        let sref = matches!(t, Ty::SRef(_)) || matches!(u, Ty::SRef(_));
        let body = if sref || self.s.bool() { format!("let z = {};", ex(k, "c ? a : b")) } else { format!("let z = {};", ex(k, "[a, b]")) };
        let h = self.host(&[("a", w.ty(&t)), ("b", w.ty(&u))], None, body, true, None);
        c.decls.push(h);
    }

    fn operator(&mut self, c: &mut Case) {
        let (w, k) = (self.w, self.k);
        c.label = "operator";
        let t = self.ty(2);
        let u = self.near(&t);
        let ops = ["+", "-", "*", "/", "%", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "&=", "|="];
        let h = if self.s.chance(1, 4) {
            let n = w.ty(&t);
            let (op, ok) = match self.s.below(3) {
                0 => ("-", NUMS.contains(&n.as_str())),
                1 => ("~", NUMS.contains(&n.as_str()) && is_int(&n)),
                _ => ("!", t == Ty::Bool),
            };
            c.set(ok, "NO_MATCHING_OVERLOAD");
            self.host(&[("a", n)], None, format!("let z = {};", ex(k, &format!("{op}a"))), true, None)
        } else {
            let op = *self.s.pick(&ops);
            let ok = overloads(op).iter().any(|(l, r)| operand(w, &t, l) && operand(w, &u, r));
            c.set(ok, "NO_MATCHING_OVERLOAD");
            self.host(&[("a", w.ty(&t)), ("b", w.ty(&u))], None, st(k, &format!("a {op} b;")), true, None)
        };
        c.decls.push(h);
    }

    /// Other mistakes in the body of a function.
    fn body(&mut self, c: &mut Case, alone: bool) {
        let (w, k) = (self.w, self.k);
        c.label = "body";
        let cl = self.class();
        let cn = w.classes[cl].name.clone();
        let ok = self.s.chance(1, 3);
        let h = match self.s.below(if alone { 27 } else { 24 }) {
            0 => {
                c.set(ok, "UNRESOLVED_REF");
                let a = ex(k, if ok { "a" } else { "nope" });
                let b = match self.s.below(5) {
                    0 => format!("let z = {a};"),
                    1 => format!("P_Int32(0, {a});"),
                    2 => format!("a += {a};"),
                    3 => format!("{a} = 3;"),
                    _ => format!("let z = s\"x\\({a})\";"),
                };
                self.host(&[("a", "Int32".into())], None, b, true, None)
            }
            1 => {
                // where a variable can be seen
                c.want = Some("UNRESOLVED_REF");
                let z = ex(k, "y");
                let b = match self.s.below(6) {
                    0 => format!("if c {{ let y = 1; P_Int32(0, y); }} P_Int32(0, {z});"),
                    1 => format!("if c {{ let y = 1; }} else {{ P_Int32(0, {z}); }}"),
                    2 => format!("P_Int32(0, {z}); let y = 1;"),
                    3 => format!("for y in [1] {{ }} P_Int32(0, {z});"),
                    4 => format!("switch 1 {{ case 1: let y = 1; break; case 2: P_Int32(0, {z}); break; }}"),
                    _ => format!("while c {{ let y = 1; }} let z = {z};"),
                };
                self.host(&[], None, b, true, None)
            }
            2 => {
                c.set(ok, "UNRESOLVED_FN");
                let name = if ok { "P_Int32" } else { *self.s.pick(&["Nope", "p_Int32", "P_Int3", "P_Int322"]) };
                self.host(&[], None, st(k, &format!("{name}(0, 1);")), true, None)
            }
            3 => {
                // members of a class are those of its bases, not of what derives from it
                let (f, m) = (format!("zf{k}"), format!("ZM{k}"));
                c.decls.push(format!("class ZA{k} extends {cn} {{ let a{f}: Int32; func A{m}() {{ }} }}\n"));
                c.decls.push(format!("class ZB{k} extends ZA{k} {{ let b{f}: Int32; func B{m}() {{ }} }}\n"));
                let of = if self.s.bool() { "A" } else { "B" };
                let on = if self.s.bool() { "A" } else { "B" };
                let ok = !(on == "A" && of == "B");
                let low = of.to_lowercase();
                let wr = if self.s.bool() { "ref" } else { "wref" };
                let b = if self.s.bool() {
                    c.set(ok, "UNRESOLVED_MEMBER");
                    let p = ex(k, &format!("o.{low}{f}"));
                    if self.s.bool() {
                        format!("let z = {p};")
                    } else {
                        format!("{p} = 3;")
                    }
                } else {
                    c.set(ok, "UNRESOLVED_METHOD");
                    st(k, &format!("o.{of}{m}();"))
                };
                self.host(&[("o", format!("{wr}<Z{on}{k}>"))], None, b, true, None)
            }
            4 => {
                c.decls.push(format!("enum ZE{k} {{ A = 1, B = 2 }}\nstruct ZS{k} {{ let x: Int32; }}\n"));
                c.set(ok, "UNRESOLVED_MEMBER");
                let b = if self.s.bool() {
                    format!("let z = {};", ex(k, &format!("ZE{k}.{}", if ok { "B" } else { "C" })))
                } else {
                    format!("let y: ZS{k}; let z = {};", ex(k, if ok { "y.x" } else { "y.X" }))
                };
                self.host(&[], None, b, true, None)
            }
            5 => {
                let t = self.ty(2);
                let mut inner = &t;
                while let Ty::SRef(x) = inner {
                    inner = x;
                }
                let call = self.s.bool();
                c.want = Some(match (inner, call) {
                    (Ty::Ref(_) | Ty::WRef(_) | Ty::Struct(_), true) => "UNRESOLVED_METHOD",
                    (Ty::Ref(_) | Ty::WRef(_) | Ty::Struct(_) | Ty::Enum(_), false) => "UNRESOLVED_MEMBER",
                    _ => "INVALID_MEMBER_ACCESS",
                });
                let b = if call { st(k, "a.Nope(1);") } else { format!("let z = {};", ex(k, "a.nope")) };
                self.host(&[("a", w.ty(&t))], None, b, true, None)
            }
            6 => {
                c.set(ok, "UNRESOLVED_TYPE");
                let t = if ok { cn.as_str() } else { "Nope" };
                let b = match self.s.below(5) {
                    0 => st(k, &format!("let z: ref<{t}>;")),
                    1 => st(k, &format!("let z: array<wref<{t}>>;")),
                    2 if !ok => format!("let z = {};", ex(k, "new Nope()")),
                    3 if !ok => format!("let z = {};", ex(k, "Cast<Nope>(1)")),
                    _ => format!("let z = {};", ex(k, &format!("o as {t}"))),
                };
                self.host(&[("o", "ref<IScriptable>".into())], None, b, true, None)
            }
            7 => {
                let inst = self.s.bool();
                c.set(inst, "UNEXPECTED_THIS");
                let a = ex(k, "this");
                let b = match self.s.below(4) {
                    0 => format!("let z = {a};"),
                    1 => format!("P_Ref(0, {a});"),
                    2 => format!("let z: ref<IScriptable> = {a};"),
                    _ => st(k, "this.zf = 1;"),
                };
                let kind = if inst { 3 } else { self.s.below(3) };
                self.host(&[], None, b, true, Some(kind))
            }
            8 => {
                c.want = Some("TYPE_ANN_REQUIRED");
                let b = if self.s.bool() { st(k, "let z;") } else { format!("let z = {};", ex(k, "[]")) };
                self.host(&[], None, b, true, None)
            }
            9 => {
                // a case that goes on into the next one
                let n = self.s.size(2, 4);
                let bad = self.s.idx(n);
                let ok = bad == n - 1 || self.s.chance(1, 4);
                c.set(ok, "OTHER");
                let mut b = String::from("switch a {");
                for i in 0..n {
                    let m = if i == bad { ex(k, &i.to_string()) } else { i.to_string() };
                    let end = match self.s.below(4) {
                        _ if i == bad && !ok => *self.s.pick(&["P_Int32(0, 1);", "if c { break; }", "while c { break; }", "let y = 1;"]),
                        0 => "",
                        1 => "break;",
                        2 => "P_Int32(0, 1); break;",
                        _ => "P_Int32(0, 1); return;",
                    };
                    b += &format!(" case {m}: {end}");
                }
                if self.s.bool() {
                    b += " default: P_Int32(0, 3);";
                }
                self.host(&[("a", "Int32".into())], None, b + " }", true, None)
            }
            10 => {
                // parts of values that are nowhere
                c.decls.push(format!("struct ZS{k} {{ let x: Int32; let y: array<Int32>; }}\nclass ZK{k} {{ let s: ZS{k}; }}\n"));
                c.decls.push(format!("func ZMS{k}() -> ZS{k} {{ return new ZS{k}(1, [2]); }}\nfunc ZMA{k}() -> array<Int32> {{ return [1]; }}\n"));
                c.set(ok, "OTHER");
                let (sv, av) = if ok { ("s".to_owned(), "xs".to_owned()) } else { (ex(k, &format!("ZMS{k}()")), ex(k, &format!("ZMA{k}()"))) };
                let b = match self.s.below(8) {
                    0 => format!("let z = {sv}.x;"),
                    1 => format!("let z = {av}[0];"),
                    2 => format!("let z = ArraySize({av});"),
                    3 => format!("let z = ArrayContains({av}, 1);"),
                    4 => format!("let z = ArrayLast({av});"),
                    5 => format!("let z = ArrayCount({av}, 1);"),
                    6 => format!("let z = o.s.x + {sv}.x;"),
                    _ => format!("P_Int32(0, c ? 1 : {av}[0]);"),
                };
                self.host(&[("s", format!("ZS{k}")), ("xs", "array<Int32>".into()), ("o", format!("ref<ZK{k}>"))], None, b, true, None)
            }
            11 => {
                let abs = self.s.bool();
                c.decls.push(format!("{}class ZK{k} {{ }}\n", if abs { "abstract " } else { "" }));
                c.set(!abs, "NEW_ABSTRACT");
                self.host(&[], None, format!("let z = {};", ex(k, &format!("new ZK{k}()"))), true, None)
            }
            12 => {
                let n = self.s.idx(4);
                c.decls.push(format!("struct ZS{k} {{ let x: Int32; let y: String; }}\n"));
                c.set(n == 2, "NO_MATCHING_OVERLOAD");
                let args = ["1", "\"x\"", "2", "3"][..n].join(", ");
                self.host(&[], None, format!("let z = {};", ex(k, &format!("new ZS{k}({args})"))), true, None)
            }
            13 => {
                c.decls.push(format!("class ZK{k} {{ let f: Int32; }}\n"));
                c.set(ok, "NO_MATCHING_OVERLOAD");
                self.host(&[], None, format!("let z = {};", ex(k, &format!("new ZK{k}({})", if ok { "" } else { "1" }))), true, None)
            }
            14 => {
                c.want = Some("UNSUPPORTED");
                let t = match self.s.below(3) {
                    0 if !w.enums.is_empty() => w.enums[0].name.clone(),
                    1 => "String".into(),
                    _ => "Int32".into(),
                };
                self.host(&[], None, format!("let z = {};", ex(k, &format!("new {t}()"))), true, None)
            }
            15 => {
                let void = self.s.bool();
                let valued = self.s.bool();
                c.set(void != valued, "TYPE_ERR");
                self.host(&[], (!void).then_some("Int32"), st(k, if valued { "return 3;" } else { "return;" }), true, None)
            }
            16 => {
                // as many arguments as there are parameters, but for optional ones
                let (req, opt) = (self.s.idx(4), self.s.idx(3));
                let n = self.s.idx(req + opt + 3);
                c.set(req <= n && n <= req + opt, "NO_MATCHING_OVERLOAD");
                let mut ps: Vec<String> = (0..req).map(|i| format!("x{i}: Int32")).collect();
                ps.extend((0..opt).map(|i| format!("opt y{i}: Int32")));
                let args = (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(", ");
                let b = match self.s.below(3) {
                    0 => {
                        c.decls.push(format!("func ZH{k}({}) {{ }}\n", ps.join(", ")));
                        st(k, &format!("ZH{k}({args});"))
                    }
                    1 => {
                        c.decls.push(format!("class ZK{k} {{ static func M({}) {{ }} }}\n", ps.join(", ")));
                        st(k, &format!("ZK{k}.M({args});"))
                    }
                    _ => {
                        c.decls.push(format!("class ZK{k} {{ func M({}) {{ }} }}\n", ps.join(", ")));
                        format!("let o = new ZK{k}(); {}", st(k, &format!("o.M({args});")))
                    }
                };
                self.host(&[], None, b, true, None)
            }
            17 => {
                // what the built-in functions take
                let t = self.ty(2);
                let arr = matches!(t, Ty::Arr(_));
                let (f, fits) = match self.s.below(11) {
                    0 => ("ArraySize", arr),
                    1 => ("ArrayLast", arr),
                    2 => ("ArrayPop", arr),
                    3 => ("ArrayClear", arr),
                    4 => ("EnumInt", matches!(t, Ty::Enum(_))),
                    5 => ("IsDefined", matches!(t, Ty::Ref(_) | Ty::WRef(_) | Ty::Variant)),
                    6 => ("Deref", matches!(t, Ty::SRef(_))),
                    7 => ("VariantTypeName", t == Ty::Variant),
                    8 => ("VariantIsArray", t == Ty::Variant),
                    9 => ("VariantIsRef", t == Ty::Variant),
                    _ => ("FromVariant<Int32>", t == Ty::Variant),
                };
                let n = if self.s.chance(1, 5) { self.s.idx(3) } else { 1 };
                if n == 1 {
                    c.set(fits, "TYPE_ERR");
                } else {
                    c.want = Some("NO_MATCHING_OVERLOAD");
                }
                let args = ["a", "1"][..n].join(", ");
                self.host(&[("a", w.ty(&t))], None, st(k, &format!("{f}({args});")), true, None)
            }
            18 => {
                let t = self.ty(2);
                c.set(matches!(t, Ty::Enum(_)), "TYPE_ERR");
                self.host(&[], None, format!("let z = {};", ex(k, &format!("IntEnum<{}>(1)", w.ty(&t)))), true, None)
            }
            19 => {
                let t = self.ty(2);
                c.set(matches!(t, Ty::Arr(_)), "TYPE_ERR");
                self.host(&[("a", w.ty(&t))], None, st(k, "for x in a { P_Int32(0, 1); }"), true, None)
            }
            20 => {
                let t = self.ty(2);
                c.set(matches!(t, Ty::Arr(_)), "UNSUPPORTED");
                let b = if self.s.bool() { format!("let z = {};", ex(k, "a[0]")) } else { format!("P_Variant(0, {});", ex(k, "a[0]")) };
                self.host(&[("a", w.ty(&t))], None, b, true, None)
            }
            21 => {
                // nothing is no value
                c.decls.push(format!("func ZV{k}() {{ }}\n"));
                c.want = Some("*");
                let v = ex(k, &format!("ZV{k}()"));
                let b = match self.s.below(4) {
                    0 => st(k, &format!("let z = ZV{k}();")),
                    1 => format!("let z: Int32 = {v};"),
                    2 => st(k, &format!("P_Int32(0, ZV{k}());")),
                    _ => format!("if {v} {{ }}"),
                };
                self.host(&[], None, b, true, None)
            }
            22 => {
                // overloads: only what one of them takes
                c.decls.push(format!("func ZO{k}(x: Int32) {{ }}\nfunc ZO{k}(x: String, y: Int32) {{ }}\nfunc ZO{k}(x: String, y: Bool) {{ }}\n"));
                let (a, fits) = *self.s.pick(&[("1", true), ("\"a\", 1", true), ("\"a\", true", true), ("\"a\"", false), ("1, 1", false), ("\"a\", \"b\"", false), ("", false), ("true", false), ("\"a\", 1, 1", false)]);
                c.set(fits, "NO_MATCHING_OVERLOAD");
                self.host(&[], None, st(k, &format!("ZO{k}({a});")), true, None)
            }
            23 => {
                // literals take on a wider type where one is wanted
                let (l, t) = *self.s.pick(LITS);
                let u = if self.s.chance(1, 3) { t } else { self.s.pick(LITS).1 };
                c.set(literal_fits(t, u), "TYPE_ERR");
                let a = ex(k, l);
                let b = match self.s.below(4) {
                    0 => format!("let z: {u} = {a};"),
                    1 => format!("a = {a};"),
                    2 => format!("let z: array<{u}> = [a, {a}];"),
                    _ => format!("let z: array<{u}>; ArrayPush(z, {a});"),
                };
                self.host(&[("a", u.into())], None, b, true, None)
            }
            24 => {
                let stat = self.s.bool();
                let by_obj = self.s.bool();
                c.decls.push(format!("class ZK{k} {{ {} func M(x: Int32) {{ }} }}\n", if stat { "static" } else { "" }));
                c.set(stat != by_obj, if by_obj { "INVALID_STATIC_USE" } else { "INVALID_NONSTATIC_USE" });
                let b = if by_obj { format!("let o = new ZK{k}(); {}", st(k, "o.M(1);")) } else { st(k, &format!("ZK{k}.M(1);")) };
                self.host(&[], None, b, true, None)
            }
            25 => {
                c.want = Some("UNSUPPORTED");
                self.host(&[], None, st(k, "break;"), false, None)
            }
            _ => {
                c.want = Some("UNSUPPORTED");
                let t = match self.s.below(3) {
                    0 if !w.structs.is_empty() => w.structs[0].name.clone(),
                    1 if !w.enums.is_empty() => w.enums[0].name.clone(),
                    _ => "Int32".into(),
                };
                self.host(&[("o", "ref<IScriptable>".into())], None, format!("let z = {};", ex(k, &format!("o as {t}"))), true, None)
            }
        };
        c.decls.push(h);
    }

    /// Outside functions.
    fn declaration(&mut self, c: &mut Case, alone: bool) {
        let (w, k) = (self.w, self.k);
        c.label = "declaration";
        let cl = self.class();
        let cn = w.classes[cl].name.clone();
        let ok = self.s.chance(1, 3);
        let same_params = |a: &[Param], b: &[Param]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_id(&a.ty, &b.ty));
        let extra = || Param { name: "extra".into(), ty: Ty::I32, out: false, opt: false };
        let d = match self.s.below(if alone { 18 } else { 16 }) {
            0 => {
                c.set(ok, "UNSUPPORTED");
                format!("struct ZS{k} {{ let x: Int32; {} }}\n", st(k, &format!("public {} func M() {{ }}", if ok { "static" } else { "" })))
            }
            1 => {
                c.want = Some("UNSUPPORTED");
                st(k, &format!("public let z{k}: Int32;"))
            }
            2 => {
                let n = self.s.size(1, 4);
                c.set(ok, "UNSUPPORTED");
                let mut text = String::new();
                for i in 0..n {
                    let base = if ok && i == n - 1 { cn.clone() } else { format!("ZR{k}_{}", (i + 1) % n) };
                    text += &format!("class ZR{k}_{i} extends {base} {{ }}\n");
                }
                st(k, &text)
            }
            3 => {
                c.set(ok, "SYM_REDEFINITION");
                let one = if self.s.bool() { "class" } else { "struct" };
                let two = if self.s.bool() { "class" } else { "struct" };
                let other = if ok { "_" } else { "" };
                st(k, &format!("{one} ZD{k} {{ let a: Int32; }}\nenum ZDE{k} {{ A = 1 }}\n{two} ZD{k}{other} {{ let b: Int32; }}\n"))
            }
            4 => {
                let abs = self.s.bool();
                let native = self.s.chance(1, 4);
                match self.s.below(3) {
                    0 => {
                        c.set(native, "MISSING_BODY");
                        st(k, &format!("public static {} func Z{k}(a: Int32) -> Int32;\n", if native { "native" } else { "" }))
                    }
                    1 => {
                        c.set(!native, "UNEXPECTED_BODY");
                        st(k, &format!("public static {} func Z{k}(a: Int32) -> Int32 {{ return 1; }}\n", if native { "native" } else { "" }))
                    }
                    _ => {
                        c.set(abs, "MISSING_BODY");
                        format!("{} class ZC{k} {{ {} }}\n", if abs { "abstract" } else { "" }, st(k, "public func M() -> Int32;"))
                    }
                }
            }
            5 => {
                let native = self.s.bool();
                c.set(native, "UNEXPECTED_NATIVE");
                let m = if self.s.bool() { "native let f: Int32;" } else { "native func M() -> Int32;" };
                format!("{} class ZC{k} {{ {} }}\n", if native { "native" } else { "" }, st(k, m))
            }
            6 => {
                fn fits(t: &Ty) -> bool {
                    match t {
                        Ty::Str | Ty::Variant | Ty::Res => false,
                        Ty::Arr(t) | Ty::SRef(t) => fits(t),
                        _ => true,
                    }
                }
                let t = self.ty(2);
                c.set(fits(&t), "INVALID_PERSISTENT");
                format!("class ZC{k} {{ let a: Int32; {} let b: String; }}\n", st(k, &format!("persistent let f: {};", w.ty(&t))))
            }
            7 => {
                c.set(ok, "UNRESOLVED_TYPE");
                let t = if ok { cn.as_str() } else { "Nope" };
                match self.s.below(6) {
                    0 => st(k, &format!("func Z{k}(a: Int32, b: ref<{t}>) {{ }}\n")),
                    1 => st(k, &format!("func Z{k}() -> array<wref<{t}>> {{ }}\n")),
                    2 => format!("class ZC{k} {{ {} }}\n", st(k, &format!("let f: ref<{t}>;"))),
                    3 => format!("struct ZC{k} {{ {} }}\n", st(k, &format!("let f: array<wref<{t}>>;"))),
                    4 => format!("class ZC{k} {{ {} }}\n", st(k, &format!("func M(a: wref<{t}>) {{ }}"))),
                    _ => st(k, &format!("class ZC{k} extends {t} {{ }}\n")),
                }
            }
            8 => {
                c.modifies = true;
                c.set(ok, "UNRESOLVED_REF");
                let t = if ok { cn.as_str() } else { "Nope" };
                match self.s.below(2) {
                    0 => st(k, &format!("@addMethod({t})\npublic func ZM{k}() {{ }}\n")),
                    _ => st(k, &format!("@addField({t})\npublic let zf{k}: Int32;\n")),
                }
            }
            9 => {
                c.modifies = true;
                c.want = Some("UNRESOLVED_TYPE");
                let t = if w.enums.is_empty() || self.s.bool() { "P_Int32".to_owned() } else { w.enums[0].name.clone() };
                match self.s.below(4) {
                    0 => st(k, &format!("@addMethod({t})\npublic func ZM{k}() {{ }}\n")),
                    1 => st(k, &format!("@wrapMethod({t})\npublic func ZM{k}() {{ }}\n")),
                    2 => st(k, &format!("@replaceMethod({t})\npublic func ZM{k}() {{ }}\n")),
                    _ => st(k, &format!("@addField({t})\npublic let zf{k}: Int32;\n")),
                }
            }
            10 => {
                c.modifies = true;
                c.want = Some("INVALID_ANN_USE");
                let a = *self.s.pick(&["", "1", "\"x\"", "1 + 2"]);
                match self.s.below(5) {
                    0 => st(k, &format!("@addMethod({a})\npublic func ZM{k}() {{ }}\n")),
                    1 => st(k, &format!("@wrapMethod({a})\npublic func ZM{k}() {{ }}\n")),
                    2 => st(k, &format!("@replaceMethod({a})\npublic func ZM{k}() {{ }}\n")),
                    3 => st(k, &format!("@addField({a})\npublic let zf{k}: Int32;\n")),
                    _ => {
                        let p = *self.s.pick(&["", "\"a\"", "\"a\", 1", "\"a\", \"b\", \"c\"", "n\"a\", \"b\""]);
                        st(k, &format!("class ZC{k} {{ @runtimeProperty({p})\n let x: Int32; }}\n"))
                    }
                }
            }
            11 => {
                // a method to modify is one declared by the class itself, with those types
                c.modifies = true;
                let fs: Vec<_> = w.funcs.iter().filter(|f| f.owner.is_some() && f.body.is_some()).collect();
                let ann = if self.s.bool() { "wrapMethod" } else { "replaceMethod" };
                if fs.is_empty() {
                    c.want = Some("UNRESOLVED_METHOD");
                    c.decls.push(st(k, &format!("@{ann}({cn})\npublic func Nope() {{ }}\n")));
                    return;
                }
                let mut g = (*self.s.pick(&fs)).clone();
                let mut on = g.owner.unwrap();
                match self.s.below(5) {
                    0 => g.name += "x",
                    1 => g.params.push(extra()),
                    2 if !g.params.is_empty() => {
                        g.params.pop();
                    }
                    3 if !g.params.is_empty() => {
                        let i = self.s.idx(g.params.len());
                        g.params[i].ty = self.ty(1);
                    }
                    _ => on = self.class(),
                }
                let found = w.funcs.iter().find(|h| h.owner == Some(on) && h.name == g.name && same_params(&h.params, &g.params));
                c.set(found.is_some(), "UNRESOLVED_METHOD");
                g.body = Some(vec![]);
                g.short = false;
                if let Some(h) = found {
                    g.static_ = h.static_;
                    g.ret = h.ret.clone();
                }
                st(k, &w.func(&g, 0, &format!("@{ann}({})\n", w.classes[on].name)))
            }
            12 => {
                c.modifies = true;
                let fs: Vec<_> = w.funcs.iter().filter(|f| f.owner.is_none()).collect();
                let mut g = (*self.s.pick(&fs)).clone();
                if !ok {
                    match self.s.below(3) {
                        0 => g.name = "Nope".into(),
                        1 => g.params.push(extra()),
                        _ => {
                            let i = self.s.idx(g.params.len() + 1);
                            if i < g.params.len() {
                                g.params[i].ty = self.ty(1);
                            }
                        }
                    }
                }
                let found = w.funcs.iter().any(|h| h.owner.is_none() && h.name == g.name && same_params(&h.params, &g.params));
                c.set(found, "UNRESOLVED_FN");
                g.body = Some(vec![]);
                g.short = false;
                st(k, &w.func(&g, 0, "@replaceGlobal()\n"))
            }
            13 => {
                c.modifies = true;
                c.want = Some("UNSUPPORTED");
                st(k, &format!("@wrapMethod({cn})\npublic native func ZM{k}() -> Void;\n"))
            }
            14 => {
                // defaults of fields are checked like assignments
                let (l, t) = *self.s.pick(LITS);
                let u = if self.s.chance(1, 3) { t } else { self.s.pick(LITS).1 };
                c.set(literal_fits(t, u), "TYPE_ERR");
                format!("class ZC{k} {{ let a: Int32; let f: {u} = {}; }}\n", ex(k, l))
            }
            15 => {
                // members with conditions that do not hold are not there
                let there = self.s.bool();
                c.set(there, "UNRESOLVED_METHOD");
                let cond = if there { "true || false" } else { "!true" };
                c.decls.push(format!("class ZC{k} {{ @if({cond})\n func M() {{ }} }}\n"));
                format!("func ZN{k}() {{ let o = new ZC{k}(); {} }}\n", st(k, "o.M();"))
            }
            16 => {
                c.want = Some("INVALID_CONSTANT");
                let v = *self.s.pick(&["1 + 2", "P_Int32(0, 1)", "this.a", "[1]", "true ? 1 : 2", "new Nope()"]);
                format!("class ZC{k} {{ let a: Int32; let f: Int32 = {}; }}\n", st(k, v))
            }
            _ => {
                c.want = Some("OTHER");
                let v = *self.s.pick(&["1", "\"x\"", "x", "Nope()", "ModuleExists(1)", "ModuleExists()", "true + false", "-true", "a.b", "true == false"]);
                st(k, &format!("@if({v})\nfunc Z{k}() {{ }}\n"))
            }
        };
        c.decls.push(d);
    }
}

/// What is shown of a diagnostic: where, the line, and a mark under the place.
fn shown(d: &Diagnostic, files: &Files, sources: &[(String, String)]) -> R {
    let mut text = String::new();
    if let Err(p) = pbt::catch(|| d.display(files, &mut text)) {
        return fail("display-panic", format!("showing {d:?} panics: {p}"));
    }
    let low = usize::from(d.span().low);
    let high = usize::from(d.span().high);
    let mut start = 0;
    for (path, src) in sources {
        if low <= start + src.len() {
            let at = low - start;
            let line = src[..at].matches('\n').count() + 1;
            let begin = src[..at].rfind('\n').map_or(0, |i| i + 1);
            let col = src[begin..at].chars().count() + 1;
            let full = src[begin..].split('\n').next().unwrap().trim_end().replace('\t', " ");
            let code = if let Diagnostic::CompileError(c, _) = d { format!("[{}] ", c.code()) } else { String::new() };
            let head = format!("{code}At {path}:{line}:{col}:");
            let mut lines = text.lines();
            ensure!(lines.next() == Some(&head), "head", "shown as\n{text}\ninstead of {head}\n{}", listing(sources));
            ensure!(lines.next() == Some(&full), "line", "shown as\n{text}\ninstead of the line {full}\n{}", listing(sources));
            let marks = lines.next().unwrap_or("");
            let inner = &src[at..(high - start).min(src.len())];
            let n = if inner.contains('\n') { 3 } else { inner.chars().count().max(1) };
            let want = format!("{}{}", " ".repeat(col - 1), "^".repeat(n));
            ensure!(marks == want, "marks", "shown as\n{text}\nwith {marks:?} instead of {want:?}");
            return Ok(());
        }
        start += src.len() + 1;
    }
    fail("no-file", format!("{d:?} is in no file"))
}

fn mistakes(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut g = G::new(s, Opts { max_families: 4, max_stmts: 3, depth: 2 });
    g.world();
    let w = g.w;
    let n = s.size(1, 5);
    let mut cases = vec![];
    for k in 0..n {
        let c = D { s, w: &w, k }.case(n == 1);
        cases.push(c);
    }
    let mut pool = base::base();
    let world = shuffled(s, w.decls());
    let mut decls: Vec<String> = cases.iter().flat_map(|c| c.decls.iter().cloned()).collect();
    let first = cases.iter().any(|c| c.modifies) || s.bool();
    let mut before = vec![];
    if first {
        before = into_files(s, world);
        compile_ok(&mut pool, &before)?;
    } else {
        decls.extend(world);
    }
    let decls = shuffled(s, decls);
    let files = into_files(s, decls);
    let all: Vec<_> = before.iter().chain(&files).cloned().collect();
    ctx.sample(|| listing(&files));
    for c in &cases {
        ctx.label(c.label);
    }
    let wrong = cases.iter().filter(|c| c.want.is_some()).count();
    ctx.nontrivial_if(wrong > 0);
    let map = base::files(&files);
    let diags = match pbt::catch(|| base::compile(&mut pool, &files)) {
        Err(p) => return fail("panic", format!("compiling panicked: {p}\n{}", listing(&all))),
        Ok(Err(e)) => match Diagnostic::from_error(e) {
            Ok(d) => {
                // nothing else is reported, so it has to be the only mistake
                ensure!(wrong <= 1, "hidden", "{d:?} hides other mistakes\n{}", listing(&all));
                vec![d]
            }
            Err(e) => return fail("internal", format!("compiling fails with {e:?}\n{}", listing(&all))),
        },
        Ok(Ok(o)) => o.into_diagnostics(),
    };
    for d in &diags {
        shown(d, &map, &files)?;
    }
    let fatal: Vec<&Diagnostic> = diags.iter().filter(|d| d.is_fatal()).collect();
    let mut hit = vec![0; n];
    for d in &fatal {
        let low = usize::from(d.span().low);
        let mut start = 0;
        let mut of = None;
        for (_, src) in &files {
            for k in 0..n {
                if let (Some(a), Some(b)) = (src.find(&format!("/*<{k}*/")), src.find(&format!("/*>{k}*/"))) {
                    if start + a <= low && low <= start + b {
                        of = Some(k);
                    }
                }
            }
            start += src.len() + 1;
        }
        let Some(k) = of else {
            return fail("elsewhere", format!("{d} is reported at {low}, where no mistake is: {:?}\n{}", cases.iter().map(|c| (c.label, c.want)).collect::<Vec<_>>(), listing(&all)));
        };
        let Some(code) = cases[k].want else {
            return fail(format!("rejected-{}", cases[k].label), format!("{d} is reported for case {k}, which is right\n{}", listing(&all)));
        };
        // one mistake may bring others with it
        if code == "*" || d.code() == code {
            hit[k] += 1;
        }
    }
    for (k, c) in cases.iter().enumerate() {
        if let Some(code) = c.want {
            ensure!(hit[k] >= 1, format!("accepted-{}", c.label), "the mistake {k} ({code}) is not reported, only {fatal:?}\n{}", listing(&all));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C47",
        rule: "the program contains at least one mistake",
        level: "exploration",
        assumptions: &[],
        subs: vec![Sub { name: "mistakes", quick: 1500, thorough: 60_000, run: mistakes }],
    }]
}

/// Functions are told apart by the names of their parameters' types, in which `ref` and `wref` do not show.
fn same_id(a: &Ty, b: &Ty) -> bool {
    match (a, b) {
        (Ty::Ref(a) | Ty::WRef(a), Ty::Ref(b) | Ty::WRef(b)) => a == b,
        (Ty::Arr(a), Ty::Arr(b)) | (Ty::SRef(a), Ty::SRef(b)) => same_id(a, b),
        _ => a == b,
    }
}

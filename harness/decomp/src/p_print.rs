use pbt::{ensure, ensure_eq, fail, Ctx, Prop, Src, Sub, R};
use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::{Code, Instr, Offset};
use redscript::decode::Decode;
use redscript::definition::*;
use redscript_decompiler::files::FileIndex;
use redscript_decompiler::print::{write_definition, OutputMode};
use redscript_decompiler::Decompiler;

use crate::decl::{self, PClass, PField, PFun, PMember};
use crate::env::*;
use crate::p_decomp::{class_of, show};
use crate::text::{norms, Parser};
use crate::tree::{self, *};

pub fn print<A>(pool: &ConstantPool, idx: PoolIndex<A>, depth: usize, mode: OutputMode) -> Result<String, pbt::Fail> {
    let def = pool.definition(idx).or_else(|e| fail("pool", e.to_string()))?;
    let mut out = vec![];
    write_definition(&mut out, def, pool, depth, mode).or_else(|e| fail("print", format!("printing failed: {e}")))?;
    String::from_utf8(out).or_else(|e| fail("utf-8", e.to_string()))
}

fn parsed<A>(text: &str, f: impl FnOnce(&mut Parser) -> Result<A, String>) -> Result<A, pbt::Fail> {
    let r = (|| {
        let mut p = Parser::new(text)?;
        let v = f(&mut p)?;
        decl::end(&p)?;
        Ok::<A, String>(v)
    })();
    r.or_else(|e| fail("unreadable", format!("the printed text cannot be read back: {e}\n{text}")))
}

fn code(s: &mut Src, c: &mut Ctx, with_flow: bool) -> R {
    let mut env = Env::new(s);
    let class = class_of(s);
    let fuel = s.size(1, if with_flow { 60 } else { 40 });
    let mut em = Emit::new(s, &mut env, class, true, fuel);
    if with_flow {
        em.block(s, 0, None);
    } else {
        for _ in 0..s.size(1, 4) {
            if s.bool() {
                em.assign(s);
            } else {
                em.expr(s, 0);
            }
        }
    }
    let (idx, stats) = em.finish();
    let verbose = s.bool();
    let depth = s.idx(3);
    let fun = env.pool.function(idx).or_else(|e| fail("pool", e.to_string()))?;
    let def = env.pool.definition(idx).or_else(|e| fail("pool", e.to_string()))?;
    let ast = Decompiler::decompiled(fun, def, &env.pool).or_else(|e| fail("error", e.to_string()))?;
    let ast = tree::seq(&ast);
    let text = print(&env.pool, idx, depth, OutputMode::Code { verbose })?;
    let got = parsed(&text, decl::function)?;
    let want = norms(&ast, verbose);
    let have = norms(&got.body.unwrap_or_default(), true);
    if want != have {
        let at = have.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(have.len().min(want.len()));
        return fail(
            "meaning",
            format!(
                "statement {at} reads back as\n  {:?}\ninstead of\n  {:?}\nfrom the text\n{text}",
                have.get(at),
                want.get(at)
            ),
        );
    }
    c.nontrivial_if(stats.ops >= 2 || stats.exprs >= 6);
    if verbose {
        c.label("verbose");
    }
    c.sample(|| text.clone());
    Ok(())
}

fn code_straight(s: &mut Src, c: &mut Ctx) -> R {
    code(s, c, false)
}

fn code_flow(s: &mut Src, c: &mut Ctx) -> R {
    code(s, c, true)
}

// ---- declarations ----------------------------------------------------------------------------

struct Decls {
    pool: ConstantPool,
    types: Vec<(PoolIndex<Type>, String)>,
    next: i32,
}

fn ident(s: &mut Src, prefix: &str, n: i32) -> String {
    let tail: String = (0..s.idx(4)).map(|_| *s.pick(&['a', 'Z', '_', '7'])).collect();
    format!("{prefix}{n}{tail}")
}

/// Usually fewer than `n`, rarely up to `max`.
fn few(s: &mut Src, n: usize, max: usize) -> usize {
    if s.chance(1, 120) {
        s.big(max)
    } else {
        s.idx(n)
    }
}

const VIS: [Visibility; 3] = [Visibility::Public, Visibility::Protected, Visibility::Private];

fn vis(s: &mut Src) -> (Visibility, String) {
    let k = s.idx(3);
    (VIS[k], ["public", "protected", "private"][k].to_owned())
}

impl Decls {
    fn new(s: &mut Src) -> Decls {
        let mut pool = ConstantPool::default();
        pool.names.add("<filler>".into());
        pool.reserve::<Definition>();
        let mut d = Decls {
            pool,
            types: vec![],
            next: 0,
        };
        for n in ["Int32", "Bool", "gameObject"] {
            let name = d.pool.names.add(n.into());
            let kind = if n == "gameObject" { Type::Class } else { Type::Prim };
            let idx = d.pool.add_definition(Definition::type_(name, kind));
            d.types.push((idx, n.to_owned()));
        }
        let deep = s.chance(1, 60);
        let ntypes = if deep { s.big(40) } else { s.size(1, 8) };
        for i in 0..ntypes {
            let (inner, pretty) = if deep && s.chance(3, 4) { d.types[d.types.len() - 1].clone() } else { s.pick(&d.types).clone() };
            let (ty, pretty) = match s.below(5) {
                0 => (Type::Ref(inner), format!("ref<{pretty}>")),
                1 => (Type::WeakRef(inner), format!("wref<{pretty}>")),
                2 => (Type::Array(inner), format!("array<{pretty}>")),
                3 => (Type::ScriptRef(inner), format!("script_ref<{pretty}>")),
                _ => {
                    let n = s.bits(32) as u32;
                    (Type::StaticArray(inner, n), format!("array<{pretty}; {n}>"))
                }
            };
            // the stored name of a type is not what gets printed
            let name = d.pool.names.add(format!("stored{i}").as_str().into());
            let idx = d.pool.add_definition(Definition::type_(name, ty));
            d.types.push((idx, pretty));
        }
        d
    }

    fn fresh(&mut self) -> i32 {
        self.next += 1;
        self.next
    }

    fn name(&mut self, n: &str) -> PoolIndex<redscript::bundle::CName> {
        self.pool.names.add(n.into())
    }

    fn fun(&mut self, s: &mut Src, parent: PoolIndex<Class>) -> (PoolIndex<Function>, PFun) {
        let id = self.fresh();
        let name = ident(s, "F", id);
        let stored = match s.below(3) {
            0 => name.clone(),
            1 => format!("{name};"),
            _ => format!("{name};Int32ref<X>;Bool"),
        };
        let (v, vw) = vis(s);
        let mut words = vec![vw];
        let mut flags = FunctionFlags::new();
        let mut bit = |s: &mut Src, w: &str| {
            let on = s.bool();
            if on {
                words.push(w.to_owned());
            }
            on
        };
        flags = flags.with_is_final(bit(s, "final"));
        flags = flags.with_is_static(bit(s, "static"));
        flags = flags.with_is_native(bit(s, "native"));
        flags = flags.with_is_exec(bit(s, "exec"));
        flags = flags.with_is_const(bit(s, "const"));
        flags = flags.with_is_quest(bit(s, "quest"));
        flags = flags.with_is_callback(bit(s, "cb"));
        flags = flags.with_is_timer(s.bool()).with_is_thread_safe(s.bool()).with_unk1(s.bool());
        words.sort();
        let idx: PoolIndex<Function> = self.pool.reserve();
        let mut params = vec![];
        let mut pparams = vec![];
        for i in 0..few(s, 4, 70) {
            let pname = ident(s, "p", i as i32);
            let (ty, pretty) = s.pick(&self.types).clone();
            let (o, u, k) = (s.bool(), s.bool(), s.bool());
            let mut ws = vec![];
            if k {
                ws.push("const".to_owned());
            }
            if o {
                ws.push("opt".to_owned());
            }
            if u {
                ws.push("out".to_owned());
            }
            let n = self.name(&pname);
            params.push(self.pool.add_definition(Definition::param(
                n,
                idx,
                Parameter {
                    type_: ty,
                    flags: ParameterFlags::new()
                        .with_is_optional(o)
                        .with_is_out(u)
                        .with_is_const(k)
                        .with_is_short_circuit(s.bool()),
                },
            )));
            pparams.push((ws, pname, pretty));
        }
        let ret = if s.bool() { Some(s.pick(&self.types).clone()) } else { None };
        let has_body = s.bool();
        let id = self.fresh();
        // a body may be empty, with or without the instruction that usually ends it
        let (code, body) = match s.below(8) {
            0 => (vec![], vec![]),
            1 => (vec![Instr::Nop], vec![]),
            _ => (vec![Instr::Return, Instr::I32Const(id), Instr::Nop], vec![T::Return(Some(b(T::Const(K::I32(id)))))]),
        };
        let f = Function {
            visibility: v,
            flags: flags.with_has_body(has_body).with_has_return_value(ret.is_some()),
            return_type: ret.as_ref().map(|r| r.0),
            parameters: params,
            code: if has_body {
                Code::new(code)
            } else {
                Code::EMPTY
            },
            ..no_fun()
        };
        let n = self.name(&stored);
        self.pool.put_definition(idx, Definition::function(n, parent, f));
        (
            idx,
            PFun {
                words,
                name,
                params: pparams,
                ret: ret.map_or_else(|| "Void".to_owned(), |r| r.1),
                body: has_body.then_some(body),
            },
        )
    }

    fn field(&mut self, s: &mut Src, parent: PoolIndex<Class>) -> (PoolIndex<Field>, PField) {
        let id = self.fresh();
        let name = ident(s, "f", id);
        let (v, vw) = vis(s);
        let mut words = vec![vw];
        let mut bit = |s: &mut Src, w: &str| {
            let on = s.bool();
            if on {
                words.push(w.to_owned());
            }
            on
        };
        let flags = FieldFlags::new()
            .with_is_inline(bit(s, "inline"))
            .with_is_replicated(bit(s, "replicated"))
            .with_is_editable(bit(s, "edit"))
            .with_is_native(bit(s, "native"))
            .with_is_persistent(bit(s, "persistent"))
            .with_is_const(bit(s, "const"))
            .with_has_hint(s.bool())
            .with_is_test_only(s.bool())
            .with_is_browsable(s.bool())
            .with_is_instance_editable(s.bool());
        words.sort();
        let (ty, pretty) = s.pick(&self.types).clone();
        let props: Vec<(String, String)> = (0..few(s, 4, 40)).map(|_| (gen_text(s), gen_text(s))).collect();
        let defaults: Vec<(String, String)> = (0..few(s, 4, 40))
            .map(|i| {
                let v = match s.below(6) {
                    0 => "true".to_owned(),
                    2 => String::new(),
                    3 => format!("{}.{:06}", s.range(-50, 50), s.below(1_000_000)),
                    4 => s.bits(31).to_string(),
                    1 => s.range(-50, 50).to_string(),
                    _ => "EnumKind_Value".to_owned(),
                };
                (ident(s, "K", i as i32), v)
            })
            .collect();
        let prop = |v: &[(String, String)]| {
            v.iter()
                .map(|(name, value)| Property {
                    name: name.clone(),
                    value: value.clone(),
                })
                .collect()
        };
        let f = Field {
            visibility: v,
            type_: ty,
            flags,
            hint: None,
            attributes: prop(&props),
            defaults: prop(&defaults),
        };
        let n = self.name(&name);
        let idx = self.pool.add_definition(Definition::field(n, parent, f));
        (
            idx,
            PField {
                props,
                defaults,
                words,
                name,
                ty: pretty,
            },
        )
    }

    fn class(&mut self, s: &mut Src, base: Option<(PoolIndex<Class>, String)>) -> (PoolIndex<Class>, PClass) {
        let id = self.fresh();
        let name = ident(s, "C", id);
        let idx: PoolIndex<Class> = self.pool.reserve();
        let (v, vw) = vis(s);
        let (ab, fi, na, im, st) = (s.bool(), s.bool(), s.bool(), s.bool(), s.bool());
        let mut words = vec![vw];
        if ab {
            words.push("abstract".into());
        }
        if fi {
            words.push("final".into());
        }
        if im {
            words.push("importonly".into());
        } else if na {
            words.push("native".into());
        }
        words.push(if st { "struct" } else { "class" }.into());
        words.sort();
        let mut members = vec![];
        let mut fields = vec![];
        let mut functions = vec![];
        for _ in 0..few(s, 5, 140) {
            let (i, f) = self.field(s, idx);
            fields.push(i);
            members.push(PMember::Field(f));
        }
        for _ in 0..few(s, 5, 140) {
            let (i, f) = self.fun(s, idx);
            functions.push(i);
            members.push(PMember::Fun(f));
        }
        let c = Class {
            visibility: v,
            flags: ClassFlags::new()
                .with_is_abstract(ab)
                .with_is_final(fi)
                .with_is_native(na)
                .with_is_import_only(im)
                .with_is_struct(st),
            base: base.as_ref().map_or(PoolIndex::UNDEFINED, |b| b.0),
            functions,
            fields,
            overrides: vec![],
        };
        let n = self.name(&name);
        self.pool.put_definition(idx, Definition::class(n, c));
        (
            idx,
            PClass {
                words,
                name,
                base: base.map(|b| b.1),
                members,
            },
        )
    }
}

fn declarations(s: &mut Src, c: &mut Ctx) -> R {
    let mut d = Decls::new(s);
    let verbose = s.bool();
    let mode = OutputMode::Code { verbose };
    let depth = s.idx(3);
    match s.below(4) {
        0 => {
            let (idx, want) = d.fun(s, PoolIndex::UNDEFINED);
            let text = print(&d.pool, idx, depth, mode)?;
            ensure_eq!(parsed(&text, decl::function)?, want, "function");
            c.nontrivial_if(!want.params.is_empty());
            c.sample(|| text.clone());
        }
        1 => {
            let id = d.fresh();
            let name = ident(s, "E", id);
            let n = d.name(&name);
            let idx: PoolIndex<Enum> = d.pool.reserve();
            let mut want = vec![];
            let mut members = vec![];
            for k in 0..few(s, 7, 300) {
                let mn = ident(s, "V", k as i32);
                let v = s.bits(64) as i64;
                let mni = d.name(&mn);
                members.push(d.pool.add_definition(Definition::enum_value(mni, idx, v)));
                want.push((mn, v));
            }
            d.pool.put_definition(
                idx,
                Definition::enum_(
                    n,
                    Enum {
                        flags: s.bits(8) as u8,
                        size: 8,
                        members,
                        unk1: s.bool(),
                    },
                ),
            );
            let text = print(&d.pool, idx, depth, mode)?;
            let got = parsed(&text, decl::enum_)?;
            c.nontrivial_if(want.len() > 1);
            ensure_eq!(got, (name, want), "enum");
            c.sample(|| text.clone());
        }
        _ => {
            let base = if s.bool() {
                let (i, p) = d.class(s, None);
                Some((i, p.name))
            } else {
                None
            };
            let (idx, want) = d.class(s, base);
            let text = print(&d.pool, idx, depth, mode)?;
            let got = parsed(&text, decl::class)?;
            if got != want {
                return fail("class", format!("read back as\n  {got:?}\ninstead of\n  {want:?}\nfrom\n{text}"));
            }
            c.nontrivial_if(want.members.len() > 1);
            c.sample(|| text.clone());
        }
    }
    Ok(())
}

/// Definitions that are usually printed as part of others, on their own.
fn parts(s: &mut Src, c: &mut Ctx) -> R {
    let mut d = Decls::new(s);
    let mode = OutputMode::Code { verbose: s.bool() };
    let (ty, pretty) = s.pick(&d.types).clone();
    let id = d.fresh();
    let name = ident(s, "v", id);
    let n = d.name(&name);
    let depth = s.idx(3);
    let fun: PoolIndex<Function> = d.pool.reserve();
    let cls: PoolIndex<Class> = d.pool.reserve();
    let pad = "  ".repeat(depth);
    let (got, want) = match s.below(5) {
        0 => (print(&d.pool, ty, depth, mode)?, pretty.clone()),
        1 => {
            let (k, bits) = (s.bool(), s.bits(8) as u8);
            let l = Local { type_: ty, flags: LocalFlags::from_bytes([bits]).with_is_const(k) };
            let i = d.pool.add_definition::<Local>(Definition::local(n, fun, l));
            let word = if k { "const" } else { "let" };
            (print(&d.pool, i, depth, mode)?, format!("{pad}{word} {name}: {pretty};"))
        }
        2 => {
            let (o, u, k) = (s.bool(), s.bool(), s.bool());
            let p = Parameter {
                type_: ty,
                flags: ParameterFlags::new().with_is_optional(o).with_is_out(u).with_is_const(k),
            };
            let i = d.pool.add_definition::<Parameter>(Definition::param(n, fun, p));
            let mut words: Vec<&str> = vec![];
            if k {
                words.push("const");
            }
            if o {
                words.push("opt");
            }
            if u {
                words.push("out");
            }
            let text = print(&d.pool, i, depth, mode)?;
            // the order of modifiers is free
            let (head, tail) = text.trim().split_once(':').ok_or(()).or_else(|()| fail("param", text.clone()))?;
            let mut have: Vec<&str> = head.split_whitespace().collect();
            let last = have.pop();
            have.sort_unstable();
            ensure_eq!(have, words, "parameter modifiers");
            ensure_eq!(last, Some(name.as_str()), "parameter name");
            (tail.trim().to_owned(), pretty.clone())
        }
        3 => {
            let v = s.bits(64) as i64;
            let e: PoolIndex<Enum> = d.pool.reserve();
            let i = d.pool.add_definition::<i64>(Definition::enum_value(n, e, v));
            (print(&d.pool, i, depth, mode)?.trim().trim_end_matches(',').to_owned(), format!("{name} = {v}"))
        }
        _ => {
            let (i, want) = d.field(s, cls);
            let text = print(&d.pool, i, depth, mode)?;
            let wrapped = format!("public class X {{ {text} }}");
            let got = parsed(&wrapped, decl::class)?;
            let PMember::Field(f) = &got.members[0] else { return fail("field", text) };
            ensure!(*f == want && got.members.len() == 1, "field", "{text} read as {f:?} instead of {want:?}");
            (String::new(), String::new())
        }
    };
    ensure_eq!(got, want, "part");
    c.nontrivial_if(pretty.contains('<'));
    c.sample(|| got.clone());
    Ok(())
}

// ---- bytecode listing ------------------------------------------------------------------------

fn listing(s: &mut Src, c: &mut Ctx) -> R {
    let mut env = Env::new(s);
    let class = class_of(s);
    let mut em = Emit::new(s, &mut env, class, true, 50);
    em.block(s, 0, None);
    if s.chance(1, 300) {
        // positions up to the last one that 16 bits hold
        let size: u32 = em.code.iter().map(|i| u32::from(i.size())).sum();
        for k in 0..(u32::from(u16::MAX) - size).saturating_sub(40) / 9 {
            em.code.push(Instr::I64Const(k.into()));
        }
        c.label("long code");
    }
    let locals = em.locals.clone();
    let (idx, _) = em.finish();
    if s.chance(1, 20) {
        env.pool.function_mut(idx).or_else(|e| fail("pool", e.to_string()))?.code = Code::EMPTY;
    }
    let depth = s.idx(3);
    let text = print(&env.pool, idx, depth, OutputMode::Bytecode)?;
    let fun = env.pool.function(idx).or_else(|e| fail("pool", e.to_string()))?;
    let mut want: Vec<String> = locals.iter().map(|(_, n, ty)| {
        // types here are stored without structure, so they print as they are stored
        let stored = PRETTY.iter().find(|(_, p)| p == ty).map_or("", |(r, _)| r);
        format!("let {n}: {stored};")
    }).collect();
    let mut at = 0u32;
    for i in fun.code.as_ref() {
        want.push(format!("{at}: {}", format!("{i:?}").to_lowercase()));
        at += u32::from(i.size());
    }
    for (k, line) in text.lines().filter(|l| !l.trim().is_empty()).enumerate() {
        let inner = k > 0 && line.trim() != "}";
        let have = line.len() - line.trim_start().len();
        ensure_eq!(have, 2 * (depth + usize::from(inner)), "indentation of a listing", "{line:?} at depth {depth}");
    }
    let lines: Vec<&str> = text.lines().map(str::trim).filter(|l| !l.is_empty()).collect();
    ensure!(lines.len() >= 2, "lines", "no listing: {text}");
    ensure!(lines[0].ends_with('{') && lines[0].contains("func "), "header", "{text}");
    ensure!(lines[lines.len() - 1] == "}", "end", "{text}");
    let body = &lines[1..lines.len() - 1];
    for (k, w) in want.iter().enumerate() {
        ensure!(body.get(k).copied() == Some(w.as_str()), "line", "line {k} is {:?}, expected {w:?}", body.get(k));
    }
    ensure_eq!(body.len(), want.len(), "number of lines");
    if let (Some(k), true) = (class, s.chance(1, 4)) {
        let whole = print(&env.pool, env.classes[k].idx, 0, OutputMode::Bytecode)?;
        let own = print(&env.pool, idx, 1, OutputMode::Bytecode)?;
        ensure!(whole.contains(&own), "class", "the listing of a class lacks that of its method:\n{own}\nin\n{whole}");
    }
    c.nontrivial_if(fun.code.len() > 6);
    c.sample(|| text.clone());
    Ok(())
}

/// The syntax tree listing: every decompiled statement, in order.
fn syntax_tree(s: &mut Src, c: &mut Ctx) -> R {
    let mut env = Env::new(s);
    let class = class_of(s);
    let mut em = Emit::new(s, &mut env, class, true, 30);
    em.block(s, 0, None);
    let (idx, stats) = em.finish();
    let depth = s.idx(3);
    let text = print(&env.pool, idx, depth, OutputMode::SyntaxTree)?;
    let fun = env.pool.function(idx).or_else(|e| fail("pool", e.to_string()))?;
    let def = env.pool.definition(idx).or_else(|e| fail("pool", e.to_string()))?;
    let ast = Decompiler::decompiled(fun, def, &env.pool).or_else(|e| fail("error", e.to_string()))?;
    let mut want = vec![];
    let mut firsts = vec![];
    for e in &ast.exprs {
        firsts.push(want.len());
        want.extend(format!("{e:#?}").lines().map(|l| l.trim().to_owned()).filter(|l| !l.is_empty()));
    }
    let lines: Vec<&str> = text.lines().map(str::trim).filter(|l| !l.is_empty()).collect();
    ensure!(lines.len() >= 2 && lines[0].ends_with('{') && lines[lines.len() - 1] == "}", "lines", "no listing: {text}");
    let raw: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let indent = |k: usize| raw.get(k).map_or(0, |l| l.len() - l.trim_start().len());
    for (k, inner) in [(0, 0), (raw.len() - 1, 0)].into_iter().chain(firsts.iter().map(|k| (k + 1, 1))) {
        ensure_eq!(indent(k), 2 * (depth + inner), "indentation of a syntax tree", "line {k} of\n{text}");
    }
    let body = &lines[1..lines.len() - 1];
    for (k, w) in want.iter().enumerate() {
        ensure!(body.get(k).copied() == Some(w.as_str()), "line", "line {k} is {:?}, expected {w:?}", body.get(k));
    }
    ensure_eq!(body.len(), want.len(), "number of lines");
    c.nontrivial_if(stats.exprs > 3);
    c.sample(|| text.clone());
    Ok(())
}

// ---- faults and layout -----------------------------------------------------------------------

/// Accepts a number of bytes, in pieces, then fails: for good, or once.
struct Sink<'a> {
    left: usize,
    once: bool,
    piece: usize,
    out: &'a mut Vec<u8>,
}

impl std::io::Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.left == 0 {
            if self.once {
                self.left = usize::MAX;
            }
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full"));
        }
        let n = b.len().min(self.piece).min(self.left);
        self.left -= n;
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn write_faults(s: &mut Src, c: &mut Ctx) -> R {
    let mode = match s.below(4) {
        0 => OutputMode::Bytecode,
        1 => OutputMode::SyntaxTree,
        k => OutputMode::Code { verbose: k == 2 },
    };
    let (pool, idx): (ConstantPool, PoolIndex<Definition>) = if s.bool() {
        let mut env = Env::new(s);
        let class = class_of(s);
        let mut em = Emit::new(s, &mut env, class, true, 25);
        em.block(s, 0, None);
        let (idx, _) = em.finish();
        (env.pool, idx.cast())
    } else {
        let mut d = Decls::new(s);
        let (idx, _) = match s.below(3) {
            0 => {
                let (i, _) = d.fun(s, PoolIndex::UNDEFINED);
                (i.cast(), ())
            }
            1 => {
                let n = d.name("SomeEnum");
                let e: PoolIndex<Enum> = d.pool.reserve();
                let v = d.name("SomeValue");
                let members = (0..s.len(3)).map(|k| d.pool.add_definition(Definition::enum_value(v, e, k as i64))).collect();
                d.pool.put_definition(e, Definition::enum_(n, Enum { flags: 0, size: 4, members, unk1: false }));
                (e.cast::<Definition>(), ())
            }
            _ => {
                let (i, _) = d.class(s, None);
                (i.cast(), ())
            }
        };
        (d.pool, idx)
    };
    let depth = s.idx(3);
    let full = print(&pool, idx, depth, mode)?.into_bytes();
    let left = s.idx(full.len() + 2);
    let piece = s.size(1, 9);
    let def = pool.definition(idx).or_else(|e| fail("pool", e.to_string()))?;
    let mut out = vec![];
    let once = s.bool();
    let r = write_definition(&mut Sink { left, once, piece, out: &mut out }, def, &pool, depth, mode);
    if left < full.len() {
        ensure!(r.is_err(), "silent", "the output took only {left} of {} bytes, but no error was reported", full.len());
        ensure!(once || full.starts_with(&out), "prefix", "what was written before the fault is not a prefix of the text:\n{}", String::from_utf8_lossy(&out));
        c.label("fault");
    } else {
        ensure!(r.is_ok(), "spurious", "an error was reported although everything was taken");
        ensure!(out == full, "pieces", "written in pieces the text differs");
    }
    c.nontrivial_if(full.len() > 20);
    c.sample(|| format!("{left} of {} bytes in pieces of {piece}", full.len()));
    Ok(())
}

/// Every line is indented by two spaces per enclosing block.
fn layout(s: &mut Src, c: &mut Ctx) -> R {
    let (text, base) = match s.below(3) {
        0 => {
            let mut d = Decls::new(s);
            let (i, _) = d.class(s, None);
            (print(&d.pool, i, 0, OutputMode::Code { verbose: s.bool() })?, 0)
        }
        _ => {
            let mut env = Env::new(s);
            let class = class_of(s);
            let mut em = Emit::new(s, &mut env, class, false, 40);
            em.block(s, 0, None);
            let (idx, _) = em.finish();
            let depth = few(s, 4, 70);
            (print(&env.pool, idx, depth, OutputMode::Code { verbose: s.bool() })?, depth)
        }
    };
    // blocks; a switch holds its cases one level and their statements two levels in
    let mut stack: Vec<bool> = vec![];
    let mut blocks = 0;
    for line in text.lines().filter(|l| !l.trim().is_empty()) {
        let t = line.trim();
        if t.starts_with('}') {
            stack.pop();
        }
        let mut want = base;
        for (k, is_switch) in stack.iter().enumerate() {
            let label = k + 1 == stack.len() && (t.starts_with("case ") || t == "default:");
            want += if *is_switch && !label { 2 } else { 1 };
        }
        let have = line.len() - line.trim_start().len();
        ensure!(
            have == 2 * want,
            "indent",
            "a line is indented by {have} instead of {}: {line:?} in\n{text}",
            2 * want
        );
        if t.ends_with('{') {
            blocks += 1;
            stack.push(t.starts_with("switch "));
        }
    }
    ensure!(stack.is_empty(), "blocks", "blocks do not close:\n{text}");
    c.nontrivial_if(blocks >= 2);
    c.sample(|| text.clone());
    Ok(())
}

// ---- one bad method --------------------------------------------------------------------------

fn isolation(s: &mut Src, c: &mut Ctx) -> R {
    let mut env = Env::new(s);
    let k = s.idx(3);
    for i in 0..few(s, 4, 70) {
        let lazy = vec![false; s.idx(3)];
        env.add_fun(&format!("Extra{i};"), Some(k), s.bool(), lazy, None);
    }
    let class = env.classes[k].idx;
    let funs = env.pool.class(class).or_else(|e| fail("pool", e.to_string()))?.functions.clone();
    let (num, den) = *s.pick(&[(1, 2), (1, 8), (7, 8)]);
    let bad: Vec<bool> = funs.iter().map(|_| s.chance(num, den)).collect();
    let mut n = 0;
    for (f, bad) in funs.iter().zip(&bad) {
        n += 1;
        let mut code: Vec<Instr<Offset>> = vec![];
        if *bad {
            // sound statements first: the damage shows up in the middle of a body
            for i in 0..s.len(6) {
                code.extend([Instr::Assign, Instr::ObjectField(env.classes[0].fields[0].0), Instr::I32Const(i as i32)]);
            }
            code.extend(match s.below(6) {
                0 => vec![Instr::ParamEnd, Instr::Nop],
                1 => vec![Instr::Assign, Instr::Local(PoolIndex::new(99_999)), Instr::I32One],
                2 => vec![Instr::ExternalVar],
                3 => vec![Instr::JumpIfFalse(Offset::new(7)), Instr::TrueConst, Instr::Nop],
                4 => vec![Instr::NameConst(PoolIndex::new(9_999)), Instr::Nop],
                _ => vec![Instr::SwitchDefault, Instr::Nop],
            });
        } else {
            for i in 0..s.len(3) {
                code.extend([Instr::Assign, Instr::ObjectField(env.classes[0].fields[0].0), Instr::I32Const(i as i32)]);
            }
            code.extend(vec![Instr::Return, Instr::I32Const(n), Instr::Nop]);
        }
        let f = env.pool.function_mut(*f).or_else(|e| fail("pool", e.to_string()))?;
        f.code = Code::new(code);
        f.flags = f.flags.with_has_body(true);
    }
    let mode = if s.chance(1, 6) { OutputMode::SyntaxTree } else { OutputMode::Code { verbose: s.bool() } };
    let text = print(&env.pool, class, 0, mode)?;
    let mut from = 0;
    for (f, bad) in funs.iter().zip(&bad) {
        let def = env.pool.definition(*f).or_else(|e| fail("pool", e.to_string()))?;
        let mut out = vec![];
        let r = write_definition(&mut out, def, &env.pool, 1, mode);
        ensure!(*bad == r.is_err(), "error", "a method with undecodable code printed without an error");
        if !*bad {
            let own = String::from_utf8_lossy(&out).into_owned();
            match text[from..].find(&own) {
                Some(at) => from += at + own.len(),
                None => return fail("missing", format!("a sound method is missing from its class:\n{own}\nin\n{text}")),
            }
        }
    }
    c.nontrivial_if(bad.iter().any(|b| *b) && bad.iter().any(|b| !*b));
    c.sample(|| text.clone());
    Ok(())
}

/// One instruction read from random bytes: operands are mostly small, branches short.
fn random_instr(s: &mut Src) -> Option<Instr<Offset>> {
    let op = match s.below(4) {
        // branches
        0 => *s.pick(&[28u8, 29, 30, 31, 32, 33, 34, 41]),
        1 => *s.pick(&[2, 3, 22, 24, 26, 35, 36, 37, 38, 39, 50, 0]),
        _ => s.below(104) as u8,
    };
    let mut bytes = vec![op];
    if matches!(op, 28) {
        bytes.extend([1, 0, 0, 0]);
    }
    if matches!(op, 28..=37 | 41) {
        for _ in 0..2 {
            let off = match s.below(8) {
                0 => -(s.below(60) as i16),
                1 => s.bits(16) as i16,
                _ => s.below(60) as i16,
            };
            bytes.extend(off.to_le_bytes());
        }
    }
    for _ in 0..6 {
        let v = if s.chance(1, 8) { s.bits(32) as u32 } else { s.below(90) as u32 };
        bytes.extend(v.to_le_bytes());
    }
    Instr::decode(&mut &bytes[..]).ok()
}

/// Code that is random, or sound but for a few changes.
fn garbage_code(s: &mut Src, env: &mut Env, class: Option<usize>) -> Vec<Instr<Offset>> {
    let mut code: Vec<Instr<Offset>> = vec![];
    if s.chance(2, 3) {
        let mut em = Emit::new(s, env, class, true, 25);
        em.block(s, 0, None);
        let (idx, _) = em.finish();
        if let Ok(f) = env.pool.function(idx) {
            code = f.code.as_ref().to_vec();
        }
        for _ in 0..s.size(1, 4) {
            let at = s.idx(code.len().max(1));
            match s.below(5) {
                0 if !code.is_empty() => {
                    code.remove(at);
                }
                1 => code.extend(random_instr(s).into_iter().take(1)),
                2 if !code.is_empty() => code.truncate(at),
                3 if !code.is_empty() => {
                    let to = s.idx(code.len());
                    code.swap(at, to);
                }
                _ => {
                    if let Some(i) = random_instr(s) {
                        code.insert(at.min(code.len()), i);
                    }
                }
            }
        }
    } else {
        for _ in 0..s.size(1, 25) {
            code.extend(random_instr(s));
        }
    }
    // branches to where an instruction starts get further
    let mut starts = vec![0u32];
    for i in &code {
        starts.push(starts[starts.len() - 1] + u32::from(i.size()));
    }
    if starts[starts.len() - 1] > 60_000 {
        return vec![Instr::ExternalVar];
    }
    for k in 0..code.len() {
        if !s.chance(1, 2) {
            continue;
        }
        let near = |s: &mut Src| {
            let to = if s.chance(1, 6) { s.idx(starts.len()) } else { (k + 1 + s.idx(12)).min(starts.len() - 1) };
            Offset::new((i64::from(starts[to]) - i64::from(starts[k])) as i16)
        };
        match &mut code[k] {
            Instr::Switch(_, a) | Instr::Jump(a) | Instr::JumpIfFalse(a) | Instr::Skip(a) | Instr::Context(a) => *a = near(s),
            Instr::SwitchLabel(a, b) | Instr::Conditional(a, b) => (*a, *b) = (near(s), near(s)),
            _ => {}
        }
    }
    code
}

/// Whatever the code of a method is, printing it ends with text or an error, and sound methods are
/// not affected.
fn garbage(s: &mut Src, c: &mut Ctx) -> R {
    let mut env = Env::new(s);
    let k = s.idx(3);
    for i in 0..s.len(3) {
        let lazy = vec![false; s.idx(3)];
        env.add_fun(&format!("Extra{i};"), Some(k), s.bool(), lazy, None);
    }
    let class = env.classes[k].idx;
    let funs = env.pool.class(class).or_else(|e| fail("pool", e.to_string()))?.functions.clone();
    let mut sound = vec![];
    let mut codes = vec![];
    for f in &funs {
        let good = s.chance(1, 3);
        let code = if good {
            let n = s.below(100) as i32;
            vec![Instr::Return, Instr::I32Const(n), Instr::Nop]
        } else {
            garbage_code(s, &mut env, Some(k))
        };
        codes.push(code.len());
        let f = env.pool.function_mut(*f).or_else(|e| fail("pool", e.to_string()))?;
        f.code = Code::new(code);
        f.flags = f.flags.with_has_body(true);
        sound.push(good);
    }
    let mode = match s.below(8) {
        0 => OutputMode::SyntaxTree,
        1 => OutputMode::Bytecode,
        k => OutputMode::Code { verbose: k < 4 },
    };
    let text = print(&env.pool, class, 0, mode)?;
    let mut from = 0;
    let (mut failed, mut passed) = (0, 0);
    for (f, good) in funs.iter().zip(&sound) {
        let def = env.pool.definition(*f).or_else(|e| fail("pool", e.to_string()))?;
        let mut out = vec![];
        let r = write_definition(&mut out, def, &env.pool, 1, mode);
        ensure!(r.is_ok() || !good, "sound", "a sound method cannot be printed: {:?}", r.err().map(|e| e.to_string()));
        match r {
            Ok(()) => {
                passed += usize::from(!good);
                let own = String::from_utf8_lossy(&out).into_owned();
                match text[from..].find(&own) {
                    Some(at) => from += at + own.len(),
                    None => return fail("missing", format!("a method that can be printed is missing from its class:\n{own}\nin\n{text}")),
                }
            }
            Err(_) => failed += 1,
        }
    }
    if failed > 0 {
        c.label("undecodable");
    }
    if passed > 0 {
        c.label("decoded all the same");
    }
    c.nontrivial_if(failed > 0 && codes.iter().any(|l| *l > 4));
    c.sample(|| text.clone());
    Ok(())
}

// ---- files -----------------------------------------------------------------------------------

fn files(s: &mut Src, c: &mut Ctx) -> R {
    let mut pool = ConstantPool::default();
    pool.names.add("<filler>".into());
    pool.reserve::<Definition>();
    let nfiles = if s.chance(1, 80) { s.big(300) } else { s.size(1, 5) };
    let mut file_idx: Vec<(PoolIndex<SourceFile>, String)> = vec![];
    // definitions in a random order of kinds
    let mut paths = vec![];
    for i in 0..nfiles {
        let path = format!("dir{}/file{i}.script", s.idx(3));
        let idx = pool.add_definition(Definition::source_file(SourceFile {
            id: i as u32,
            path_hash: s.bits(64),
            path: path.as_str().into(),
        }));
        paths.push(path.clone());
        file_idx.push((idx, path));
    }
    // expected: file -> set of root names with first line
    let mut classes: Vec<(PoolIndex<Class>, String, Vec<(bool, Option<(usize, u32)>)>)> = vec![];
    let mut want_files: Vec<Vec<String>> = vec![vec![]; nfiles];
    let mut first: std::collections::HashMap<String, u32> = Default::default();
    let mut orphans: Vec<String> = vec![];
    let mut n = 0;
    // which definition is which: names may be shared
    let mut keys: std::collections::HashMap<u32, String> = Default::default();
    let shared = s.chance(1, 3);
    let label = move |s: &mut Src, key: &str| -> redscript::Ref<str> {
        if shared && s.bool() {
            (*s.pick(&["Same", "Other"])).into()
        } else {
            key.into()
        }
    };
    let fun = |s: &mut Src, pool: &mut ConstantPool, parent: PoolIndex<Class>, name: &str| {
        let width = if s.chance(1, 8) { 32 } else { 16 };
        let source = if s.chance(3, 4) { Some((s.idx(nfiles), s.bits(width) as u32)) } else { None };
        let native = if source.is_some() { s.chance(1, 6) } else { s.chance(3, 4) };
        let f = Function {
            flags: FunctionFlags::from_bytes((s.bits(32) as u32).to_le_bytes()).with_is_native(native),
            visibility: *s.pick(&[Visibility::Public, Visibility::Protected, Visibility::Private]),
            source: source.map(|(f, line)| SourceReference {
                file: file_idx[f].0,
                line,
            }),
            ..no_fun()
        };
        let nm = pool.names.add(label(s, name));
        let idx: PoolIndex<Function> = pool.add_definition(Definition::function(nm, parent, f));
        (idx, native, source)
    };
    let ndefs = if s.chance(1, 80) { s.big(600) } else { s.len(10) };
    for _ in 0..ndefs {
        n += 1;
        match s.below(4) {
            0 => {
                let name = format!("G{n}");
                let (i, native, source) = fun(s, &mut pool, PoolIndex::UNDEFINED, &name);
                keys.insert(i.into(), name.clone());
                if native {
                    orphans.push(name.clone());
                }
                if let Some((f, line)) = source {
                    want_files[f].push(name.clone());
                    first.insert(name, line);
                }
            }
            1 => {
                let name = format!("E{n}");
                let nm = pool.names.add(label(s, &name));
                let idx: PoolIndex<Enum> = pool.reserve();
                keys.insert(idx.into(), name.clone());
                let vn = pool.names.add(format!("V{n}").as_str().into());
                let members = (0..s.len(3)).map(|k| pool.add_definition(Definition::enum_value(vn, idx, k as i64))).collect();
                pool.put_definition(
                    idx,
                    Definition::enum_(
                        nm,
                        Enum {
                            flags: s.bits(8) as u8,
                            size: 4,
                            members,
                            unk1: false,
                        },
                    ),
                );
                orphans.push(name);
            }
            _ => {
                let name = format!("C{n}");
                let nm = pool.names.add(label(s, &name));
                let idx: PoolIndex<Class> = pool.reserve();
                keys.insert(idx.into(), name.clone());
                let mut functions = vec![];
                let mut all_native = true;
                let mut lines = vec![];
                let nfuns = if s.chance(1, 80) { s.big(140) } else { s.len(4) };
                for k in 0..nfuns {
                    let (f, native, source) = fun(s, &mut pool, idx, &format!("M{n}_{k}"));
                    functions.push(f);
                    all_native &= native;
                    if let Some((f, line)) = source {
                        if !want_files[f].contains(&name) {
                            want_files[f].push(name.clone());
                        }
                        lines.push(line);
                    }
                }
                if all_native {
                    orphans.push(name.clone());
                }
                if let Some(l) = lines.iter().min() {
                    first.insert(name.clone(), *l);
                }
                let mut fields = vec![];
                if s.chance(1, 3) {
                    let nm = pool.names.add(format!("f{n}").as_str().into());
                    fields.push(pool.add_definition(Definition::field(nm, idx, Field {
                        visibility: Visibility::Public,
                        type_: PoolIndex::UNDEFINED,
                        flags: FieldFlags::from_bytes((s.bits(16) as u16).to_le_bytes()),
                        hint: None,
                        attributes: vec![],
                        defaults: vec![],
                    })));
                }
                let base = if !classes.is_empty() && s.chance(1, 3) { s.pick(&classes).0 } else { PoolIndex::UNDEFINED };
                let cls = Class {
                    visibility: *s.pick(&[Visibility::Public, Visibility::Private]),
                    flags: ClassFlags::from_bytes((s.bits(16) as u16).to_le_bytes()),
                    base,
                    functions,
                    fields,
                    overrides: vec![],
                };
                pool.put_definition(idx, Definition::class(nm, cls));
                classes.push((idx, name, vec![]));
            }
        }
    }
    let index = FileIndex::from_pool(&pool);
    let mut seen: Vec<(String, Vec<String>)> = vec![];
    for e in index.iter() {
        let mut names = vec![];
        for d in &e.definitions {
            let which = pool.definitions().find(|(_, x)| std::ptr::eq(*x, *d));
            let Some(key) = which.and_then(|(i, _)| keys.get(&u32::from(i))) else {
                return fail("not at the top", format!("{}: {:?}", e.path.display(), pool.names.get(d.name)));
            };
            names.push(key.clone());
        }
        seen.push((e.path.to_string_lossy().into_owned(), names));
    }
    ensure!(
        seen.iter().filter(|(p, _)| p == "orphans.script").count() == 1,
        "orphans",
        "the file of definitions without source is not there once"
    );
    for (p, names) in &seen {
        let mut sorted = names.clone();
        sorted.sort();
        let mut unique = sorted.clone();
        unique.dedup();
        ensure_eq!(unique.len(), sorted.len(), "twice in one file", "{p}: {names:?}");
        if p == "orphans.script" {
            let mut w = orphans.clone();
            w.sort();
            ensure_eq!(sorted, w, "orphans");
            continue;
        }
        let Some(k) = paths.iter().position(|x| x == p) else {
            return fail("path", format!("unknown file {p}"));
        };
        let mut w = want_files[k].clone();
        w.sort();
        ensure_eq!(sorted, w, "definitions of a file", "{p}");
        let lines: Vec<u32> = names.iter().map(|n| first.get(n).copied().unwrap_or(0)).collect();
        ensure!(lines.windows(2).all(|w| w[0] <= w[1]), "order", "{p}: {names:?} at {lines:?}");
    }
    for (k, w) in want_files.iter().enumerate() {
        let times = seen.iter().filter(|(p, _)| *p == paths[k]).count();
        ensure_eq!(times, usize::from(!w.is_empty()), "entries of a file", "{}", paths[k]);
    }
    c.nontrivial_if(want_files.iter().any(|w| w.len() > 1));
    c.sample(|| format!("{seen:?}"));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = show;
    vec![
        Prop {
            id: "C22",
            level: "exploration",
            rule: "random functions (expressions over every operator and instruction, with and without control flow) printed at random depth, with and without implicit conversions, then read back by a separately written reader of the language's grammar and compared node by node with the decompiled tree; non-trivial = two or more operators or six or more nodes",
            assumptions: &[
                "finite floating-point constants; no member access on a numeric literal (it never type-checks)",
                "re-grouping of a chain of the same logical or bitwise operator does not count as a change; the sign of a constant may be written as an operator",
            ],
            subs: vec![
                Sub { name: "straight", quick: 50_000, thorough: 1_500_000, run: code_straight },
                Sub { name: "flow", quick: 20_000, thorough: 500_000, run: code_flow },
            ],
        },
        Prop {
            id: "C23",
            level: "exploration",
            rule: "random classes, structs, enums, functions and fields with every flag, visibility, nested type, base class, attribute and default value, printed and read back; non-trivial = two or more members or parameters",
            assumptions: &["names are identifiers"],
            subs: vec![Sub { name: "declarations", quick: 60_000, thorough: 2_000_000, run: declarations }, Sub { name: "parts", quick: 30_000, thorough: 800_000, run: parts }],
        },
        Prop {
            id: "C24",
            level: "exploration",
            rule: "random functions listed as bytecode (every local and every instruction, in order, with its address) and as syntax trees (every decompiled statement in order); non-trivial = more than six instructions or three nodes",
            assumptions: &[],
            subs: vec![Sub { name: "listing", quick: 25_000, thorough: 800_000, run: listing }, Sub { name: "tree", quick: 3_000, thorough: 200_000, run: syntax_tree }],
        },
        Prop {
            id: "C27",
            level: "fault_enumeration",
            rule: "random definitions printed in every mode into an output that takes bytes in pieces and fails for good after a random number of them; non-trivial = more than 20 bytes of text",
            assumptions: &["a failed output keeps failing"],
            subs: vec![Sub { name: "faults", quick: 40_000, thorough: 1_500_000, run: write_faults }],
        },
        Prop {
            id: "C28",
            level: "exploration",
            rule: "random classes and functions printed at random depth; the indentation of every line against the nesting of blocks; non-trivial = two or more blocks",
            assumptions: &[],
            subs: vec![Sub { name: "layout", quick: 40_000, thorough: 1_500_000, run: layout }],
        },
        Prop {
            id: "C25",
            level: "exploration",
            rule: "random pools of classes, functions, enums and source files; the file index against a model of which definition belongs in which file and in which order; non-trivial = a file with several definitions",
            assumptions: &["every source reference leads to a source file"],
            subs: vec![Sub { name: "files", quick: 80_000, thorough: 2_500_000, run: files }],
        },
        Prop {
            id: "C26",
            level: "exploration",
            rule: "classes in which random methods have code that cannot be decompiled; every sound method must appear in the printed class as it prints on its own; non-trivial = both kinds present",
            assumptions: &[],
            subs: vec![Sub { name: "isolation", quick: 30_000, thorough: 1_000_000, run: isolation }, Sub { name: "garbage", quick: 5_000, thorough: 1_500_000, run: garbage }],
        },
    ]
}

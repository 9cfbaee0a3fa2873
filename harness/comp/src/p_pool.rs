use std::collections::{BTreeSet};
use std::io::Cursor;

use pbt::{ensure, fail, Ctx, Prop, Src, Sub, R};
use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::bytecode::Instr;
use redscript::definition::{AnyDefinition, Class, Definition, Type};

use crate::base;
use crate::p_mods::{mods, Mods};
use crate::p_sem::{compile_ok, into_files, listing, shuffled};
use crate::vm::Vm;

thread_local! {
    static PREDEF: Vec<u8> = std::fs::read("/repo/resources/predef.redscripts").expect("the cache of the repository");
}

type Files = Vec<(String, String)>;

/// The files of a game and of mods for it.
fn split(s: &mut Src, m: &Mods) -> (Files, Files) {
    let game = shuffled(s, m.game.clone());
    let game = into_files(s, game);
    let mut all = m.mods.clone();
    for l in &m.loose {
        let i = s.idx(all.len() + 1);
        all.insert(i, l.clone());
    }
    (game, vec![("mods/a.reds".into(), all.concat())])
}

fn build(files: &(Files, Files)) -> Result<ConstantPool, pbt::Fail> {
    let mut pool = base::base();
    compile_ok(&mut pool, &files.0)?;
    compile_ok(&mut pool, &files.1)?;
    Ok(pool)
}

fn is_type(p: &ConstantPool, t: PoolIndex<Type>) -> bool {
    u32::from(t) != 0 && matches!(p.definition(t).map(|d| &d.value), Ok(AnyDefinition::Type(_)))
}

/// The kinds of definition an instruction may refer to.
fn check_instr<L: std::fmt::Debug>(p: &ConstantPool, f: &redscript::definition::Function, i: &Instr<L>) -> Result<(), String> {
    use Instr::*;
    let bad = |m: &str| Err(format!("{i:?}: {m}"));
    match i {
        NameConst(n) => p.names.get(*n).map(drop).or_else(|e| bad(&e.to_string())),
        StringConst(n) => p.strings.get(*n).map(drop).or_else(|e| bad(&e.to_string())),
        TweakDbIdConst(n) => p.tweakdb_ids.get(*n).map(drop).or_else(|e| bad(&e.to_string())),
        ResourceConst(n) => p.resources.get(*n).map(drop).or_else(|e| bad(&e.to_string())),
        EnumConst(e, m) => match p.enum_(*e) {
            Ok(e) if e.members.contains(m) => Ok(()),
            _ => bad("no member of the enum"),
        },
        Local(l) => if f.locals.contains(l) { Ok(()) } else { bad("a local variable of another function") },
        Param(l) => if f.parameters.contains(l) { Ok(()) } else { bad("a parameter of another function") },
        ObjectField(x) | StructField(x) => {
            let Ok(AnyDefinition::Field(_)) = p.definition(*x).map(|d| &d.value) else { return bad("not a field") };
            let owner: PoolIndex<Class> = p.definition(*x).unwrap().parent.cast();
            let Ok(c) = p.class(owner) else { return bad("a field of nothing") };
            if !c.fields.contains(x) {
                return bad("a field its class does not list");
            }
            if c.flags.is_struct() != matches!(i, StructField(_)) {
                return bad("field of the wrong kind of class");
            }
            Ok(())
        }
        Construct(n, c) => match p.class(*c) {
            Ok(cl) if cl.flags.is_struct() && *n as usize <= cl.fields.len() => Ok(()),
            _ => bad("not a struct with as many fields"),
        },
        New(c) => match p.class(*c) {
            Ok(cl) if !cl.flags.is_struct() && !cl.flags.is_abstract() => Ok(()),
            _ => bad("not a class of objects"),
        },
        DynamicCast(c, _) => match p.class(*c) {
            Ok(cl) if !cl.flags.is_struct() => Ok(()),
            _ => bad("not a class of objects"),
        },
        InvokeStatic(_, _, g, _) => match p.definition(*g).map(|d| &d.value) {
            Ok(AnyDefinition::Function(_)) => Ok(()),
            _ => bad("not a function"),
        },
        InvokeVirtual(_, _, n, _) => p.names.get(*n).map(drop).or_else(|e| bad(&e.to_string())),
        Switch(t, _) | Equals(t) | RefStringEqualsString(t) | StringEqualsRefString(t) | NotEquals(t) | RefStringNotEqualsString(t)
        | StringNotEqualsRefString(t) | ArrayClear(t) | ArraySize(t) | ArrayResize(t) | ArrayFindFirst(t) | ArrayFindLast(t)
        | ArrayContains(t) | ArrayCount(t) | ArrayPush(t) | ArrayPop(t) | ArrayInsert(t) | ArrayRemove(t) | ArrayGrow(t)
        | ArrayErase(t) | ArrayLast(t) | ArrayElement(t) | EnumToI32(t, _) | I32ToEnum(t, _) | ToString(t) | ToVariant(t)
        | FromVariant(t) | AsRef(t) | Deref(t) => {
            if is_type(p, *t) {
                Ok(())
            } else {
                bad("not a type")
            }
        }
        _ => Ok(()),
    }
}

/// What holds for every pool the game can load.
pub fn wellformed(p: &ConstantPool) -> Result<(), (String, String)> {
    let bad = |sig: &str, m: String| Err((sig.to_owned(), m));
    let mut roots: BTreeSet<String> = BTreeSet::new();
    for (i, d) in p.definitions() {
        let n = u32::from(i);
        let name = match &d.value {
            AnyDefinition::SourceFile(_) => String::new(),
            _ => match p.def_name(i) {
                Ok(n) => n.to_string(),
                Err(e) => return bad("name", format!("definition {n} has no name: {e}")),
            },
        };
        let under = |parent: PoolIndex<Definition>| p.definition(parent).ok().filter(|_| u32::from(parent) != 0);
        match &d.value {
            AnyDefinition::Type(t) => {
                let ok = match t {
                    Type::Prim => base::PRIMS.contains(&name.as_str()),
                    Type::Class => p.definitions().any(|(j, d)| matches!(d.value, AnyDefinition::Class(_) | AnyDefinition::Enum(_)) && p.def_name(j).is_ok_and(|x| *x == *name)),
                    Type::Ref(x) | Type::WeakRef(x) | Type::Array(x) | Type::StaticArray(x, _) | Type::ScriptRef(x) => {
                        let inner = p.def_name(*x).map(|x| x.to_string()).unwrap_or_default();
                        let pre = match t {
                            Type::Ref(_) => "ref:",
                            Type::WeakRef(_) => "wref:",
                            Type::Array(_) => "array:",
                            Type::ScriptRef(_) => "script_ref:",
                            _ => "",
                        };
                        is_type(p, *x) && (pre.is_empty() || name == format!("{pre}{inner}"))
                    }
                };
                if !ok {
                    return bad("type", format!("type {name} ({t:?}) is not what its name says"));
                }
            }
            AnyDefinition::Class(c) => {
                if !c.base.is_undefined() {
                    if p.class(c.base).is_err() {
                        return bad("base", format!("the base of {name} is no class"));
                    }
                    if u32::from(c.base) >= n {
                        return bad("order", format!("class {name} ({n}) comes before its base class ({})", u32::from(c.base)));
                    }
                }
                let mut seen = BTreeSet::new();
                for f in &c.functions {
                    let fd = match p.definition(*f) {
                        Ok(d) if matches!(d.value, AnyDefinition::Function(_)) => d,
                        _ => return bad("method", format!("a method of {name} is no function")),
                    };
                    if fd.parent != i {
                        return bad("method", format!("method {} of {name} has another parent", p.def_name(*f).unwrap()));
                    }
                    if !seen.insert(p.def_name(*f).unwrap().to_string()) {
                        return bad("method-twice", format!("{name} has two methods {}", p.def_name(*f).unwrap()));
                    }
                }
                let mut seen = BTreeSet::new();
                for f in &c.fields {
                    let ok = p.definition(*f).is_ok_and(|d| matches!(d.value, AnyDefinition::Field(_)) && d.parent == i);
                    if !ok || !seen.insert(p.def_name(*f).unwrap().to_string()) {
                        return bad("field", format!("the fields of {name} are not distinct fields of its own"));
                    }
                    if !is_type(p, p.field(*f).unwrap().type_) {
                        return bad("field", format!("field {} of {name} has no type", p.def_name(*f).unwrap()));
                    }
                }
            }
            AnyDefinition::Enum(e) => {
                for m in &e.members {
                    if !p.definition(*m).is_ok_and(|d| matches!(d.value, AnyDefinition::EnumValue(_)) && d.parent == i) {
                        return bad("member", format!("a member of {name} is no member"));
                    }
                }
            }
            AnyDefinition::Function(f) => {
                match under(d.parent) {
                    None => {
                        if !roots.insert(name.clone()) && !f.flags.is_native() {
                            return bad("function-twice", format!("there are two functions {name}"));
                        }
                    }
                    Some(c) => {
                        let AnyDefinition::Class(c) = &c.value else { return bad("parent", format!("the parent of {name} is no class")) };
                        if c.functions.iter().filter(|x| x.cast() == i).count() != 1 {
                            return bad("listed", format!("method {name} is not listed by its class"));
                        }
                    }
                }
                for x in &f.parameters {
                    if !p.definition(*x).is_ok_and(|d| matches!(d.value, AnyDefinition::Parameter(_))) || !is_type(p, p.parameter(*x).unwrap().type_) {
                        return bad("parameter", format!("a parameter of {name} is no parameter"));
                    }
                }
                for x in &f.locals {
                    if !p.definition(*x).is_ok_and(|d| matches!(d.value, AnyDefinition::Local(_))) || !is_type(p, p.local(*x).unwrap().type_) {
                        return bad("local", format!("a local variable of {name} is no variable"));
                    }
                }
                if let Some(t) = f.return_type {
                    if !is_type(p, t) {
                        return bad("return", format!("{name} returns no type"));
                    }
                }
                if f.flags.has_return_value() != f.return_type.is_some() || f.flags.has_parameters() == f.parameters.is_empty() {
                    return bad("flags", format!("the flags of {name} do not agree with its signature"));
                }
                if let Some(s) = &f.source {
                    if u32::from(s.file) != 0 && !p.definition(s.file).is_ok_and(|d| matches!(d.value, AnyDefinition::SourceFile(_))) {
                        return bad("source", format!("the source of {name} is no file"));
                    }
                }
                for (_, x) in f.code.iter() {
                    if let Err(m) = check_instr(p, f, &x) {
                        return bad("code", format!("code of {name}: {m}"));
                    }
                }
            }
            AnyDefinition::Parameter(x) => {
                let Some(f) = under(d.parent) else { return bad("orphan", format!("parameter {name} belongs to nothing")) };
                if !matches!(f.value, AnyDefinition::Function(_)) || !is_type(p, x.type_) {
                    return bad("orphan", format!("parameter {name} belongs to no function"));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// A definition without the flags that tell which parts it has, these are set when it is stored.
fn unflagged(d: &Definition) -> String {
    let t = format!("{d:?}");
    let mut parts = t.split("has_");
    let mut o = parts.next().unwrap().to_owned();
    for p in parts {
        o += p.trim_start_matches(|c: char| c.is_alphanumeric() || c == '_' || c == ':' || c == ' ');
    }
    o
}

fn output(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = mods(s, 4);
    let files = split(s, &m);
    let text = listing(&files.0) + &listing(&files.1);
    ctx.sample(|| text.clone());
    let pool = build(&files)?;
    ctx.nontrivial_if(!m.w.classes.iter().all(|c| c.base.is_none()));
    if let Err((sig, msg)) = wellformed(&pool) {
        return fail(&sig, format!("{msg}\n{text}"));
    }
    stored(pool, &text)
}

/// What is stored is what was compiled.
fn stored(pool: ConstantPool, text: &str) -> R {
    // the header of an existing cache
    let mut bundle = PREDEF.with(|b| ScriptBundle::load(&mut Cursor::new(b))).expect("the cache of the repository loads");
    bundle.pool = pool;
    let mut bytes = Cursor::new(vec![]);
    if let Err(e) = bundle.save(&mut bytes) {
        return fail("save", format!("the compiled pool cannot be saved: {e}\n{text}"));
    }
    let bytes = bytes.into_inner();
    let again = match ScriptBundle::load(&mut Cursor::new(&bytes)) {
        Ok(b) => b,
        Err(e) => return fail("load", format!("the compiled pool cannot be loaded: {e}\n{text}")),
    };
    for ((i, a), (_, b)) in bundle.pool.definitions().zip(again.pool.definitions()) {
        // native functions are stored without their source, and what a function has is noted when it is stored
        let mut a = a.clone();
        match &mut a.value {
            AnyDefinition::Function(f) if f.flags.is_native() => f.source = None,
            // file names which are no text are stored as what is shown of them
            AnyDefinition::SourceFile(f) => f.path = f.path.to_string_lossy().replace('\\', "/").into(),
            _ => {}
        }
        ensure!(unflagged(&a) == unflagged(b), "reload", "definition {i} is {a:?}, after loading {b:?}\n{text}");
    }
    ensure!(bundle.pool.definitions().count() == again.pool.definitions().count(), "reload", "definitions were lost\n{text}");
    let run = |p: &ConstantPool| {
        let mut vm = Vm::new(p);
        vm.fuel = 200_000;
        let f = vm.find_prefix("Main;").expect("Main");
        let r = vm.call(f, None, vec![]).map(|r| r.0);
        format!("{r:?} {:?}", vm.trace)
    };
    ensure!(run(&bundle.pool) == run(&again.pool), "reload", "the loaded program behaves differently\n{text}");
    Ok(())
}

/// Programs at the limits of what the format can hold: those within compile and are stored, the others are
/// rejected, or at the latest refused when they are stored.
fn limits(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut path = std::path::PathBuf::from("a.reds");
    // must it compile, may it compile but be refused when stored?
    let (mut fits, mut late) = (true, false);
    let mut fields = 0;
    let mut probes = 0;
    let around = |s: &mut Src, n: i64| if s.chance(3, 4) { n + s.range(-2, 2) } else { s.range(n - n / 8, n + n / 4) };
    let src = match s.below(5) {
        0 => {
            ctx.label("struct");
            fields = around(s, 255) as usize;
            fits = fields <= 255;
            let decl: String = (0..fields).map(|i| format!("let f{i}: Int32;\n")).collect();
            let args: Vec<String> = (0..fields).map(|i| i.to_string()).collect();
            let last = fields - 1;
            format!("struct S {{ {decl} }}\nfunc Main() -> Void {{ let v = new S({}); P_Int32(0, v.f{last}); P_Int32(1, v.f{}); }}\n", args.join(", "), last / 2)
        }
        1 => {
            ctx.label("property");
            let n = around(s, 65_535) as usize;
            late = n > 65_535;
            let (k, v) = if s.bool() { ("x".repeat(n), "v".to_owned()) } else { ("k".to_owned(), "x".repeat(n)) };
            format!("class A {{ @runtimeProperty(\"{k}\", \"{v}\") let f: Int32; }}\nfunc Main() -> Void {{ P_Int32(0, 1); }}\n")
        }
        2 => {
            ctx.label("code");
            // a probe of a constant of two or four bytes takes 22 or 25 bytes with the call
            let each = |n: usize| format!("P_Int32({}, {});\n", 100 + n % 20, 1000 + n);
            let size = |src: &str| -> Result<u64, pbt::Fail> {
                let mut pool = base::base();
                compile_ok(&mut pool, &[("a.reds".into(), src.to_owned())])?;
                let f = Vm::new(&pool).find_prefix("Main;").expect("Main");
                Ok(pool.function(f).unwrap().code.iter().map(|(_, i)| u64::from(i.size())).sum())
            };
            let whole = |n: usize| format!("func Main() -> Void {{ {} }}\n", (0..n).map(each).collect::<String>());
            let (one, two) = (size(&whole(1))?, size(&whole(2))?);
            let most = (65_535 - one) / (two - one) + 1;
            probes = around(s, most as i64) as usize;
            fits = probes as u64 <= most;
            whole(probes)
        }
        3 => {
            ctx.label("zero");
            let lit = *s.pick(&["\\u{0}", "\\u{000}", "\\u{000000}", "\0"]);
            let p = *s.pick(&["", "n", "t", "r", "s"]);
            fits = false;
            let (a, b) = (*s.pick(&["", "a", "\u{e9}"]), *s.pick(&["", "b"]));
            match p {
                "" | "s" => format!("func Main() -> Void {{ P_String(0, {p}\"{a}{lit}{b}\"); }}\n"),
                "n" => format!("func Main() -> Void {{ P_CName(0, n\"{a}{lit}{b}\"); }}\n"),
                "t" => format!("func Main() -> Void {{ P_TweakDBID(0, t\"{a}{lit}{b}\"); }}\n"),
                _ => format!("func Main() -> Void {{ P_ResRef(0, r\"{a}{lit}{b}\"); }}\n"),
            }
        }
        _ => {
            ctx.label("path");
            use std::os::unix::ffi::OsStringExt;
            let mut name = b"mods/".to_vec();
            for _ in 0..s.size(1, 6) {
                name.push(*s.pick(&[b'a', 0xe9, 0xff, 0xc3, 0x80, b'/', b'.']));
            }
            path = std::ffi::OsString::from_vec(name).into();
            "func Main() -> Void { P_Int32(0, 1); }\n".into()
        }
    };
    let brief = |s: &str| {
        let mut c = s.chars();
        let head: String = c.by_ref().take(300).collect();
        if c.next().is_some() { format!("{head}... ({} bytes)", s.len()) } else { head }
    };
    let text = format!("{}\n{}", path.display(), brief(&src));
    ctx.sample(|| text.clone());
    ctx.label(if fits && !late { "fits" } else { "too much" });
    ctx.nontrivial_if(true);
    let mut files = redscript_compiler::source_map::Files::new();
    files.add(path.clone(), src);
    let mut pool = base::base();
    let out = pbt::catch(|| {
        let r = redscript_compiler::unit::CompilationUnit::new_with_defaults(&mut pool)?.compile_files(&files);
        r.map(|o| base::fatal(&o))
    });
    let rejected = match out {
        Err(p) => return fail("panic", format!("compiling panicked: {p}\n{text}")),
        Ok(Err(e)) => Some(format!("{e}")),
        Ok(Ok(fatal)) => fatal.first().cloned(),
    };
    match (&rejected, fits) {
        (Some(e), true) if !late => return fail("rejected", format!("{e}\n{text}")),
        (None, false) => return fail("accepted", format!("a program which a cache cannot hold is accepted\n{text}")),
        _ => {}
    }
    if rejected.is_some() {
        return Ok(());
    }
    if let Err((sig, msg)) = wellformed(&pool) {
        return fail(&sig, format!("{}\n{text}", brief(&msg)));
    }
    let mut vm = Vm::new(&pool);
    vm.fuel = 200_000;
    let f = vm.find_prefix("Main;").expect("Main");
    if fields > 0 {
        let ok = pool.function(f).unwrap().code.iter().any(|(_, i)| matches!(i, Instr::Construct(n, _) if usize::from(n) == fields));
        ensure!(ok, "construct", "the values of the struct got lost\n{text}");
    }
    if probes > 0 {
        vm.call(f, None, vec![]).map(drop).or_else(|e| fail("run", format!("{e:?}\n{text}")))?;
        ensure!(vm.trace.len() == probes, "run", "{} of {probes} statements were run\n{text}", vm.trace.len());
    }
    if late {
        let mut bundle = PREDEF.with(|b| ScriptBundle::load(&mut Cursor::new(b))).expect("the cache of the repository loads");
        bundle.pool = pool;
        return match pbt::catch(|| bundle.save(&mut Cursor::new(vec![]))) {
            Err(p) => fail("panic", format!("storing panicked: {p}\n{text}")),
            Ok(Ok(())) => fail("accepted", format!("a pool which a cache cannot hold is stored\n{text}")),
            Ok(Err(_)) => Ok(()),
        };
    }
    stored(pool, &text)
}

fn determinism(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = mods(s, 4);
    let files = split(s, &m);
    let text = listing(&files.0) + &listing(&files.1);
    ctx.sample(|| text.clone());
    ctx.nontrivial_if(m.wraps.len() > 1 || m.w.classes.len() > 1);
    let a = build(&files)?;
    let b = build(&files)?;
    for ((i, x), (_, y)) in a.definitions().zip(b.definitions()) {
        ensure!(
            format!("{x:?}") == format!("{y:?}"),
            "differs",
            "compiling twice gives different pools: definition {i} ({}) is {x:?}, then {y:?}\n{text}",
            a.def_name(i).map(|n| n.to_string()).unwrap_or_default()
        );
        ensure!(a.def_name(i).ok() == b.def_name(i).ok(), "differs", "compiling twice gives different pools\n{text}");
    }
    ensure!(a.definitions().count() == b.definitions().count(), "differs", "compiling twice gives different pools\n{text}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C42",
            rule: "some class has another class of the program as its base",
            level: "exploration",
            assumptions: &[],
            subs: vec![
                Sub { name: "output", quick: 150, thorough: 20_000, run: output },
                Sub { name: "limits", quick: 20, thorough: 2_000, run: limits },
            ],
        },
        Prop {
            id: "C43",
            rule: "two classes or two wrapped methods",
            level: "exploration",
            assumptions: &[],
            subs: vec![Sub { name: "determinism", quick: 150, thorough: 20_000, run: determinism }],
        },
    ]
}

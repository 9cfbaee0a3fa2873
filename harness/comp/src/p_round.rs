//! What the decompiler writes for compiled code is source that compiles to the same behaviour.
use std::io::Cursor;

use pbt::{ensure, fail, Ctx, Prop, Src, Sub, R};
use redscript::bundle::{ConstantPool, ScriptBundle};
use redscript::definition::AnyDefinition;
use redscript_decompiler::print::{write_definition, OutputMode};

use crate::base;
use crate::gen::{Opts, G};
use crate::lang::{St, World};
use crate::p_sem::{compile_ok, into_files, listing, outcome, shuffled};
use crate::val::Stop;
use crate::vm::Vm;

/// The declarations of a world with the functions as the decompiler writes them.
fn rewritten(w: &World, pool: &ConstantPool, known: usize, mode: OutputMode) -> Result<Vec<String>, pbt::Fail> {
    let text = |i: redscript::bundle::PoolIndex<redscript::definition::Definition>, depth: usize| -> Result<String, pbt::Fail> {
        let mut out = vec![];
        let d = pool.definition(i).unwrap();
        match pbt::catch(|| write_definition(&mut out, d, pool, depth, mode)) {
            Err(p) => fail("decompile-panic", format!("decompiling {} panicked: {p}", pool.def_name(i).unwrap())).map(|()| String::new()),
            Ok(Err(e)) => fail("decompile-error", format!("decompiling {}: {e}", pool.def_name(i).unwrap())).map(|()| String::new()),
            Ok(Ok(())) => Ok(source(&String::from_utf8(out).unwrap())),
        }
    };
    let mut bare = w.clone();
    bare.funcs.clear();
    bare.classes.clear();
    let mut v = bare.decls();
    for t in &w.structs {
        v.push(format!("public func Fresh_{0}() -> {0} {{ let s: {0}; return s; }}\n", t.name));
    }
    for (i, d) in pool.definitions() {
        if u32::from(i) < known as u32 {
            continue;
        }
        match &d.value {
            AnyDefinition::Class(c) if !c.flags.is_struct() => {
                let name = pool.def_name(i).unwrap();
                let Some(src) = w.classes.iter().find(|x| x.name == &*name) else { continue };
                let ext = src.base.map_or(String::new(), |b| format!(" extends {}", w.classes[b].name));
                let mut o = format!("public {}class {}{ext} {{\n", if src.abstract_ { "abstract " } else { "" }, src.name);
                for f in &src.fields {
                    o += &format!("  {}\n", w.field(f));
                }
                for m in &c.functions {
                    let f = pool.function(*m).unwrap();
                    let t = text(m.cast(), 1)?;
                    o += &if f.flags.has_body() { t } else { t.replacen("public ", "public abstract ", 1) };
                }
                v.push(o + "}\n");
            }
            AnyDefinition::Function(_) if d.parent.is_undefined() => v.push(text(i, 0)?),
            _ => {}
        }
    }
    Ok(v)
}

/// Whether a block leaves the switch it is in.
fn leaves(b: &[St]) -> bool {
    b.iter().any(|s| match s {
        St::Break => true,
        St::If(_, a, e) => leaves(a) || leaves(e.as_deref().unwrap_or(&[])),
        _ => false,
    })
}

/// Without the only break of a switch being in its default: decompiling that is a known finding of C20.
fn without_lone_breaks(b: &mut [St]) {
    for s in b {
        match s {
            St::If(_, a, e) => {
                without_lone_breaks(a);
                without_lone_breaks(e.as_deref_mut().unwrap_or(&mut []));
            }
            St::While(_, b) | St::For(_, _, _, b) => without_lone_breaks(b),
            St::Switch(_, cases, def) => {
                if leaves(def.as_deref().unwrap_or(&[])) && !cases.iter().any(|c| leaves(&c.1)) {
                    *def = None;
                }
                cases.iter_mut().for_each(|c| without_lone_breaks(&mut c.1));
                without_lone_breaks(def.as_deref_mut().unwrap_or(&mut []));
            }
            _ => {}
        }
    }
}

/// Names the compiler makes up are not identifiers; array literals become resizing to a Uint64 size,
/// which source only does to an Int32 one, and setting elements by Uint64 positions.
fn source(t: &str) -> String {
    let mut o = String::new();
    for line in t.replace('$', "_").lines() {
        let t = line.trim_start();
        if t.starts_with("ArrayResize(synthetic_") && t.ends_with("ul);") {
            o += &line.replace("ul);", ");");
        } else if t.starts_with("synthetic_") && t.split('=').next().unwrap().ends_with("ul] ") {
            o += &line.replacen("ul] ", "] ", 1);
        } else {
            o += line;
        }
        o += "\n";
    }
    // structs without values, which source only has in variables
    for i in 0..9 {
        o = o.replace(&format!("new St{i}()"), &format!("Fresh_St{i}()"));
    }
    o
}

/// A pool after it was written to a file and read again.
fn stored(pool: ConstantPool) -> Result<ConstantPool, pbt::Fail> {
    let mut header = 0x5344_4552u32.to_le_bytes().to_vec();
    header.extend(14u32.to_le_bytes());
    header.resize(104, 0);
    let mut empty = ScriptBundle::load(&mut Cursor::new(&header)).expect("an empty bundle can be read");
    empty.pool = pool;
    let mut out = Cursor::new(vec![]);
    let r = pbt::catch(|| {
        empty.save(&mut out)?;
        out.set_position(0);
        ScriptBundle::load(&mut out)
    });
    match r {
        Ok(Ok(b)) => Ok(b.pool),
        Ok(Err(e)) => fail("storing", format!("what was compiled cannot be stored and read: {e}")),
        Err(p) => fail("storing-panic", format!("storing what was compiled panicked: {p}")),
    }
}

fn round(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut g = G::new(s, Opts { max_families: 4, max_stmts: 6, depth: 3 });
    g.world();
    let mut w = g.w;
    for f in &mut w.funcs {
        without_lone_breaks(f.body.as_deref_mut().unwrap_or(&mut []));
    }
    let files = into_files(s, w.decls());
    ctx.sample(|| listing(&files));
    let mut pool = base::base();
    let known = pool.definitions().count();
    compile_ok(&mut pool, &files)?;
    let pool = stored(pool)?;
    let again = rewritten(&w, &pool, known, OutputMode::Code { verbose: false })?;
    let again = shuffled(s, again);
    let again = into_files(s, again);
    let mut pool2 = base::base();
    let both = || format!("--- source\n{}--- decompiled\n{}", listing(&files), listing(&again));
    let out = match pbt::catch(|| base::compile(&mut pool2, &again)) {
        Err(p) => return fail("panic", format!("compiling what was decompiled panicked: {p}\n{}", both())),
        Ok(Err(e)) => return fail("error", format!("what was decompiled is rejected: {e:?}\n{}", both())),
        Ok(Ok(o)) => o,
    };
    let f = base::fatal(&out);
    ensure!(f.is_empty(), "rejected", "what was decompiled is rejected: {f:?}\n{}", both());
    let run = |p: &ConstantPool| {
        let mut vm = Vm::new(p);
        vm.fuel = 4_000_000;
        let main = vm.find_prefix("Main;").unwrap();
        let r = outcome(vm.call(main, None, vec![]).map(|r| r.0));
        let objects: Vec<String> = (0..vm.heap_size()).map(|i| format!("{} {:?}", vm.class_name(i), vm.object_state(i))).collect();
        (r, std::mem::take(&mut vm.trace), objects)
    };
    let (r1, t1, o1) = run(&pool);
    let (r2, t2, o2) = run(&pool2);
    if matches!(r1, Err(Stop::Fuel)) {
        ctx.label("too-long");
        return Ok(());
    }
    ctx.nontrivial_if(t1.len() >= 2);
    for i in 0..t1.len().max(t2.len()) {
        ensure!(t1.get(i) == t2.get(i), "trace", "event {i}: {:?} at first, {:?} after the round trip\n{}", t1.get(i), t2.get(i), both());
    }
    ensure!(format!("{r1:?}") == format!("{r2:?}"), "result", "Main returns {r1:?} at first, {r2:?} after the round trip\n{}", both());
    ensure!(o1 == o2, "objects", "objects end as {o1:?} at first, {o2:?} after the round trip\n{}", both());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C48",
        rule: "random programs compiled, stored, loaded, decompiled and compiled again; non-trivial = the run shows at least two events",
        level: "exploration",
        assumptions: &["names, Uint64 array positions and empty structs of the compiler's making are rewritten to what source can say", "no break in default that is the only one of its switch"],
        subs: vec![Sub { name: "round", quick: 2_000, thorough: 150_000, run: round }],
    }]
}

use pbt::{ensure, ensure_eq, fail, Ctx, Prop, Src, Sub, R};

use crate::base;
use crate::gen::{Opts, G};
use crate::interp::Interp;
use crate::lang::World;
use crate::val::Stop;
use crate::vm::Vm;

/// What can be seen of a run.
pub fn outcome<T: std::fmt::Debug>(r: Result<T, Stop>) -> Result<String, Stop> {
    match r {
        Ok(v) => Ok(format!("{v:?}")),
        Err(Stop::Abort(w)) => Ok(format!("abort: {w}")),
        Err(s) => Err(s),
    }
}

pub fn shuffled(s: &mut Src, mut v: Vec<String>) -> Vec<String> {
    for i in (1..v.len()).rev() {
        let j = i - s.idx(i + 1);
        v.swap(i, j);
    }
    v
}

/// Splits declarations over files.
pub fn into_files(s: &mut Src, decls: Vec<String>) -> Vec<(String, String)> {
    let n = s.size(1, 3);
    let mut files: Vec<(String, String)> = (0..n).map(|i| (format!("dir/file{i}.reds"), String::new())).collect();
    for d in decls {
        let i = s.idx(n);
        files[i].1 += &d;
        files[i].1 += "\n";
    }
    files
}

pub fn listing(files: &[(String, String)]) -> String {
    files.iter().map(|(p, t)| format!("// {p}\n{t}")).collect()
}

pub fn compile_ok(pool: &mut redscript::bundle::ConstantPool, files: &[(String, String)]) -> Result<redscript_compiler::unit::CompilationOutput, pbt::Fail> {
    let out = match pbt::catch(|| base::compile(pool, files)) {
        Err(p) => return fail("compile-panic", format!("compiling panicked: {p}\n{}", listing(files))),
        Ok(Err(e)) => return fail("compile-error", format!("a well-typed program is rejected: {e:?}\n{}", listing(files))),
        Ok(Ok(o)) => o,
    };
    let f = base::fatal(&out);
    if !f.is_empty() {
        return fail("rejected", format!("a well-typed program is rejected: {f:?}\n{}", listing(files)));
    }
    Ok(out)
}

pub fn compare(ctx: &mut Ctx, w: &World, vm: &mut Vm<'_>, it: &mut Interp<'_>, files: &[(String, String)]) -> R {
    let main = w.funcs.iter().position(|f| f.name == "Main").unwrap();
    let Some(f) = vm.find_prefix("Main;") else { return fail("no-main", "the compiled pool has no function Main".to_owned()) };
    let want = outcome(it.call(main, None, vec![]).map(|r| r.0));
    let got = outcome(vm.call(f, None, vec![]).map(|r| r.0));
    let want = match want {
        Ok(v) => v,
        Err(Stop::Fuel) => {
            ctx.label("too-long");
            return Ok(());
        }
        Err(s) => unreachable!("{s:?}"),
    };
    let got = match got {
        Ok(v) => v,
        Err(Stop::Fuel) => return fail("runs-on", format!("the compiled program does not end, the source does after {} steps\n{}", 20_000 - it.fuel, listing(files))),
        Err(Stop::Bad(m)) => return fail("malformed", format!("the compiled code is malformed: {m}\n{}", listing(files))),
        Err(Stop::Abort(_)) => unreachable!(),
    };
    ctx.nontrivial_if(it.trace.len() >= 2);
    if want.starts_with("abort") {
        ctx.label("aborts");
    }
    for i in 0..it.trace.len().max(vm.trace.len()) {
        let (a, b) = (it.trace.get(i), vm.trace.get(i));
        ensure!(a == b, "trace", "event {i}: the source does {a:?}, the compiled code {b:?}\n{}", listing(files));
    }
    ensure!(want == got, "result", "Main returns {want} in the source, {got} in the compiled code\n{}", listing(files));
    ensure_eq!(it.heap.len(), vm.heap_size(), "heap");
    for (i, o) in it.heap.iter().enumerate() {
        let mut want: Vec<_> = o.fields.clone();
        want.sort_by(|a, b| a.0.cmp(&b.0));
        let got = vm.object_state(i);
        ensure!(format!("{want:?}") == format!("{got:?}"), "object", "object {i} ends as {got:?}, not {want:?}\n{}", listing(files));
    }
    Ok(())
}

fn behaviour(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut g = G::new(s, Opts { max_families: 5, max_stmts: 6, depth: 3 });
    g.world();
    let w = g.w;
    let decls = shuffled(s, w.decls());
    let files = into_files(s, decls);
    ctx.sample(|| listing(&files));
    let mut pool = base::base();
    compile_ok(&mut pool, &files)?;
    let mut vm = Vm::new(&pool);
    vm.fuel = 4_000_000;
    let mut it = Interp::new(&w);
    compare(ctx, &w, &mut vm, &mut it, &files)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C40",
        rule: "the source run shows at least two events",
        level: "exploration",
        assumptions: &[],
        subs: vec![Sub { name: "behaviour", quick: 400, thorough: 40_000, run: behaviour }],
    }]
}

use pbt::{ensure, ensure_eq, fail, Ctx, Prop, Src, Sub, R};
use redscript::bundle::PoolIndex;
use redscript::bytecode::Instr;
use redscript::definition::Function;
use redscript_decompiler::Decompiler;

use crate::env::*;
use crate::tree::{self, *};

pub fn class_of(s: &mut Src) -> Option<usize> {
    match s.below(4) {
        0 => None,
        k => Some(k as usize - 1),
    }
}

pub fn decompile(env: &Env, idx: PoolIndex<Function>) -> Result<Vec<T>, pbt::Fail> {
    let fun = env.pool.function(idx).or_else(|e| fail("pool", e.to_string()))?;
    let def = env.pool.definition(idx).or_else(|e| fail("pool", e.to_string()))?;
    match Decompiler::decompiled(fun, def, &env.pool) {
        Ok(seq) => Ok(tree::seq(&seq)),
        Err(e) => fail("error", format!("decompilation failed: {e}")),
    }
}

pub fn show(ts: &[T]) -> String {
    let mut o = String::new();
    for t in ts {
        o.push_str(&format!("{t:?}; "));
    }
    o
}

/// Locals are declared exactly once and with their type.
fn check_locals(locals: &[(PoolIndex<redscript::definition::Local>, String, String)], decls: &[(String, Option<String>)]) -> R {
    for (_, n, ty) in locals {
        let found: Vec<_> = decls.iter().filter(|(d, _)| d == n).collect();
        ensure!(found.len() == 1, "declared once", "local {n} is declared {} times", found.len());
        ensure_eq!(found[0].1.clone(), Some(ty.clone()), "local type", "{n}");
    }
    ensure_eq!(decls.len(), locals.len(), "number of declarations");
    Ok(())
}

/// A declaration never follows a use.
fn check_order(locals: &[(PoolIndex<redscript::definition::Local>, String, String)], raw: &[T]) -> R {
    let text: Vec<String> = raw
        .iter()
        .map(|t| match t {
            T::Declare(_, _, v) => v.as_ref().map_or(String::new(), |v| format!("{v:?}")),
            other => format!("{other:?}"),
        })
        .collect();
    for (_, name, _) in locals {
        let decl = raw.iter().position(|t| matches!(t, T::Declare(n, _, _) if n == name));
        let used = text.iter().position(|t| t.contains(&format!("Id({name:?})")));
        if let (Some(d), Some(u)) = (decl, used) {
            ensure!(d < u, "declared before use", "{name} is used before its declaration: {}", show(raw));
        }
    }
    Ok(())
}

fn flow(s: &mut Src, c: &mut Ctx, rich: bool) -> R {
    let fuel = if rich { 60 } else { s.size(2, 40) };
    program(s, c, rich, fuel, |em, s| em.block(s, 0, None))
}

fn flow_continue(s: &mut Src, c: &mut Ctx) -> R {
    let fuel = s.size(2, 40);
    program(s, c, false, fuel, |em, s| {
        em.continues = true;
        em.block(s, 0, None)
    })
}

fn default_break(s: &mut Src, c: &mut Ctx) -> R {
    program(s, c, false, 10, |em, _| em.lone_default(false))
}

fn empty_default(s: &mut Src, c: &mut Ctx) -> R {
    program(s, c, false, 10, |em, _| em.lone_default(true))
}

fn program(s: &mut Src, c: &mut Ctx, rich: bool, fuel: usize, write: fn(&mut Emit, &mut Src) -> Vec<T>) -> R {
    let mut env = Env::new(s);
    let class = class_of(s);
    let mut em = Emit::new(s, &mut env, class, rich, fuel);
    let want = write(&mut em, s);
    let locals = em.locals.clone();
    let limit = 300 + em.next_leaf as usize;
    let (idx, stats) = em.finish();
    let got = decompile(&env, idx).map_err(|mut f| {
        f.msg = format!("{}\n  source {}", f.msg, show(&want));
        f
    })?;
    check_order(&locals, &got)?;
    let mut decls = vec![];
    let got = without_lets(&got, &mut decls);
    check_locals(&locals, &decls)?;
    // a jump back to the head of a loop has no statement of its own and stays a jump
    if has_goto(&want) {
        let fun = env.pool.function(idx).or_else(|e| fail("pool", e.to_string()))?;
        let heads: Vec<u16> = fun
            .code
            .iter()
            .filter_map(|(at, i)| match i {
                Instr::Jump(to) if to.value < 0 => Some(to.absolute(at).value),
                _ => None,
            })
            .collect();
        ensure!(
            gotos(&got).iter().all(|g| heads.contains(g)),
            "goto",
            "a jump which leads to no loop:\n  source {}\n  result {}",
            show(&want),
            show(&got)
        );
    }
    ensure!(
        has_goto(&want) || !has_goto(&got),
        "goto",
        "structured code came back with a jump:\n  source {}\n  result {}",
        show(&want),
        show(&got)
    );
    for k in 0..12 {
        let seed = pbt::mix(k);
        let a = trace(&want, seed, limit);
        let b = trace(&got, seed, limit);
        if a != b {
            let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            return fail(
                "trace",
                format!(
                    "decompiled code behaves differently at step {at}: {:?} instead of {:?}\n  source {}\n  result {}",
                    b.get(at),
                    a.get(at),
                    show(&want),
                    show(&got)
                ),
            );
        }
    }
    if stats.loops > 0 {
        c.label("loop");
    }
    if stats.switches > 0 {
        c.label("switch");
    }
    if stats.breaks > 0 {
        c.label("break");
    }
    if stats.continues > 0 {
        c.label("continue");
    }
    if stats.returns > 0 {
        c.label("return");
    }
    c.nontrivial_if(stats.loops + stats.switches + stats.ifs >= 2);
    c.sample(|| show(&want));
    Ok(())
}

fn flow_plain(s: &mut Src, c: &mut Ctx) -> R {
    flow(s, c, false)
}

fn flow_rich(s: &mut Src, c: &mut Ctx) -> R {
    flow(s, c, true)
}

fn straight(s: &mut Src, c: &mut Ctx) -> R {
    let mut env = Env::new(s);
    let class = class_of(s);
    let fuel = s.size(1, 50);
    let mut em = Emit::new(s, &mut env, class, true, fuel);
    let n = s.size(1, 5);
    let mut want = vec![];
    for _ in 0..n {
        want.push(if s.bool() { em.assign(s) } else { em.expr(s, 0) });
    }
    if s.bool() {
        want.push(em.ret(s));
    }
    let locals = em.locals.clone();
    let (idx, stats) = em.finish();
    let raw = decompile(&env, idx)?;
    let mut decls = vec![];
    let got = without_lets(&raw, &mut decls);
    check_locals(&locals, &decls)?;
    if got != want {
        let at = got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len()));
        return fail(
            "statements",
            format!(
                "statement {at} came back differently:\n  result {:?}\n  source {:?}\n  ({} statements instead of {})",
                got.get(at),
                want.get(at),
                got.len(),
                want.len()
            ),
        );
    }
    check_order(&locals, &raw)?;
    c.nontrivial_if(stats.exprs >= 4);
    c.sample(|| show(&want));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            level: "exploration",
            rule: "random structured programs (nested if/else, while, switch with shared, falling-through, breaking and returning cases, unreachable tails, debug instructions between statements) laid out as the compilers lay them out; the decompiled tree must have no goto, declare every local once and before its uses, and give the same trace as the source for 12 streams of condition outcomes; non-trivial = two or more control structures",
            assumptions: &["code laid out as the repository's compiler lays it out", "leaf statements and conditions are opaque events; loops are followed for 300 events"],
            subs: vec![
                Sub { name: "plain", quick: 60_000, thorough: 2_000_000, run: flow_plain },
                Sub { name: "rich", quick: 20_000, thorough: 600_000, run: flow_rich },
                Sub { name: "continue", quick: 20_000, thorough: 600_000, run: flow_continue },
                Sub { name: "lone-default-break", quick: 3, thorough: 3, run: default_break },
                Sub { name: "empty-default", quick: 3, thorough: 3, run: empty_default },
            ],
        },
        Prop {
            id: "C21",
            level: "exploration",
            rule: "random expressions over every expression instruction (all constants, intrinsics, calls with lazy and omitted arguments, static, virtual, super and context calls, casts, members), decompiled and compared node by node with what was encoded; non-trivial = four or more nodes",
            assumptions: &["finite floating-point constants", "one type argument per stored type name"],
            subs: vec![Sub { name: "straight", quick: 60_000, thorough: 2_000_000, run: straight }],
        },
    ]
}

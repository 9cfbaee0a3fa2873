use pbt::{Ctx, Prop, Src, Sub, R};

use crate::base;
use crate::gen::{Opts, G};
use crate::interp::Interp;
use crate::lang::{FieldDef, Func, Param, St, World};
use crate::p_sem::{compare, compile_ok, into_files, listing, shuffled};
use crate::vm::Vm;
use std::collections::HashMap;

/// A program, declarations that modify it, and what they amount to.
pub struct Mods {
    pub game: Vec<String>,
    /// in the order of their files
    pub mods: Vec<String>,
    /// declarations free to move
    pub loose: Vec<String>,
    pub w: World,
    pub wraps: HashMap<usize, Vec<Func>>,
    pub replaced: HashMap<usize, Func>,
    pub conflicts: usize,
}

fn renamed(f: &Func, k: usize, s: &mut Src) -> Func {
    let mut f = f.clone();
    if s.chance(2, 3) {
        for (i, p) in f.params.iter_mut().enumerate() {
            p.name = format!("w{k}_{i}");
        }
    }
    f
}

pub fn mods(s: &mut Src, max: usize) -> Mods {
    let mut g = G::new(s, Opts { max_families: 5, max_stmts: 5, depth: 2 });
    g.world();
    let game = g.w.decls();
    let originals = g.w.funcs.len();
    let mut loose = vec![];
    // what the additions bring is there for the bodies of all modifications
    for l in &mut g.level {
        *l += 1;
    }
    let n = g.s.idx(3);
    for i in 0..n {
        let c = g.s.idx(g.w.classes.len());
        let ty = g.any_ty();
        let f = FieldDef { name: format!("added{i}"), ty, default: None };
        loose.push(format!("@addField({})\n{}\n", g.w.classes[c].name, g.w.field(&f)));
        g.w.classes[c].fields.push(f);
    }
    let n = g.s.idx(3);
    let mut added = vec![];
    for i in 0..n {
        let c = g.s.idx(g.w.classes.len());
        let root = g.w.funcs.len();
        let mut params = vec![];
        for j in 0..g.s.idx(3) {
            let ty = g.any_ty();
            params.push(Param { name: format!("a{i}_{j}"), ty, out: false, opt: false });
        }
        let ret = g.s.chance(3, 4).then(|| g.any_ty());
        let static_ = g.s.chance(1, 3);
        let f = Func { name: format!("Added{i}"), owner: Some(c), root, static_, final_: !static_ && g.s.bool(), params, ret, body: Some(vec![]), short: false };
        // subclasses can be given an override of their own
        let over: Vec<usize> = if static_ || f.final_ { vec![] } else { (c + 1..g.w.classes.len()).filter(|k| g.sub(*k, c)).collect() };
        g.w.funcs.push(f.clone());
        g.level.push(0);
        added.push(root);
        for k in over {
            if g.s.bool() {
                added.push(g.w.funcs.len());
                g.w.funcs.push(Func { owner: Some(k), ..f.clone() });
                g.level.push(0);
            }
        }
    }
    for f in added {
        let b = g.body(f, false);
        g.w.funcs[f].body = Some(b);
        let fun = g.w.funcs[f].clone();
        loose.push(g.w.func(&fun, 0, &format!("@addMethod({})\n", g.w.classes[fun.owner.unwrap()].name)));
    }
    let mut targets: Vec<usize> = (0..originals).filter(|f| g.w.funcs[*f].body.is_some()).collect();
    // prefer few targets with several modifications each
    while targets.len() > 3 {
        let i = g.s.idx(targets.len());
        targets.swap_remove(i);
    }
    let mut wraps: HashMap<usize, Vec<Func>> = HashMap::new();
    let mut replaced = HashMap::new();
    let mut mods = vec![];
    let mut conflicts = 0;
    let n = g.s.size(1, max);
    for k in 0..n {
        let f = *g.s.pick(&targets);
        let fun = g.w.funcs[f].clone();
        let mut new = renamed(&fun, k, g.s);
        new.short = false;
        let old = std::mem::replace(&mut g.w.funcs[f].params, new.params.clone());
        let wrap = fun.owner.is_some() && g.s.chance(2, 3);
        g.wrap = wrap.then_some(f);
        let mut body = g.body(f, false);
        if wrap && g.s.chance(2, 3) {
            // most wrappers do call what they wrap
            let top = g.wrapped_call(f);
            if let Some(st) = top {
                body.insert(0, st);
            }
        }
        g.wrap = None;
        g.w.funcs[f].params = old;
        new.body = Some(body);
        match fun.owner {
            Some(c) => {
                let class = &g.w.classes[c].name;
                let ann = if wrap { "wrapMethod" } else { "replaceMethod" };
                mods.push(g.w.func(&new, 0, &format!("@{ann}({class})\n")));
            }
            None => mods.push(g.w.func(&new, 0, "@replaceGlobal()\n")),
        }
        if wrap {
            wraps.entry(f).or_default().push(new);
        } else if replaced.insert(f, new).is_some() {
            conflicts += 1;
        }
    }
    Mods { game, mods, loose, w: g.w.clone(), wraps, replaced, conflicts }
}

fn body_calls_wrapped(b: &[St]) -> bool {
    format!("{b:?}").contains("Wrapped(")
}

fn annotations(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = mods(s, 5);
    let game = shuffled(s, m.game.clone());
    let game = into_files(s, game);
    let mut all = m.mods.clone();
    for l in &m.loose {
        let i = s.idx(all.len() + 1);
        all.insert(i, l.clone());
    }
    let n = s.size(1, 3);
    let mut files: Vec<(String, String)> = (0..n).map(|i| (format!("mods/m{i}.reds"), String::new())).collect();
    let mut at = 0;
    let left = all.len();
    for (i, d) in all.into_iter().enumerate() {
        if at + 1 < n && s.chance(1, (left - i) as u64 + 1) {
            at += 1;
        }
        files[at].1 += &d;
        files[at].1 += "\n";
    }
    let both: Vec<_> = game.iter().chain(&files).cloned().collect();
    ctx.sample(|| listing(&both));
    let mut pool = base::base();
    compile_ok(&mut pool, &game).map_err(|mut f| {
        f.sig = "game".into();
        f
    })?;
    let out = compile_ok(&mut pool, &files).map_err(|mut f| {
        f.msg += &listing(&both);
        f
    })?;
    let warned = out.diagnostics().iter().filter(|d| matches!(d, redscript_compiler::diagnostics::Diagnostic::ReplaceMethodConflict(..))).count();
    pbt::ensure!(warned == m.conflicts, "conflicts", "{} replacements overwrite another, {warned} are reported\n{}", m.conflicts, listing(&both));
    let mut vm = Vm::new(&pool);
    vm.fuel = 4_000_000;
    let mut it = Interp::new(&m.w);
    for (_, v) in &m.wraps {
        if v.len() > 1 {
            ctx.label("chain");
        }
        if v.iter().any(|f| body_calls_wrapped(f.body.as_ref().unwrap())) {
            ctx.label("calls-wrapped");
        }
    }
    if m.replaced.keys().any(|k| m.wraps.contains_key(k)) {
        ctx.label("wrapped-replacement");
    }
    if m.conflicts > 0 {
        ctx.label("conflict");
    }
    it.wraps = m.wraps;
    it.replaced = m.replaced;
    compare(ctx, &m.w, &mut vm, &mut it, &both)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C41",
        rule: "the modified program shows at least two events",
        level: "exploration",
        assumptions: &["two replacements of one method are told apart by the order of their files"],
        subs: vec![Sub { name: "annotations", quick: 400, thorough: 40_000, run: annotations }],
    }]
}


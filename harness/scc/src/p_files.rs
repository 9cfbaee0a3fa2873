use pbt::{ensure, fail, Ctx, Prop, Src, Sub, R};

use crate::world::*;

/// A mod that compiles, or (`bad`) does not.
pub fn gen_mod(s: &mut Src, k: usize, bad: bool, replaced: &mut bool) -> Mod {
    let n = s.size(1, 3);
    let folder = s.bool();
    let mut files = vec![];
    for i in 0..n {
        let v = s.below(1000);
        files.push(match s.below(5) {
            0 => format!("func Mod{k}_{i}() -> Int32 {{ return {v}; }}\n"),
            1 => format!("@addMethod(Player)\npublic func Mod{k}_{i}() -> Int32 {{ return {v}; }}\n"),
            2 if !*replaced => {
                *replaced = true;
                format!("@replaceMethod(Player)\npublic func Health() -> Int32 {{ return {v}; }}\n")
            }
            2 => format!("public class C{k}_{i} {{ public let x: Int32; }}\n"),
            3 => "@wrapMethod(Player)\npublic func Health() -> Int32 { return wrappedMethod(); }\n".to_owned(),
            _ => format!("@addField(Player)\npublic let f{k}_{i}: Int32;\n"),
        });
    }
    if bad {
        let at = s.idx(n);
        files[at] = match s.below(4) {
            0 => format!("func Bad{k}() -> Int32 {{ return \"{k}\"; }}\n"),
            1 => format!("func Bad{k}() -> Int32 {{ return missing{k}; }}\n"),
            2 => format!("@addMethod(Missing{k})\nfunc Bad{k}() -> Void {{}}\n"),
            _ => format!("func Bad{k}( -> {{\n"),
        };
    }
    Mod { name: format!("mod{k}"), folder, files, bad, outside: s.chance(1, 5), raw: s.chance(1, 8) }
}

fn gen_mods(s: &mut Src) -> Vec<Mod> {
    let bad = s.chance(1, 4);
    let n = s.len(3);
    let mut replaced = false;
    let mut mods: Vec<Mod> = (0..n).map(|k| gen_mod(s, k, false, &mut replaced)).collect();
    if bad {
        mods.push(gen_mod(s, n, true, &mut replaced));
    }
    mods
}

fn good(mods: &[Mod]) -> bool {
    mods.iter().all(|m| !m.bad)
}

#[derive(Debug)]
enum Op {
    Run { separate: bool, fault: Option<String> },
    Pair { separate: bool, fault: String },
    Update,
    Mods,
    Tidy { ts: bool, backup: bool },
}

fn step(w: &mut World, s: &mut Src, op: &Op) -> R {
    match op {
        Op::Update => {
            // the next version, or the same one once more (verified files)
            let to = w.version + s.below(2) as u32;
            w.update(to, s.chance(1, 3));
        }
        Op::Tidy { ts, backup } => w.tidy(*ts, *backup),
        Op::Mods => {
            let mods = gen_mods(s);
            w.set_mods(mods);
        }
        Op::Run { separate, fault } => {
            let out = w.output(*separate);
            let before = std::fs::read(&out).ok();
            let ran = w.run(*separate, fault.as_deref())?;
            match ran {
                Ran::Done => {
                    ensure!(!w.lost, "twice", "a run succeeded although the game's cache is nowhere to be found");
                    ensure!(good(&w.mods), "accepted", "wrong scripts were accepted");
                    w.check_output(*separate)?;
                    if *separate {
                        let same = std::fs::read(w.cache()).map_or(false, |b| b == pristine(w.version));
                        ensure!(same, "separate", "with a separate output the game's cache is not left (or put back) as it was");
                    }
                }
                Ran::Refused(why) => {
                    ensure!(fault.is_some() || w.lost || !good(&w.mods), "refused", "nothing is wrong but the run fails: {why}");
                    if fault.is_none() && (*separate || before.is_some()) {
                        ensure!(std::fs::read(&out).ok() == before, "touched", "a refused run changed its output file");
                    }
                }
                Ran::Killed => {}
            }
        }
        Op::Pair { separate, fault } => {
            let (a, b) = w.pair(*separate, fault)?;
            for r in [a, b] {
                match r {
                    Ran::Done if w.lost => return fail("twice", "a run succeeded although the game's cache is nowhere to be found"),
                    Ran::Done => ensure!(good(&w.mods), "accepted", "wrong scripts were accepted"),
                    Ran::Refused(why) => ensure!(w.lost || !good(&w.mods), "refused", "nothing is wrong but one of two runs fails: {why}"),
                    Ran::Killed => return fail("killed", "killed"),
                }
            }
            if good(&w.mods) && !w.lost {
                w.check_output(*separate)?;
            }
        }
    }
    w.check_pristine()
}

fn history(s: &mut Src, c: &mut Ctx, faults: bool, pairs: bool) -> R {
    let custom = s.chance(1, 3);
    let mut w = World::new(custom, s.bool());
    let mut log = vec![format!("custom {custom}")];
    let mods = gen_mods(s);
    log.push(format!("scripts {}", if good(&mods) { "right" } else { "wrong" }));
    w.set_mods(mods);
    let toggles = s.chance(1, 3);
    let separate = s.chance(1, 3);
    let n = s.size(2, 8);
    let mut runs = 0;
    let mut hits = 0;
    for k in 0..=n {
        let sep = if toggles { s.bool() } else { separate };
        let op = if k == n {
            // the last word: everything is in order and a run must succeed
            if !good(&w.mods) {
                w.set_mods(vec![]);
                log.push("no scripts".into());
            }
            if w.lost {
                // as the message advises
                w.update(w.version, false);
                log.push("files verified".into());
            }
            Op::Run { separate: sep, fault: None }
        } else {
            match s.weighted(&[5, if faults { 5 } else { 0 }, if pairs { 5 } else { 0 }, 2, 3, 1]) {
                0 => Op::Run { separate: sep, fault: None },
                1 => {
                    let kind = *s.pick(&["crash", "half", "once", "full"]);
                    Op::Run { separate: sep, fault: Some(format!("{kind}:{}", s.size(1, 24))) }
                }
                2 => Op::Pair { separate: sep, fault: format!("sleep:{}:{}", s.size(1, 24), s.size(1, 8)) },
                3 => Op::Update,
                5 => {
                    let ts = s.bool();
                    Op::Tidy { ts, backup: !ts || s.bool() }
                }
                _ => Op::Mods,
            }
        };
        log.push(format!("{op:?}"));
        step(&mut w, s, &op).map_err(|mut f| {
            f.msg = format!("{}\n  after {} (version {}, scripts {:?})", f.msg, log.join(", "), w.version, w.mods.iter().map(|m| (&m.name, m.bad)).collect::<Vec<_>>());
            f
        })?;
        if matches!(op, Op::Mods) {
            log.push(format!("scripts {}", if good(&w.mods) { "right" } else { "wrong" }));
        }
        runs += usize::from(matches!(op, Op::Run { .. } | Op::Pair { .. }));
        hits += usize::from(matches!(op, Op::Run { fault: Some(_), .. } | Op::Pair { .. }));
    }
    c.extra_evals = runs as u64;
    c.nontrivial_if(runs >= 3 && (hits > 0 || !faults && !pairs));
    c.sample(|| log.join(", "));
    Ok(())
}

fn plain(s: &mut Src, c: &mut Ctx) -> R {
    history(s, c, false, false)
}

fn faulty(s: &mut Src, c: &mut Ctx) -> R {
    history(s, c, true, false)
}

fn parallel(s: &mut Src, c: &mut Ctx) -> R {
    history(s, c, false, true)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C50",
            level: "exploration",
            rule: "a history with at least three runs",
            assumptions: &["histories of up to 9 steps on one cache (the default one or a custom one) with its separate output", "a game update replaces the cache that the runs use"],
            subs: vec![
                Sub { name: "history", quick: 700, thorough: 60_000, run: plain },
                Sub { name: "parallel", quick: 250, thorough: 20_000, run: parallel },
            ],
        },
        Prop {
            id: "C51",
            level: "exploration",
            rule: "a history with at least three runs, one of them with a fault",
            assumptions: &["a crash ends the process; what it had written before is kept (no loss of power)", "one fault per run, at any of its first 24 operations on files", "writes of up to 64 bytes are made whole or not at all"],
            subs: vec![Sub { name: "faults", quick: 1200, thorough: 60_000, run: faulty }],
        },
    ]
}

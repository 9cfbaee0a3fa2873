use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use pbt::{ensure, fail, Ctx, Prop, Src, Sub, R};
use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::definition::{AnyDefinition, Definition, SourceFile, SourceReference};
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::CompilationUnit;
use redscript_decompiler::files::FileIndex;
use redscript_decompiler::print::{write_definition, OutputMode};

use crate::p_files::gen_mod;
use crate::world::*;

fn program(name: &str) -> PathBuf {
    std::env::current_exe().expect("the path of this program").with_file_name(name)
}

struct Ended {
    ok: bool,
    out: String,
}

/// Runs a program; with a limit, no file it writes gets larger than that many KiB.
fn run(name: &str, args: &[String], limit: Option<usize>) -> Result<Ended, pbt::Fail> {
    let exe = program(name);
    let mut c = match limit {
        Some(k) => {
            let mut c = Command::new("bash");
            c.arg("-c").arg(format!("trap '' XFSZ; ulimit -f {k}; exec \"$0\" \"$@\"")).arg(exe);
            c
        }
        None => Command::new(exe),
    };
    c.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let out = c.output().or_else(|e| fail("spawn", e.to_string()))?;
    let text = format!("{}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    match out.status.code() {
        Some(0) => Ok(Ended { ok: true, out: text }),
        Some(1) => Ok(Ended { ok: false, out: text }),
        _ => fail("crash", format!("{name} {args:?} ended with {}: {text}", out.status)),
    }
}

fn path(p: &Path) -> String {
    p.to_str().expect("a path of the harness").to_owned()
}

/// Options with their values, in any order.
fn shuffled(s: &mut Src, mut groups: Vec<Vec<String>>) -> Vec<String> {
    let mut out = vec![];
    while !groups.is_empty() {
        let at = s.idx(groups.len());
        out.extend(groups.remove(at));
    }
    out
}

fn opt(s: &mut Src, long: &str, short: &str, value: Option<String>) -> Vec<String> {
    let mut v = vec![if s.bool() { format!("--{long}") } else { format!("-{short}") }];
    v.extend(value);
    v
}

// ---------------------------------------------------------------- C54: scc

fn gen_mods(s: &mut Src) -> Vec<Mod> {
    let bad = s.chance(1, 4);
    let n = s.len(3);
    let mut replaced = false;
    let mut mods: Vec<Mod> = (0..n).map(|k| gen_mod(s, k, false, &mut replaced)).collect();
    if bad {
        mods.push(gen_mod(s, n, true, &mut replaced));
    }
    mods
}

fn scc(s: &mut Src, c: &mut Ctx) -> R {
    let custom = s.bool();
    let mut w = World::new(custom, true);
    let mods = gen_mods(s);
    w.set_mods(mods);
    let mut log = vec![];
    let rounds = s.size(1, 3);
    let mut done = 0;
    for _ in 0..rounds {
        if s.chance(1, 3) {
            let mods = gen_mods(s);
            w.set_mods(mods);
        }
        if s.chance(1, 6) {
            let to = w.version + 1;
            w.update(to, false);
        }
        let separate = s.chance(1, 3);
        let mut groups: Vec<Vec<String>> = vec![];
        // the cache is named by its file, or its folder, or both, or not at all
        match s.below(3) {
            0 => groups.push(vec![path(&w.cache())]),
            1 if w.custom => groups.push(vec!["-customCacheDir".into(), path(w.cache().parent().unwrap_or(Path::new("/")))]),
            2 => {
                // the file goes before the folder
                groups.push(vec![path(&w.cache())]);
                groups.push(vec!["-customCacheDir".into(), path(&w.root.join("nowhere"))]);
            }
            _ if w.custom => groups.push(vec![path(&w.cache())]),
            _ => {}
        }
        if separate {
            groups.push(vec!["-outputCacheFile".into(), path(&w.output(true))]);
        }
        let list = w.root.join("paths.txt");
        let end = if s.bool() { "\n" } else { "" };
        let sep = if s.bool() { "\r\n" } else { "\n" };
        let mut text = String::new();
        if s.chance(1, 4) {
            text.push_str(&format!("{}{sep}", path(&w.root.join("not there"))));
        }
        text.push_str(&format!("{}{end}", path(&w.root.join("elsewhere"))));
        std::fs::write(&list, text).expect("the list of paths");
        groups.push(vec!["-compilePathsFile".into(), path(&list)]);
        for (o, v) in [("-optimize", None), ("-threads", Some("4")), ("-Wnone", None), ("-no-debug", None), ("-profile=off", None)] {
            if s.chance(1, 4) {
                let mut g = vec![o.to_owned()];
                g.extend(v.map(str::to_owned));
                groups.push(g);
            }
        }
        let mut args = vec!["-compile".to_owned(), path(&w.r6().join("scripts"))];
        args.extend(shuffled(s, groups));
        let out = w.output(separate);
        let before = std::fs::read(&out).ok();
        let good = w.mods.iter().all(|m| !m.bad);
        log.push(format!("scc {}: {}", args.iter().map(|a| a.replace(&*w.root.to_string_lossy(), "")).collect::<Vec<_>>().join(" "), if good { "right" } else { "wrong" }));
        let ran = run("scc", &args, None)?;
        ensure!(ran.ok == good, "status", "{} scripts, but the exit status says {} after {log:?}: {}", if good { "right" } else { "wrong" }, ran.ok, ran.out);
        if ran.ok {
            done += 1;
            w.check_output(separate).or_else(|f| fail("output", format!("{f:?} after {log:?}")))?;
        } else if separate || before.is_some() {
            ensure!(std::fs::read(&out).ok() == before, "touched", "a refused run changed its output after {log:?}");
        }
        if separate {
            let same = std::fs::read(w.cache()).map_or(false, |b| b == pristine(w.version));
            ensure!(same, "separate", "with a separate output the game's cache is not left (or put back) as it was after {log:?}");
        }
        if w.custom {
            let default = w.r6().join("cache").join("final.redscripts");
            ensure!(
                std::fs::read(default).map_or(false, |b| b == pristine(w.version)),
                "default",
                "another cache than the one that was named has changed after {log:?}"
            );
        }
        w.check_pristine().or_else(|f| fail("pristine", format!("{f:?} after {log:?}")))?;
        ensure!(!w.root.join("nowhere").exists(), "nowhere", "a folder was made that was not to be used");
    }
    c.nontrivial_if(done > 0 && !w.mods.is_empty());
    c.sample(|| log.join("; "));
    Ok(())
}

// ---------------------------------------------------------------- C55: redscript-cli

/// A cache with the scripts of some mods, spread over some source files.
fn cache(s: &mut Src) -> Vec<u8> {
    let version = 1 + s.below(4) as u32;
    let mut b = load(&pristine(version)).expect("the cache loads");
    // enums, conversions which only the verbose text shows, statements of several kinds
    let mut text = String::new();
    for k in 0..s.idx(4) {
        text.push_str(&match s.below(5) {
            0 => format!("enum E{k} {{ A = {}, B = {} }}\n", s.below(9), 10 + s.below(9)),
            1 => format!("func R{k}(a: script_ref<String>) -> Void {{}}\nfunc S{k}() -> Void {{ R{k}(\"{k}\"); }}\n"),
            2 => format!("class W{k} {{ let w: wref<W{k}>; func Next() -> ref<W{k}> {{ return this.w; }} }}\n"),
            3 => format!("struct T{k} {{ let x: Int32; }}\nfunc U{k}(n: Int32, c: Bool) -> T{k} {{ while c {{ c = false; n = {k}; }} return new T{k}(n); }}\n"),
            _ => format!("func V{k}(n: Int32) -> Int32 {{ switch n {{ case {k}: return 1; default: return 2; }} }}\nnative func N{k}() -> Void\n"),
        });
    }
    let mut sources = Files::new();
    sources.add("more.script".into(), text);
    let res = CompilationUnit::new(&mut b.pool, vec![]).and_then(|u| u.compile_files(&sources)).expect("the scripts compile");
    if let Some(d) = res.diagnostics().iter().find(|d| d.is_fatal()) {
        panic!("the scripts of the harness are wrong: {d}");
    }
    let nfiles = s.idx(5);
    let pool = &mut b.pool;
    let files: Vec<PoolIndex<SourceFile>> = (0..nfiles)
        .map(|k| {
            let p = match k % 3 {
                0 => format!("file{k}.script"),
                1 => format!("dir{k}/file{k}.script"),
                _ => format!("dir1/sub {k}/file{k}.script"),
            };
            pool.add_definition(Definition::source_file(SourceFile {
                id: k as u32,
                path_hash: k as u64,
                path: p.as_str().into(),
            }))
        })
        .collect();
    let funs: Vec<u32> = pool
        .definitions()
        .filter(|(_, d)| matches!(d.value, AnyDefinition::Function(_)))
        .map(|(i, _)| i.into())
        .collect();
    let mut line = 1;
    for i in funs {
        if nfiles > 0 && s.chance(2, 3) {
            line += 1 + s.below(9) as u32;
            let file = *s.pick(&files);
            pool.function_mut(PoolIndex::new(i)).expect("function").source = Some(SourceReference { file, line });
        }
    }
    let mut out = Cursor::new(vec![]);
    b.save(&mut out).expect("the cache is saved");
    out.into_inner()
}

fn printed(defs: &[&Definition], pool: &ConstantPool, mode: OutputMode) -> Vec<u8> {
    let mut out = vec![];
    for d in defs {
        let _ = write_definition(&mut out, d, pool, 0, mode);
    }
    out
}

fn tree(root: &Path, at: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(at).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            tree(root, &p, out);
        } else {
            out.push(p.strip_prefix(root).expect("below").to_path_buf());
        }
    }
}

fn decompile(s: &mut Src, c: &mut Ctx) -> R {
    decompile_with(s, c, false)
}

fn decompile_limited(s: &mut Src, c: &mut Ctx) -> R {
    decompile_with(s, c, true)
}

fn decompile_with(s: &mut Src, c: &mut Ctx, limited: bool) -> R {
    let scratch = Scratch::new();
    let input = scratch.0.join("in.redscripts");
    let output = scratch.0.join("out");
    let bytes = cache(s);
    let bundle: ScriptBundle = load(&bytes).or_else(|e| fail("load", e))?;
    // what is wrong with the call, if anything
    let wrong = if !limited && s.chance(1, 6) { Some(s.below(3)) } else { None };
    match wrong {
        Some(0) => {}
        Some(1) => std::fs::write(&input, &bytes[..s.idx(bytes.len())]).expect("the input"),
        _ => std::fs::write(&input, &bytes).expect("the input"),
    }
    let dump = s.bool();
    let verbose = s.bool();
    let (mode_arg, mode) = match s.below(4) {
        0 => (None, OutputMode::Code { verbose }),
        1 => (Some("code"), OutputMode::Code { verbose }),
        2 => (Some("ast"), OutputMode::SyntaxTree),
        _ => (Some("bytecode"), OutputMode::Bytecode),
    };
    let mode_arg = if wrong == Some(2) { Some("Code") } else { mode_arg };
    let old = s.bool() && !dump;
    if old {
        std::fs::write(&output, vec![b'x'; s.size(1, 200_000)]).expect("an old output");
    }
    let mut groups = vec![opt(s, "input", "i", Some(path(&input))), opt(s, "output", "o", Some(path(&output)))];
    if let Some(m) = mode_arg {
        groups.push(opt(s, "mode", "m", Some(m.to_owned())));
    }
    if dump {
        groups.push(opt(s, "dump-files", "f", None));
    }
    if verbose {
        groups.push(opt(s, "verbose", "v", None));
    }
    let mut args = vec!["decompile".to_owned()];
    args.extend(shuffled(s, groups));
    let pool = &bundle.pool;
    let want: Vec<(PathBuf, Vec<u8>)> = if dump {
        FileIndex::from_pool(pool).iter().map(|e| (e.path.to_path_buf(), printed(&e.definitions, pool, mode))).collect()
    } else {
        let defs: Vec<&Definition> = pool
            .roots()
            .filter(|(_, d)| matches!(d.value, AnyDefinition::Class(_) | AnyDefinition::Enum(_) | AnyDefinition::Function(_)))
            .map(|(_, d)| d)
            .collect();
        vec![(PathBuf::new(), printed(&defs, pool, mode))]
    };
    if dump && s.bool() {
        // one of the files is there already
        let at = output.join(&s.pick(&want).0);
        std::fs::create_dir_all(at.parent().expect("a folder")).expect("the folder");
        std::fs::write(at, vec![b'x'; s.size(1, 60_000)]).expect("an old file");
    }
    let largest = want.iter().map(|(_, b)| b.len()).max().unwrap_or(0);
    let limit = limited.then(|| s.idx(largest / 1024 + 2));
    let before = std::fs::read(&output).ok();
    let ran = run("redscript-cli", &args, limit)?;
    let what = || format!("{} (limit {limit:?}): {}", args.join(" ").replace(&*scratch.0.to_string_lossy(), ""), ran.out);
    if wrong.is_some() {
        ensure!(!ran.ok, "accepted", "success is reported for a call that cannot succeed: {}", what());
        ensure!(std::fs::read(&output).ok() == before && (dump || output.exists() == before.is_some()), "touched", "a failed call changed its output: {}", what());
    } else {
        ensure!(ran.ok || limited, "refused", "nothing is wrong but the call fails: {}", what());
    }
    if ran.ok {
        for (p, text) in &want {
            let at = if dump { output.join(p) } else { output.clone() };
            let got = std::fs::read(&at).unwrap_or_default();
            if got != *text {
                let k = got.iter().zip(text).take_while(|(a, b)| a == b).count();
                return fail(
                    "output",
                    format!("{:?} has {} bytes instead of {}, the first difference is at {k}: {}", p, got.len(), text.len(), what()),
                );
            }
        }
        let mut files = vec![];
        tree(&output, &output, &mut files);
        ensure!(!dump || files.len() == want.len(), "files", "there are {} files instead of {}: {}", files.len(), want.len(), what());
        if limited {
            c.label("enough room");
        }
    }
    if wrong != Some(0) && wrong != Some(1) {
        ensure!(std::fs::read(&input).ok().as_deref() == Some(&bytes[..]), "input", "the input has changed: {}", what());
    }
    c.nontrivial_if(if limited { !ran.ok } else { ran.ok });
    c.sample(|| what());
    Ok(())
}

fn build(s: &mut Src, c: &mut Ctx) -> R {
    let mut w = World::new(false, true);
    let mods = gen_mods(s);
    w.set_mods(mods);
    let good = w.mods.iter().all(|m| !m.bad);
    let lint = s.chance(1, 3);
    let in_place = !lint && s.chance(1, 3);
    let output = w.output(!in_place);
    if !in_place && s.bool() {
        std::fs::write(&output, vec![b'x'; s.size(1, 400_000)]).expect("an old output");
    }
    let limit = if !lint && s.chance(1, 4) { Some(s.idx(pristine(w.version).len() / 1024 + 3)) } else { None };
    let mut groups = vec![opt(s, "bundle", "b", Some(path(&w.cache())))];
    // the scripts are taken in the order in which they are named
    let mut srcs = vec![];
    for p in w.script_paths() {
        srcs.extend(opt(s, "src", "s", Some(path(&p))));
    }
    groups.push(srcs);
    if !lint {
        groups.push(opt(s, "output", "o", Some(path(&output))));
    }
    let mut args = vec![if lint { "lint" } else { "compile" }.to_owned()];
    args.extend(shuffled(s, groups));
    let before = std::fs::read(&output).ok();
    let ran = run("redscript-cli", &args, limit)?;
    let what = || format!("{} ({} scripts, limit {limit:?}): {}", args.join(" ").replace(&*w.root.to_string_lossy(), ""), if good { "right" } else { "wrong" }, ran.out);
    let cached = std::fs::read(w.cache()).ok();
    ensure!(in_place || cached.as_deref() == Some(&pristine(w.version)[..]), "input", "the cache that was compiled against has changed: {}", what());
    ensure!(!ran.out.contains("panicked"), "panic", "{}", what());
    if lint {
        ensure!(ran.out.contains("Lint successful") == good, "lint", "{}", what());
        ensure!(std::fs::read(&output).ok() == before, "touched", "lint writes: {}", what());
        ensure!(ran.ok || !good, "refused", "nothing is wrong but the call fails: {}", what());
    } else if good {
        ensure!(ran.ok || limit.is_some(), "refused", "nothing is wrong but the call fails: {}", what());
        if ran.ok {
            w.check_output(!in_place).or_else(|f| fail("output", format!("{f:?}: {}", what())))?;
        }
    } else {
        ensure!(std::fs::read(&output).ok() == before, "touched", "a failed build changed its output: {}", what());
        ensure!(!ran.out.contains("successfully saved"), "accepted", "wrong scripts were accepted: {}", what());
    }
    c.nontrivial_if(!w.mods.is_empty());
    c.sample(|| what());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C54",
            level: "exploration",
            rule: "at least one successful run, with scripts at the end",
            assumptions: &["the option values that the game and mod managers give; Linux file semantics"],
            subs: vec![Sub { name: "scc", quick: 120, thorough: 20_000, run: scc }],
        },
        Prop {
            id: "C55",
            level: "exploration",
            rule: "decompile: a successful call, or with limited room a failed one; build: at least one mod",
            assumptions: &["the text of single definitions is judged by C20-C28"],
            subs: vec![
                Sub { name: "decompile", quick: 120, thorough: 20_000, run: decompile },
                Sub { name: "limited", quick: 50, thorough: 10_000, run: decompile_limited },
                Sub { name: "build", quick: 120, thorough: 20_000, run: build },
            ],
        },
    ]
}

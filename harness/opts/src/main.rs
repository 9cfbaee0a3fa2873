//! The command line of scc: undoing the damage done to quoted paths that end in a backslash, and
//! reading the options.

use std::path::PathBuf;

use pbt::{ensure_eq, fail, Ctx, Prop, Src, Sub, R};

#[path = "/repo/scc/cli/src/opts.rs"]
mod opts;
use opts::{fix_args, Opts};

/// How Windows splits a command line into arguments.
fn windows_split(line: &str) -> Vec<String> {
    let cs: Vec<char> = line.chars().collect();
    let mut out = vec![];
    let mut cur = String::new();
    let mut started = false;
    let mut quoted = false;
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            ' ' | '\t' if !quoted => {
                if started {
                    out.push(std::mem::take(&mut cur));
                    started = false;
                }
                i += 1;
            }
            '\\' => {
                let n = cs[i..].iter().take_while(|c| **c == '\\').count();
                i += n;
                started = true;
                if cs.get(i) == Some(&'"') {
                    cur.extend(std::iter::repeat('\\').take(n / 2));
                    if n % 2 == 1 {
                        cur.push('"');
                        i += 1;
                    }
                } else {
                    cur.extend(std::iter::repeat('\\').take(n));
                }
            }
            '"' => {
                started = true;
                quoted = !quoted;
                i += 1;
            }
            c => {
                started = true;
                cur.push(c);
                i += 1;
            }
        }
    }
    if started {
        out.push(cur);
    }
    out
}

fn word(s: &mut Src, first: &[char]) -> String {
    const REST: [char; 14] = ['a', 'Z', '0', '-', '_', '.', '(', ')', '=', 'é', ',', '\'', '日', 'W'];
    let mut w = s.pick(first).to_string();
    for _ in 0..s.len(5) {
        w.push(*s.pick(&REST));
    }
    w
}

/// A Windows path: folders and a name, each of one or more words with single spaces between them.
fn path(s: &mut Src, trailing: bool) -> String {
    const FIRST: [char; 6] = ['P', 'b', '(', '7', 'ü', '_'];
    const LATER: [char; 9] = ['P', 'b', '(', '7', 'ü', '_', '-', '&', '+'];
    let mut p = match s.below(4) {
        0 | 1 => format!("{}:\\", s.pick(&['C', 'D'])),
        2 => "\\\\host\\".to_owned(),
        _ => String::new(),
    };
    let n = s.size(1, 5);
    for k in 0..n {
        if k > 0 {
            p.push('\\');
        }
        let words = 1 + s.len(3);
        for j in 0..words {
            if j > 0 {
                p.push(' ');
            }
            p.push_str(&word(s, if j > 0 { &LATER } else { &FIRST }));
        }
    }
    if trailing {
        p.push('\\');
    }
    p
}

#[derive(Clone, Debug)]
enum A {
    Plain(String),
    Quoted(String),
}

fn text(a: &A) -> &str {
    match a {
        A::Plain(t) | A::Quoted(t) => t,
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Want {
    scripts_dir: String,
    cache_dir: Option<String>,
    optimize: bool,
    threads: Option<u8>,
    warnings: Vec<String>,
    no_testonly: bool,
    no_breakpoint: bool,
    profile: Option<bool>,
    script_paths_file: Option<String>,
    cache_file: Option<String>,
    output_cache_file: Option<String>,
    no_exec: bool,
    no_debug: bool,
}

/// A command line: -compile with its folder, then other options in any order.
fn command(s: &mut Src, max_trailing: u64) -> (Vec<A>, Want) {
    let mut left = s.below(max_trailing + 1);
    let mut w = Want::default();
    let mut groups: Vec<Vec<A>> = vec![];
    let p = |s: &mut Src, left: &mut u64| {
        let t = *left > 0 && s.bool();
        if t {
            *left -= 1;
        }
        path(s, t)
    };
    let tag = |t: &str| A::Plain(t.to_owned());
    if s.bool() {
        let v = p(s, &mut left);
        w.cache_file = Some(v.clone());
        groups.push(vec![A::Quoted(v)]);
    }
    if s.bool() {
        let v = p(s, &mut left);
        w.output_cache_file = Some(v.clone());
        groups.push(vec![tag("-outputCacheFile"), A::Quoted(v)]);
    }
    if s.bool() {
        let v = p(s, &mut left);
        w.cache_dir = Some(v.clone());
        groups.push(vec![tag("-customCacheDir"), A::Quoted(v)]);
    }
    if s.bool() {
        let v = p(s, &mut left);
        w.script_paths_file = Some(v.clone());
        groups.push(vec![tag("-compilePathsFile"), A::Quoted(v)]);
    }
    if s.bool() {
        let v = s.bits(8) as u8;
        w.threads = Some(v);
        groups.push(vec![tag("-threads"), A::Plain(v.to_string())]);
    }
    for (name, slot) in [
        ("-optimize", &mut w.optimize),
        ("-no-testonly", &mut w.no_testonly),
        ("-no-breakpoint", &mut w.no_breakpoint),
        ("-no-exec", &mut w.no_exec),
        ("-no-debug", &mut w.no_debug),
    ] {
        if s.chance(1, 3) {
            *slot = true;
            groups.push(vec![tag(name)]);
        }
    }
    if s.bool() {
        let on = s.bool();
        w.profile = Some(on);
        groups.push(vec![tag(if on { "-profile=on" } else { "-profile=off" })]);
    }
    for _ in 0..s.len(3) {
        // the same warning may be named twice
        let v = if s.chance(1, 4) { "none".to_owned() } else { word(s, &['n', 'e', '4']) };
        groups.push(vec![A::Plain(format!("-W{v}"))]);
    }
    // any order
    for i in (1..groups.len()).rev() {
        let j = s.idx(i + 1);
        groups.swap(i, j);
    }
    w.warnings = groups
        .iter()
        .filter_map(|g| match &g[..] {
            [A::Plain(t)] => t.strip_prefix("-W").map(str::to_owned),
            _ => None,
        })
        .collect();
    let dir = p(s, &mut left);
    w.scripts_dir = dir.clone();
    let mut args = vec![tag("-compile"), A::Quoted(dir)];
    args.extend(groups.into_iter().flatten());
    (args, w)
}

fn fixing(s: &mut Src, c: &mut Ctx) -> R {
    let (args, _) = command(s, 5);
    let bare = s.chance(1, 3);
    // paths without spaces are sometimes left unquoted
    let line: Vec<String> = args
        .iter()
        .map(|a| match a {
            A::Plain(t) => t.clone(),
            A::Quoted(t) if bare && !t.contains(' ') => t.clone(),
            A::Quoted(t) => format!("\"{t}\""),
        })
        .collect();
    // more spaces between them make no difference
    let wide = s.chance(1, 4);
    let mut text_of = String::new();
    for (k, a) in line.iter().enumerate() {
        if k > 0 {
            text_of.push_str(if wide && s.bool() { "  " } else { " " });
        }
        text_of.push_str(a);
    }
    let line = text_of;
    let want: Vec<String> = args.iter().map(|a| text(a).to_owned()).collect();
    let broken = windows_split(&line);
    let got = fix_args(broken.clone());
    c.nontrivial_if(broken != want);
    if broken != want {
        c.label("damaged by the split");
    }
    if got != want {
        return fail("args", format!("command line {line}\n  split as {broken:?}\n  fixed to {got:?}\n  meant    {want:?}"));
    }
    c.sample(|| line.clone());
    Ok(())
}

/// Lists without a quote in them were not damaged.
fn keeping(s: &mut Src, c: &mut Ctx) -> R {
    const CHARS: [char; 16] = ['a', 'B', ' ', ' ', '\\', '\\', '-', ':', '/', '=', '\'', '\t', '.', 'é', '日', '`'];
    let many = if s.chance(1, 50) { s.big(300) } else { s.len(8) };
    let args: Vec<String> = (0..many).map(|_| (0..1 + s.len(12)).map(|_| *s.pick(&CHARS)).collect()).collect();
    ensure_eq!(fix_args(args.clone()), args, "args");
    c.nontrivial_if(args.iter().any(|a| a.contains(' ')));
    c.sample(|| format!("{args:?}"));
    Ok(())
}

fn loading(s: &mut Src, c: &mut Ctx) -> R {
    let (args, w) = command(s, 5);
    let args: Vec<&str> = args.iter().map(text).collect();
    let o = match Opts::load(&args) {
        Ok(o) => o,
        Err(e) => return fail("rejected", format!("{args:?}: {e:?}")),
    };
    let st = |p: &PathBuf| p.to_string_lossy().into_owned();
    let got = Want {
        scripts_dir: st(&o.scripts_dir),
        cache_dir: o.cache_dir.as_ref().map(st),
        optimize: o.optimize,
        threads: w.threads.map_or_else(|| (o.threads != 1).then_some(o.threads), |_| Some(o.threads)),
        warnings: o.warnings.clone(),
        no_testonly: o.no_testonly,
        no_breakpoint: o.no_breakpoint,
        profile: w.profile.map_or_else(|| (!o.profile).then_some(false), |_| Some(o.profile)),
        script_paths_file: o.script_paths_file.as_ref().map(st),
        cache_file: o.cache_file.as_ref().map(st),
        output_cache_file: o.output_cache_file.as_ref().map(st),
        no_exec: o.no_exec,
        no_debug: o.no_debug,
    };
    ensure_eq!(got, w, "options", "{args:?}");
    c.nontrivial_if(args.len() > 4);
    c.sample(|| args.join(" "));
    Ok(())
}

/// One thing wrong with an otherwise good command line.
fn rejecting(s: &mut Src, c: &mut Ctx) -> R {
    let (args, w) = command(s, 2);
    let mut args: Vec<String> = args.iter().map(|a| text(a).to_owned()).collect();
    let at = 2 + s.idx(args.len() - 1);
    let splits_pair = args.get(at - 1).map_or(false, |a| {
        matches!(a.as_str(), "-outputCacheFile" | "-customCacheDir" | "-compilePathsFile" | "-threads")
    });
    let what = match s.below(5) {
        0 => {
            args.drain(0..2);
            "no -compile"
        }
        1 if w.threads.is_none() && !splits_pair => {
            args.insert(at, s.pick(&["256", "1000", "x", "1.5", "+-1"]).to_string());
            args.insert(at, "-threads".to_owned());
            "bad thread count"
        }
        2 if w.profile.is_none() && !splits_pair => {
            args.insert(at, format!("-profile={}", s.pick(&["", "true", "On", "offf", "a=on", "off=", "on=off", "=on", " on"])));
            "bad profile"
        }
        3 if !splits_pair => {
            args.insert(at, s.pick(&["-foo", "-no-", "-Optimize", "--threads", "-profile"]).to_string());
            "unknown option"
        }
        4 => {
            args.remove(1);
            if args.get(1).map_or(false, |a| !a.starts_with('-')) {
                return Ok(());
            }
            "-compile without a folder"
        }
        _ => return Ok(()),
    };
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    if let Ok(o) = Opts::load(&args) {
        return fail("accepted", format!("{what}: {args:?} was read as {o:?}"));
    }
    c.nontrivial_if(true);
    c.label(what);
    c.sample(|| args.join(" "));
    Ok(())
}

fn main() {
    pbt::main(vec![
        Prop {
            id: "C30",
            level: "exploration",
            rule: "random command lines (any options in any order, paths of words with single spaces, any of them ending in a backslash, quoted or bare) split by the Windows rules and repaired; the result must be the arguments that were meant; non-trivial = the split damaged them",
            assumptions: &["no double spaces, spaces at the ends, or quotes inside paths (the split loses them for good)"],
            subs: vec![Sub { name: "fixing", quick: 200_000, thorough: 8_000_000, run: fixing }, Sub { name: "keeping", quick: 40_000, thorough: 2_000_000, run: keeping }],
        },
        Prop {
            id: "C31",
            level: "exploration",
            rule: "random option lists in any order read back as a record and compared field by field, and good lists with one thing wrong, which must be rejected; non-trivial = more than four arguments, or any rejected list",
            assumptions: &["-compile and its folder come first, as the game passes them", "paths do not start with a dash"],
            subs: vec![
                Sub { name: "loading", quick: 60_000, thorough: 2_000_000, run: loading },
                Sub { name: "rejecting", quick: 20_000, thorough: 600_000, run: rejecting },
            ],
        },
    ]);
}

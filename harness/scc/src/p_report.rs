use std::collections::BTreeSet;
use std::ffi::CString;
use std::path::{Path, PathBuf};

use pbt::{ensure, ensure_eq, fail, Ctx, Prop, Src, Sub, R};
use scc_lib::api::*;

use crate::world::*;

/// The names of mods as authors choose them.
fn mod_name(s: &mut Src, k: usize) -> String {
    match s.below(7) {
        0 => format!("mod{k}"),
        1 => format!("My Mod {k}"),
        2 => format!("mod.v{k}.2"),
        3 => format!("Größe_{k}"),
        4 => format!("#{k} - мод"),
        5 => format!("mod{k}.reds"),
        _ => format!("-{k}"),
    }
}

fn cstr(p: &Path) -> CString {
    CString::new(p.to_str().expect("a path in UTF-8")).expect("a path")
}

/// Compiles through the interface that the game's plugins use.
fn compile(w: &World, extra: &[PathBuf]) -> Box<SccResult> {
    unsafe {
        let mut settings = scc_settings_new(cstr(&w.r6()).as_ptr() as *const _);
        for p in extra {
            scc_settings_add_script_path(&mut settings, cstr(p).as_ptr() as *const _);
        }
        scc_compile(settings)
    }
}

fn message(r: &SccResult) -> String {
    match r {
        SccResult::Success(_) => String::new(),
        SccResult::Error(e) => e.to_string(),
    }
}

/// An error: the text of a script's part, the code, the text where the error is, its line.
struct Bad {
    text: String,
    code: &'static str,
    at: String,
    line: String,
}

fn gen_bad(s: &mut Src, k: usize) -> Bad {
    let v = s.below(900);
    let (code, at, line): (_, String, String) = match s.below(7) {
        0 => ("UNRESOLVED_REF", format!("missing{k}"), format!("  let x: Int32 = missing{k}; // v{v}")),
        1 => ("UNRESOLVED_FN", format!("Absent{k}({v})"), format!("  Absent{k}({v});")),
        2 => ("TYPE_ERR", format!("\"text{k}\""), format!("  return \"text{k}\"; // v{v}")),
        3 => ("UNRESOLVED_TYPE", format!("new Lost{k}()"), format!("  let l = new Lost{k}();")),
        4 => ("UNRESOLVED_MEMBER", format!("p.gone{k}"), format!("  let y = p.gone{k};")),
        5 => ("UNRESOLVED_METHOD", format!("p.Lost{k}()"), format!("  p.Lost{k}();")),
        _ => ("INVALID_VOID_USE", "Nothing".into(), "  let z = Nothing();".into()),
    };
    let text = match code {
        "INVALID_VOID_USE" => format!("func Bad{k}(p: ref<Player>) -> Int32 {{\n  return missing{k};\n}}\n"),
        _ => format!("func Bad{k}(p: ref<Player>) -> Int32 {{\n{line}\n  return {v};\n}}\n"),
    };
    if code == "INVALID_VOID_USE" {
        return Bad { text, code: "UNRESOLVED_REF", at: format!("missing{k}"), line: format!("  return missing{k};") };
    }
    Bad { text, code, at, line }
}

fn filler(s: &mut Src, k: &mut usize) -> String {
    *k += 1;
    match s.below(7) {
        0 => "// Ünïcödé комментарий 😀\n".into(),
        1 => "\n\n".into(),
        2 => "/* a\n comment\n over lines */\n".into(),
        3 => format!("func Fill{k}() -> Int32 {{ return {k}; }}\n"),
        4 => format!("func Fill{k}() -> String {{ return \"żółw\"; }}\n"),
        5 => "\t \r\n".into(),
        _ => format!("public class Filler{k} {{\n  public let a: Int32;\n}}\n"),
    }
}

#[derive(Debug)]
struct Hint {
    id: String,
    file: Option<String>,
    starts: Option<String>,
    contains: Option<String>,
    /// the file of hints it is in
    set: usize,
}

fn toml_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\t' => out.push_str("\\t"),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

struct Planted {
    bad: Bad,
    /// the mod's name as the report gives it
    cause: String,
    /// inside the scripts folder, the path from there
    rel: Option<String>,
}

fn report(s: &mut Src, c: &mut Ctx) -> R {
    let mut w = World::new(false, false);
    let scripts = w.r6().join("scripts");
    let outside = w.root.join("elsewhere");
    let mut planted: Vec<Planted> = vec![];
    let mut clean = vec![];
    let (mut nb, mut nf) = (0, 0);
    let mut extra = vec![];
    for k in 0..s.size(1, 6) {
        let name = mod_name(s, k);
        let is_bad = s.chance(1, 2);
        let out = s.chance(1, 5);
        let folder = s.bool();
        let base = if out { outside.clone() } else { scripts.clone() };
        if out && !extra.contains(&outside) {
            extra.push(outside.clone());
        }
        let mut any = false;
        let n = if folder { s.size(1, 3) } else { 1 };
        for i in 0..n {
            let path = match (folder, s.below(3)) {
                (false, _) => base.join(format!("{name}.reds")),
                (true, 0) => base.join(&name).join(format!("f{i}.reds")),
                (true, 1) => base.join(&name).join("sub dir").join(format!("f{i}.reds")),
                _ => base.join(&name).join(format!("mod{i}")).join("x").join(format!("{name}{i}.reds")),
            };
            let mut text = String::new();
            let wrong = is_bad && (i + 1 == n && !any || s.bool());
            let parts = s.size(1, 4);
            let at = if wrong { s.idx(parts) } else { usize::MAX };
            for p in 0..parts {
                for _ in 0..s.len(2) {
                    text.push_str(&filler(s, &mut nf));
                }
                if p == at || wrong && s.chance(1, 6) {
                    let bad = gen_bad(s, nb);
                    nb += 1;
                    text.push_str(&bad.text);
                    any = true;
                    let rel = (!out).then(|| path.strip_prefix(&scripts).expect("inside").to_string_lossy().into_owned());
                    let file = path.file_name().expect("a name").to_string_lossy().into_owned();
                    let cause = match (&rel, folder) {
                        (None, _) | (_, false) => file,
                        _ => name.clone(),
                    };
                    planted.push(Planted { bad, cause, rel });
                }
            }
            for _ in 0..s.len(2) {
                text.push_str(&filler(s, &mut nf));
            }
            std::fs::create_dir_all(path.parent().expect("a folder")).expect("folders");
            std::fs::write(&path, text).expect("script");
        }
        if !any {
            clean.push(name);
        }
    }
    w.mods = vec![];

    // hints of the user
    let dir = w.r6().join("config").join("redsUserHints");
    let mut hints: Vec<(&'static str, Vec<Hint>)> = vec![];
    let spoilt = s.chance(1, 10);
    if s.chance(4, 5) {
        std::fs::create_dir_all(&dir).expect("hints");
        let mut id = 0;
        for code in ["UNRESOLVED_REF", "UNRESOLVED_FN", "TYPE_ERR", "UNRESOLVED_TYPE", "UNRESOLVED_MEMBER", "UNRESOLVED_METHOD", "OTHER"] {
            if s.chance(1, 3) {
                continue;
            }
            let mut list = vec![];
            for _ in 0..s.size(1, 3) {
                id += 1;
                let of_code: Vec<&Planted> = planted.iter().filter(|p| p.bad.code == code).collect();
                let near = if !of_code.is_empty() && s.chance(3, 4) { Some(*s.pick(&of_code)) } else { planted.first() };
                let part = |s: &mut Src, t: &str| -> String {
                    let n = s.size(1, t.chars().count().max(1));
                    t.chars().take(n).collect()
                };
                let file = match (s.below(4), near) {
                    (0, Some(p)) => p.rel.clone(),
                    (1, _) => Some("mod0/other.reds".into()),
                    _ => None,
                };
                let starts = match (s.below(4), near) {
                    (0, Some(p)) => Some(part(s, &p.bad.at)),
                    (1, Some(p)) => Some(format!("{}x", p.bad.at)),
                    // the part within is not where it starts
                    (2, Some(p)) => Some(p.bad.at.chars().skip(1).collect()),
                    _ => None,
                };
                let contains = match (s.below(4), near) {
                    (0, Some(p)) => Some(part(s, p.bad.line.trim())),
                    (1, Some(p)) => Some(p.bad.line.chars().skip(s.idx(p.bad.line.len().max(1))).collect()),
                    (2, _) => Some("nowhere".into()),
                    _ => None,
                };
                let id = if s.chance(1, 6) { "same".to_owned() } else { format!("hint{id}") };
                list.push(Hint { id, file, starts, contains, set: 0 });
            }
            hints.push((code, list));
        }
        let files = s.size(1, 3);
        for (i, (_, list)) in hints.iter_mut().enumerate() {
            let spread = s.chance(1, 3);
            for h in list {
                h.set = if spread { s.idx(files) } else { i % files };
            }
        }
        for f in 0..files {
            let mut text = String::new();
            for (code, list) in &hints {
                for h in list.iter().filter(|h| h.set == f) {
                    text.push_str(&format!("[[{code}]]\nid = {}\nmessage = {}\n", toml_str(&h.id), toml_str(&format!("Try {} – so", h.id))));
                    for (key, v) in [("file", &h.file), ("span_starts_with", &h.starts), ("line_contains", &h.contains)] {
                        if let Some(v) = v {
                            text.push_str(&format!("{key} = {}\n", toml_str(v)));
                        }
                    }
                }
            }
            std::fs::write(dir.join(format!("hints{f}.toml")), text).expect("hints");
        }
        std::fs::write(dir.join("readme.txt"), "not = [toml").expect("hints");
        if spoilt {
            std::fs::write(dir.join("spoilt.toml"), "[[TYPE_ERR]]\nid = 1").expect("hints");
        }
    }

    let result = compile(&w, &extra);
    let got = message(&result);
    if planted.is_empty() {
        ensure!(scc_get_success(&result).is_some(), "refused", "the scripts are right but the run fails: {got}");
        ensure_eq!(unsafe { scc_copy_error(&result, [1u8; 4].as_mut_ptr(), 4) }, 0, "no error");
        return Ok(());
    }
    ensure!(scc_get_success(&result).is_none(), "accepted", "wrong scripts were accepted");
    let lines: Vec<&str> = got.lines().collect();
    ensure_eq!(lines.first().copied(), Some("REDScript compilation has failed."), "first line");
    ensure_eq!(lines.get(1).copied(), Some("This error has been caused by mods listed below:"), "second line");
    let listed: Vec<&str> = lines[2..].iter().take_while(|l| l.starts_with("- ")).map(|l| &l[2..]).collect();
    let listed_set: BTreeSet<&str> = listed.iter().copied().collect();
    let want: BTreeSet<&str> = planted.iter().map(|p| p.cause.as_str()).collect();
    ensure_eq!(listed.len(), listed_set.len(), "listed twice");
    ensure_eq!(listed_set, want, "mods listed (clean ones: {clean:?})\n{got}");

    // the solutions
    let mut ids: Vec<BTreeSet<String>> = vec![];
    if !spoilt {
        for p in &planted {
            let hits = (0..3).filter_map(|set| {
                hints.iter().filter(|(code, _)| *code == p.bad.code).flat_map(|(_, l)| l).filter(|h| h.set == set).find(|h| {
                    h.file.as_ref().map_or(true, |f| p.rel.as_ref() == Some(f))
                        && (h.starts.as_ref().map_or(false, |t| p.bad.at.starts_with(t.as_str()))
                            || h.contains.as_ref().map_or(false, |t| p.bad.line.contains(t.as_str())))
                })
            });
            // the first one of either file (files in a folder have no order)
            let any: BTreeSet<String> = hits.map(|h| format!("Try {} – so", h.id)).collect();
            if !any.is_empty() {
                ids.push(any);
            }
        }
    }
    let rest = &lines[2 + listed.len()..];
    let head = "One or more of the errors found has a known solution. Here are the recommended steps:";
    if ids.is_empty() {
        ensure!(!rest.contains(&head), "solutions", "no hint fits but the report gives one:\n{got}\n{hints:#?}");
        ensure!(rest.iter().any(|l| l.starts_with("You should check if these mods are outdated")), "advice", "no advice is given:\n{got}");
    } else {
        ensure_eq!(rest.first().copied(), Some(head), "solutions: wanted {ids:?}\n{hints:#?}");
        let got_ids: BTreeSet<String> = rest[1..].iter().filter_map(|l| l.strip_prefix("- ")).map(str::to_owned).collect();
        for any in &ids {
            ensure!(!any.is_disjoint(&got_ids), "solution missing", "none of {any:?} is given:\n{got}\n{hints:#?}");
        }
        for id in &got_ids {
            ensure!(ids.iter().any(|any| any.contains(id)), "wrong solution", "{id} is given but fits no error:\n{got}\n{hints:#?}");
        }
        ensure!(got_ids.len() <= ids.len(), "solutions", "there are more solutions than errors:\n{got}");
        ensure_eq!(rest.len(), 1 + got_ids.len(), "solutions given twice or more is said:\n{got}");
    }

    // the same report through a buffer of any size
    for size in [1, 2, got.len().max(1), got.len() + 1, got.len() + 40, s.size(1, got.len() + 1)] {
        let mut buf = vec![0xAAu8; size + 8];
        let n = unsafe { scc_copy_error(&result, buf.as_mut_ptr(), size) };
        ensure_eq!(n, got.len().min(size - 1), "length of the copied error, buffer of {size}");
        ensure!(buf[..n] == got.as_bytes()[..n] && buf[n] == 0, "copied error", "the error in a buffer of {size} bytes differs");
        ensure!(buf[n + 1..].iter().all(|b| *b == 0xAA), "overrun", "bytes behind the error in a buffer of {size} bytes are touched");
    }
    c.nontrivial_if(planted.len() >= 2 && !hints.is_empty());
    c.sample(|| got);
    Ok(())
}

fn text(s: StrWithLen) -> String {
    // its layout is part of the interface
    let (p, n): (*const u8, usize) = unsafe { std::mem::transmute(s) };
    if p.is_null() {
        return String::new();
    }
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Def {
    kind: u8,
    name: String,
    parent: String,
    path: String,
    line: usize,
    native: bool,
}

struct Text {
    text: String,
    line: usize,
}

impl Text {
    fn put(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.text.push_str(s);
    }
}

const TYPES: &[&str] = &["Int32", "Bool", "String", "Float", "CName"];

fn gen_fn(s: &mut Src, name: &str) -> (String, String) {
    let n = s.len(3);
    let types: Vec<&str> = (0..n).map(|_| *s.pick(TYPES)).collect();
    let params: Vec<String> = types.iter().enumerate().map(|(i, t)| format!("p{i}: {t}")).collect();
    (format!("func {name}({}) -> Void", params.join(", ")), format!("{name};{}", types.concat()))
}

fn gap(s: &mut Src, t: &mut Text) {
    for _ in 0..s.len(2) {
        let g = *s.pick(&["\n", "// żółw 😀\n", "\t\r\n", "/* a\n b */\n", " "]);
        t.put(g);
    }
}

fn sources(s: &mut Src, c: &mut Ctx) -> R {
    let mut w = World::new(false, false);
    let scripts = w.r6().join("scripts");
    let outside = w.root.join("elsewhere");
    let mut want: Vec<Def> = vec![];
    let mut k = 0;
    let mut replaced = false;
    let files = s.size(1, 4);
    let mut classes: Vec<String> = vec![];
    for f in 0..files {
        let name = mod_name(s, f);
        let base = if s.chance(1, 4) { &outside } else { &scripts };
        let path = if s.bool() { base.join(format!("{name}.reds")) } else { base.join(&name).join("sub").join(format!("f{f}.reds")) };
        let shown = path.to_string_lossy().into_owned();
        let mut t = Text { text: String::new(), line: 0 };
        gap(s, &mut t);
        let module = s.chance(1, 3).then(|| format!("Mod{f}"));
        if let Some(m) = &module {
            t.put(&format!("module {m}.Part\n"));
        }
        let prefix = module.map_or(String::new(), |m| format!("{m}.Part."));
        for _ in 0..s.size(1, 5) {
            gap(s, &mut t);
            k += 1;
            match s.below(8) {
                6 if !replaced => {
                    replaced = true;
                    want.push(Def { kind: 3, name: "Health;".into(), parent: "Player".into(), path: shown.clone(), line: t.line, native: false });
                    t.put("@replaceMethod(Player)\npublic func Health() -> Int32 { return 5; }\n");
                }
                7 => {
                    // the wrapper is a function of its own
                    want.push(Def { kind: 3, name: "wrapper$".into(), parent: "Player".into(), path: shown.clone(), line: t.line, native: false });
                    t.put("@wrapMethod(Player)\npublic func Health() -> Int32 { return wrappedMethod(); }\n");
                }
                0 => {
                    let (sig, mangled) = gen_fn(s, &format!("Fn{k}"));
                    let native = s.chance(1, 4);
                    // the game knows its native functions by their plain names
                    let full = if native { format!("{prefix}Fn{k}") } else { format!("{prefix}{mangled}") };
                    want.push(Def { kind: 3, name: full, parent: String::new(), path: shown.clone(), line: t.line, native });
                    if native {
                        t.put(&format!("public static native {sig};\n"));
                    } else {
                        t.put(&format!("public {sig} {{"));
                        gap(s, &mut t);
                        t.put("}\n");
                    }
                }
                1 => {
                    let full = format!("{prefix}Enum{k}");
                    want.push(Def { kind: 4, name: full, parent: String::new(), path: shown.clone(), line: t.line, native: false });
                    t.put(&format!("enum Enum{k} {{ A = 0,\n B = 1 }}\n"));
                }
                2 => {
                    let (sig, mangled) = gen_fn(s, &format!("Added{k}"));
                    let at = t.line;
                    t.put("@addMethod(Player)");
                    t.put(*s.pick(&["\n", " ", "\n\n"]));
                    want.push(Def { kind: 3, name: mangled, parent: "Player".into(), path: shown.clone(), line: at, native: false });
                    t.put(&format!("public {sig} {{}}\n"));
                }
                3 => {
                    let at = t.line;
                    t.put("@addField(Player)");
                    t.put(*s.pick(&["\n", " ", "\n\n"]));
                    want.push(Def { kind: 2, name: format!("added{k}"), parent: "Player".into(), path: shown.clone(), line: at, native: false });
                    t.put(&format!("public let added{k}: Int32;\n"));
                }
                _ => {
                    let short = format!("Class{k}");
                    let full = format!("{prefix}{short}");
                    let native = s.chance(1, 4);
                    want.push(Def { kind: 1, name: full.clone(), parent: String::new(), path: shown.clone(), line: t.line, native });
                    // a base in the same place, defined before or after
                    let base = match s.below(4) {
                        0 => format!(" extends Class{}", k + 1),
                        1 if prefix.is_empty() && !classes.is_empty() => format!(" extends {}", s.pick(&classes)),
                        _ => String::new(),
                    };
                    let later = base == format!(" extends Class{}", k + 1);
                    t.put(&format!("public {}class {short}{base} {{\n", if native { "native " } else { "" }));
                    for m in 0..s.len(4) {
                        gap(s, &mut t);
                        let line = t.line;
                        if s.bool() {
                            let nat = native && s.bool();
                            let (sig, mangled) = gen_fn(s, &format!("Meth{m}"));
                            let stat = if s.chance(1, 4) { "static " } else { "" };
                            want.push(Def { kind: 3, name: if nat { format!("Meth{m}") } else { mangled }, parent: full.clone(), path: shown.clone(), line, native: nat });
                            if nat {
                                t.put(&format!("public native {stat}{sig};\n"));
                            } else {
                                t.put(&format!("public {stat}{sig} {{\n}}\n"));
                            }
                        } else {
                            let nat = native && s.bool();
                            want.push(Def { kind: 2, name: format!("field{m}"), parent: full.clone(), path: shown.clone(), line, native: nat });
                            t.put(&format!("public {}let field{m}: Int32;\n", if nat { "native " } else { "" }));
                        }
                    }
                    t.put("}\n");
                    if prefix.is_empty() {
                        classes.push(short);
                    }
                    if later {
                        k += 1;
                        gap(s, &mut t);
                        want.push(Def { kind: 1, name: format!("{prefix}Class{k}"), parent: String::new(), path: shown.clone(), line: t.line, native: false });
                        t.put(&format!("public class Class{k} {{}}\n"));
                        if prefix.is_empty() {
                            classes.push(format!("Class{k}"));
                        }
                    }
                }
            }
        }
        std::fs::create_dir_all(path.parent().expect("a folder")).expect("folders");
        std::fs::write(&path, t.text).expect("script");
    }
    w.mods = vec![];
    let result = compile(&w, &[outside]);
    let Some(out) = scc_get_success(&result) else {
        let all: Vec<String> = want.iter().map(|d| std::fs::read_to_string(&d.path).unwrap_or_default()).collect();
        return fail("refused", format!("the scripts are right but the run fails: {} {all:?}", message(&result)));
    };
    let mut got: Vec<Def> = (0..scc_output_source_ref_count(out))
        .map(|i| {
            let r = unsafe { &*scc_output_get_source_ref(out, i) };
            Def {
                kind: scc_source_ref_type(out, r) as u8,
                name: {
                    let name = text(scc_source_ref_name(out, r));
                    match name.strip_prefix("wrapper$") {
                        Some(n) if n.bytes().all(|b| b.is_ascii_digit()) => "wrapper$".into(),
                        _ => name,
                    }
                },
                parent: text(scc_source_ref_parent_name(out, r)),
                path: text(scc_source_ref_path(out, r)),
                line: scc_source_ref_line(out, r),
                native: scc_source_ref_is_native(out, r),
            }
        })
        .collect();
    got.sort();
    want.sort();
    if got != want {
        let more: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(3).collect();
        let less: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(3).collect();
        return fail("sources", format!("{} definitions are listed instead of {}: there is {more:?} and there lacks {less:?}", got.len(), want.len()));
    }
    c.nontrivial_if(want.len() >= 5 && files >= 2);
    c.sample(|| format!("{want:?}"));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C52",
            level: "exploration",
            rule: "at least two errors and hints for them",
            assumptions: &["errors within function bodies (an error that ends the compilation at once hides the others)"],
            subs: vec![Sub { name: "report", quick: 600, thorough: 100_000, run: report }],
        },
        Prop {
            id: "C53",
            level: "exploration",
            rule: "at least five definitions in two or more files",
            assumptions: &["scripts that compile"],
            subs: vec![Sub { name: "sources", quick: 600, thorough: 100_000, run: sources }],
        },
    ]
}

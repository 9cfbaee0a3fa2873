use std::collections::HashMap;
use std::ffi::{OsStr, OsString};
use std::io::Cursor;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, SystemTime};

use pbt::{fail, R};
use redscript::bundle::{ConstantPool, ScriptBundle};
use redscript::definition::AnyDefinition;
use redscript_compiler::source_map::{Files, SourceFilter};
use redscript_compiler::unit::CompilationUnit;
use redscript_decompiler::print::{write_definition, OutputMode};
use scc_lib::api::{SccResult, SccSettings};

/// What a run ended with.
#[derive(Clone, Debug, PartialEq)]
pub enum Ran {
    Done,
    Refused(String),
    Killed,
}

/// The process that compiles: `r6 custom|- output|- extra...`
pub fn worker(args: &[String]) -> ! {
    let opt = |s: &String| (s != "-").then(|| PathBuf::from(s).into_boxed_path());
    let settings = SccSettings {
        r6_dir: PathBuf::from(&args[0]).into_boxed_path(),
        custom_cache_file: opt(&args[1]),
        output_cache_file: opt(&args[2]),
        additional_script_paths: args[3..].iter().map(|s| PathBuf::from(s).into_boxed_path()).collect(),
    };
    match *scc_lib::compile(&settings) {
        SccResult::Success(_) => std::process::exit(0),
        SccResult::Error(e) => {
            print!("{e:#}");
            std::process::exit(1)
        }
    }
}

fn preload() -> PathBuf {
    let exe = std::env::current_exe().expect("the path of this program");
    let dir = exe.parent().and_then(Path::parent).expect("the folder of the build");
    dir.join("fault.so")
}

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let shm = Path::new("/dev/shm");
        let base = if shm.is_dir() && std::fs::metadata(shm).map_or(false, |m| !m.permissions().readonly()) {
            shm.to_path_buf()
        } else {
            std::env::temp_dir()
        };
        let dir = base.join(format!("vscc-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&dir).expect("a scratch folder");
        Scratch(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// The cache as the game ships it.
pub fn pristine(version: u32) -> Vec<u8> {
    static ALL: OnceLock<Mutex<HashMap<u32, Vec<u8>>>> = OnceLock::new();
    let mut all = ALL.get_or_init(Default::default).lock().expect("caches");
    all.entry(version)
        .or_insert_with(|| {
            let bytes = std::fs::read("/repo/resources/predef.redscripts").expect("the cache of the repository");
            let mut bundle = ScriptBundle::load(&mut Cursor::new(bytes)).expect("the cache of the repository loads");
            let mut text = format!(
                "public class Player {{ public func Health() -> Int32 {{ return {version}; }} }}\n\
                 func GameVersion() -> Int32 {{ return {version}; }}\n"
            );
            for i in 0..60 {
                text.push_str(&format!(
                    "public class Item{i} {{ public let count: Int32; public func Count{i}() -> Int32 {{ return this.count; }} }}\n"
                ));
            }
            let mut files = Files::new();
            files.add("game.script".into(), text);
            let out = CompilationUnit::new(&mut bundle.pool, vec![])
                .and_then(|u| u.compile_files(&files))
                .expect("the scripts of the game compile");
            assert!(out.diagnostics().iter().all(|d| !d.is_fatal()), "the scripts of the game are right");
            let mut out = Cursor::new(vec![]);
            bundle.save(&mut out).expect("a cache is written");
            out.into_inner()
        })
        .clone()
}

/// Everything at the top level of a cache as text, in no particular order.
pub fn content(pool: &ConstantPool) -> Vec<String> {
    let mut all = vec![];
    for (_, def) in pool.definitions() {
        if !def.parent.is_undefined()
            || !matches!(def.value, AnyDefinition::Class(_) | AnyDefinition::Function(_) | AnyDefinition::Enum(_))
        {
            continue;
        }
        let mut out = vec![];
        let r = write_definition(&mut out, def, pool, 0, OutputMode::Code { verbose: true });
        let mut text = String::from_utf8_lossy(&out).into_owned();
        if let Err(e) = r {
            text.push_str(&format!("<{e}>"));
        }
        // the mark by which the compiler knows its own work
        if text.contains("$REDSCRIPT_SIGNATURE") {
            continue;
        }
        all.push(text);
    }
    all.sort();
    all
}

pub fn load(bytes: &[u8]) -> Result<ScriptBundle, String> {
    ScriptBundle::load(&mut Cursor::new(bytes)).map_err(|e| e.to_string())
}

/// What compiling the scripts in `paths` against the game's cache gives.
pub fn expected(version: u32, paths: &[PathBuf]) -> Result<Vec<String>, String> {
    let mut bundle = load(&pristine(version))?;
    let files = Files::from_dirs(paths, &SourceFilter::None).map_err(|e| e.to_string())?;
    let out = CompilationUnit::new(&mut bundle.pool, vec![])
        .and_then(|u| u.compile_files(&files))
        .map_err(|e| format!("{e:?}"))?;
    if let Some(d) = out.diagnostics().iter().find(|d| d.is_fatal()) {
        return Err(d.to_string());
    }
    // through the file format, as the output was
    let mut bytes = Cursor::new(vec![]);
    bundle.save(&mut bytes).map_err(|e| e.to_string())?;
    Ok(content(&load(bytes.get_ref())?.pool))
}

/// One mod: a file or folder in the scripts folder.
#[derive(Clone, Debug, PartialEq)]
pub struct Mod {
    pub name: String,
    /// files inside a folder of that name, or one file
    pub folder: bool,
    pub files: Vec<String>,
    pub bad: bool,
    /// in a folder of its own, outside r6/scripts
    pub outside: bool,
    /// file names that are not UTF-8
    pub raw: bool,
}

impl Mod {
    pub fn paths(&self, root: &Path) -> Vec<PathBuf> {
        let base = if self.outside { root.join("elsewhere") } else { root.join("r6").join("scripts") };
        let file = |stem: String| {
            let mut name = OsString::from(stem);
            if self.raw {
                name.push(OsStr::from_bytes(b"\xe9\xff"));
            }
            name.push(".reds");
            name
        };
        (0..self.files.len())
            .map(|i| match (self.folder, i) {
                (true, i) if i % 2 == 1 => base.join(&self.name).join("sub").join(file(format!("{}_{i}", self.name))),
                (true, i) => base.join(&self.name).join(file(format!("{}_{i}", self.name))),
                (false, 0) => base.join(file(self.name.clone())),
                (false, i) => base.join(file(format!("{}_{i}", self.name))),
            })
            .collect()
    }
}

pub struct World {
    pub root: PathBuf,
    _scratch: Scratch,
    pub version: u32,
    pub custom: bool,
    pub mods: Vec<Mod>,
    tick: u64,
    near: Option<SystemTime>,
    /// the user has removed the backup of a cache that is not the game's
    pub lost: bool,
}

impl World {
    pub fn new(custom: bool, custom_exists: bool) -> World {
        let scratch = Scratch::new();
        let root = scratch.0.clone();
        let mut w = World { root, _scratch: scratch, version: 1, custom, mods: vec![], tick: 0, near: None, lost: false };
        std::fs::create_dir_all(w.r6().join("cache")).expect("cache");
        std::fs::create_dir_all(w.r6().join("scripts")).expect("scripts");
        std::fs::create_dir_all(w.root.join("elsewhere")).expect("elsewhere");
        let default = w.r6().join("cache").join("final.redscripts");
        w.put(&default);
        if custom && custom_exists {
            std::fs::create_dir_all(w.r6().join("cache").join("modded")).expect("modded");
            let c = w.cache();
            w.put(&c);
        }
        w
    }

    pub fn r6(&self) -> PathBuf {
        self.root.join("r6")
    }

    /// The cache that the game loads.
    pub fn cache(&self) -> PathBuf {
        let dir = self.r6().join("cache");
        if self.custom { dir.join("modded").join("final.redscripts") } else { dir.join("final.redscripts") }
    }

    pub fn output(&self, separate: bool) -> PathBuf {
        if separate { self.r6().join("cache").join("out.redscripts") } else { self.cache() }
    }

    /// Writes the game's cache of the current version, as an installer does.
    fn put(&mut self, path: &Path) {
        std::fs::write(path, pristine(self.version)).expect("the cache is written");
        self.tick += 1;
        let time = match self.near.take() {
            // shortly after the last write of the cache
            Some(t) => t + Duration::from_micros(1_700 + self.tick),
            None => SystemTime::UNIX_EPOCH + Duration::from_nanos(1_600_000_000_000_000_000 + self.tick * 1_234_567_891),
        };
        let f = std::fs::OpenOptions::new().write(true).open(path).expect("the cache is there");
        f.set_modified(time).expect("its time is set");
    }

    pub fn update(&mut self, to: u32, soon: bool) {
        self.version = to;
        self.lost = false;
        let c = self.cache();
        self.near = if soon { std::fs::metadata(&c).and_then(|m| m.modified()).ok() } else { None };
        if c.parent().map_or(false, Path::exists) {
            self.put(&c);
        }
        if self.custom {
            let default = self.r6().join("cache").join("final.redscripts");
            self.put(&default);
        }
    }

    /// The user removes the timestamp and the backup, or one of them.
    pub fn tidy(&mut self, ts: bool, backup: bool) {
        let c = self.cache();
        if ts {
            let _ = std::fs::remove_file(c.with_extension("redscripts.ts"));
        }
        if backup {
            let _ = std::fs::remove_file(c.with_extension("redscripts.bk"));
        }
        let want = pristine(self.version);
        let holds = |p: &Path| std::fs::read(p).map_or(false, |b| b == want);
        self.lost = self.lost || c.exists() && !holds(&c) && !holds(&c.with_extension("redscripts.bk"));
    }

    pub fn set_mods(&mut self, mods: Vec<Mod>) {
        for d in [self.r6().join("scripts"), self.root.join("elsewhere")] {
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir_all(&d).expect("scripts");
        }
        for m in &mods {
            for (p, text) in m.paths(&self.root).iter().zip(&m.files) {
                std::fs::create_dir_all(p.parent().expect("a folder")).expect("folder of a mod");
                std::fs::write(p, text).expect("script");
            }
        }
        self.mods = mods;
    }

    pub fn script_paths(&self) -> Vec<PathBuf> {
        vec![self.r6().join("scripts"), self.root.join("elsewhere")]
    }

    pub fn command(&self, separate: bool, fault: Option<&str>) -> Command {
        let mut c = Command::new(std::env::current_exe().expect("this program"));
        c.arg("worker").arg(self.r6());
        c.arg(if self.custom { self.cache().into_os_string() } else { "-".into() });
        c.arg(if separate { self.output(true).into_os_string() } else { "-".into() });
        c.arg(self.root.join("elsewhere"));
        c.env("LD_PRELOAD", preload()).env_remove("SCC_FAULT");
        if let Some(f) = fault {
            c.env("SCC_FAULT", f);
        }
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        c
    }

    pub fn run(&self, separate: bool, fault: Option<&str>) -> Result<Ran, pbt::Fail> {
        let out = self.command(separate, fault).output().or_else(|e| fail("spawn", e.to_string()))?;
        ended(out)
    }

    /// Two runs at the same time.
    pub fn pair(&self, separate: bool, fault: &str) -> Result<(Ran, Ran), pbt::Fail> {
        let a = self.command(separate, Some(fault)).spawn().or_else(|e| fail("spawn", e.to_string()))?;
        let b = self.command(separate, None).output().or_else(|e| fail("spawn", e.to_string()))?;
        let a = a.wait_with_output().or_else(|e| fail("spawn", e.to_string()))?;
        Ok((ended(a)?, ended(b)?))
    }

    /// The output is what compiling the present scripts against the present game gives.
    pub fn check_output(&self, separate: bool) -> R {
        let path = self.output(separate);
        let bytes = match std::fs::read(&path) {
            Ok(b) => b,
            Err(e) => return fail("no output", format!("a run succeeded but its output cannot be read: {e}")),
        };
        let bundle = match load(&bytes) {
            Ok(b) => b,
            Err(e) => return fail("output", format!("a run succeeded but its output does not load: {e}")),
        };
        let want = expected(self.version, &self.script_paths()).or_else(|e| fail("expected", e))?;
        let got = content(&bundle.pool);
        // nothing of an earlier output is behind it
        let mut again = Cursor::new(vec![]);
        let mut bundle = bundle;
        if let Err(e) = bundle.save(&mut again) {
            return fail("output", format!("the output cannot be saved again: {e}"));
        }
        if again.get_ref().len() != bytes.len() {
            return fail("output", format!("the output has {} bytes but its content takes {}", bytes.len(), again.get_ref().len()));
        }
        if got != want {
            let more: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(3).collect();
            let less: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(3).collect();
            return fail(
                "output",
                format!(
                    "the output is not what the scripts and version {} of the game give ({} definitions instead of {}): it has {more:?} and lacks {less:?}",
                    self.version,
                    got.len(),
                    want.len()
                ),
            );
        }
        Ok(())
    }

    fn holds_pristine(&self) -> bool {
        let want = pristine(self.version);
        let dir = self.cache().parent().map(Path::to_path_buf).unwrap_or_default();
        std::fs::read_dir(dir)
            .into_iter()
            .flatten()
            .flatten()
            .any(|e| std::fs::read(e.path()).map_or(false, |b| b == want))
    }

    /// The game's own cache can still be found somewhere.
    pub fn check_pristine(&self) -> R {
        if self.lost || self.custom && !self.cache().exists() {
            return Ok(());
        }
        if !self.holds_pristine() {
            return fail("pristine copy lost", format!("no file holds the cache of version {} of the game any more", self.version));
        }
        Ok(())
    }
}

fn ended(out: std::process::Output) -> Result<Ran, pbt::Fail> {
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    match out.status.code() {
        Some(0) => Ok(Ran::Done),
        Some(1) => Ok(Ran::Refused(text)),
        Some(77) => Ok(Ran::Killed),
        other => fail("crash", format!("the compiler ended with {other:?} {}: {}", out.status, String::from_utf8_lossy(&out.stderr))),
    }
}

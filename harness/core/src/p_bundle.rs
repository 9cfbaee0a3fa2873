//! C01–C06, C13: the bundle file.

use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

use hashbrown::HashMap;
use pbt::{catch, ensure, ensure_eq, fail, Ctx, Prop, Src, Sub, R};
use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle, Timestamp};
use redscript::definition as d;

use crate::gen::*;
use crate::model::*;
use crate::ops;

pub const PREDEF: &[u8] = include_bytes!("/repo/resources/predef.redscripts");

pub fn load(bytes: &[u8]) -> io::Result<ScriptBundle> {
    ScriptBundle::load(&mut Cursor::new(bytes))
}

pub fn save(b: &ScriptBundle) -> io::Result<Vec<u8>> {
    let mut out = Cursor::new(vec![]);
    b.save(&mut out)?;
    Ok(out.into_inner())
}

fn load_ok(bytes: &[u8]) -> Result<ScriptBundle, pbt::Fail> {
    load(bytes).or_else(|e| fail("load-err", format!("a valid bundle is rejected: {e}")))
}

fn save_ok(b: &ScriptBundle) -> Result<Vec<u8>, pbt::Fail> {
    save(b).or_else(|e| fail("save-err", format!("saving failed: {e}")))
}

fn strict(bytes: &[u8]) -> Result<Bundle, pbt::Fail> {
    decode_strict(bytes).or_else(|e| fail("format", format!("written file is not well-formed: {e}")))
}

pub fn diff_bundle(got: &Bundle, want: &Bundle) -> R {
    ensure_eq!(got.version, want.version, "version");
    ensure_eq!(got.flags, want.flags, "flags");
    ensure_eq!(got.timestamp, want.timestamp, "timestamp");
    ensure_eq!(got.unk3, want.unk3, "header word");
    ensure_eq!(got.chunks, want.chunks, "chunks");
    ensure_eq!(got.names, want.names, "names");
    ensure_eq!(got.tweaks, want.tweaks, "tweakdb ids");
    ensure_eq!(got.resources, want.resources, "resources");
    ensure_eq!(got.strings, want.strings, "strings");
    ensure_eq!(got.defs.len(), want.defs.len(), "definition count");
    for (i, (a, b)) in got.defs.iter().zip(&want.defs).enumerate() {
        ensure_eq!(a, b, "definition", "index {i}");
    }
    Ok(())
}

fn describe(b: &Bundle) -> String {
    format!("{b:?}")
}

fn classify(b: &Bundle, c: &mut Ctx) {
    let funs = b.defs.iter().filter(|d| matches!(&d.val, Val::Function(f) if !f.code.is_empty())).count();
    if funs > 0 {
        c.label("with code");
    }
    if b.defs.len() > 10 {
        c.label(">10 definitions");
    }
    c.nontrivial_if(b.defs.len() > 1 && !b.names.is_empty());
}

fn roundtrip(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen_bundle(s, 16, false);
    let lay = gen_layout(s, m.defs.len());
    c.sample(|| describe(&m));
    classify(&m, c);
    let bundle = load_ok(&encode_bundle(&m, &lay))?;
    diff_pool(&bundle.pool, &m).or_else(|e| fail("view", e))?;
    let out = save_ok(&bundle)?;
    diff_bundle(&strict(&out)?, &m)?;
    let again = load_ok(&out)?;
    diff_pool(&again.pool, &m).or_else(|e| fail("view-after-save", e))
}

/// Larger bundles: every opcode and long tables.
fn roundtrip_large(s: &mut Src, c: &mut Ctx) -> R {
    let mut m = gen_bundle(s, 4, true);
    let n = s.size(50, 400);
    let protos: Vec<Def> = (0..6).map(|_| gen_def(s)).collect();
    for i in 0..n {
        let mut d = protos[i % protos.len()].clone();
        d.name = i as u32;
        m.defs.push(d);
    }
    let k = s.size(100, 600);
    let stem = gen_string(s, 6);
    for i in 0..k {
        let t = format!("{stem}{i}");
        if !m.names.contains(&t) {
            m.names.push(t.clone());
        }
        if i % 3 == 0 && !m.strings.contains(&t) {
            m.strings.push(t);
        }
    }
    let long = s.size(0, 3000);
    let mut f = match gen_val(s) {
        Val::Function(f) => f,
        _ => Fun {
            vis: 0,
            flags: 0,
            source: Some((1, 2)),
            ret: None,
            base_method: None,
            params: vec![],
            locals: vec![],
            operator: None,
            cast: 0,
            code: vec![],
            unk2: vec![],
        },
    };
    let motif: Vec<ops::Ins> = (0..s.size(1, 12)).map(|_| ops::gen_ins(s)).collect();
    f.code = motif.iter().cycle().take(long).cloned().collect();
    m.defs.push(Def::new(0, 0, Val::Function(f)).normalised());
    c.sample(|| format!("{} definitions, {} names, {} instructions of {:?}", m.defs.len(), m.names.len(), long, motif));
    c.nontrivial_if(true);
    let bundle = load_ok(&encode_bundle(&m, &Layout::default()))?;
    diff_pool(&bundle.pool, &m).or_else(|e| fail("view", e))?;
    let out = save_ok(&bundle)?;
    diff_bundle(&strict(&out)?, &m)
}

/// One long list, text, table or body, with a length next to a power of two.
fn roundtrip_wide(s: &mut Src, c: &mut Ctx) -> R {
    let (m, what) = gen_wide(s);
    roundtrip_big(c, m, what)
}

/// Bundles as large as the game's.
fn roundtrip_giant(s: &mut Src, c: &mut Ctx) -> R {
    let (m, what) = gen_giant(s);
    roundtrip_big(c, m, what)
}

fn roundtrip_big(c: &mut Ctx, m: Bundle, what: String) -> R {
    c.sample(|| what.clone());
    c.nontrivial_if(true);
    let bundle = load_ok(&encode_bundle(&m, &Layout::default()))?;
    diff_pool(&bundle.pool, &m).or_else(|e| fail("view", pbt_clip(&e)))?;
    let out = save_ok(&bundle)?;
    diff_bundle(&strict(&out)?, &m).map_err(|mut f| {
        f.msg = format!("{what}: {}", pbt_clip(&f.msg));
        f
    })?;
    let again = load_ok(&out)?;
    diff_pool(&again.pool, &m).or_else(|e| fail("view-after-save", pbt_clip(&e)))?;
    let out2 = save_ok(&again)?;
    ensure!(out2 == out, "saved twice", "{what}: saving the reloaded file gives other bytes");
    Ok(())
}

fn pbt_clip(t: &str) -> String {
    t.chars().take(2000).collect()
}

/// The bundle shipped with the repository, re-saved after generated additions.
fn roundtrip_predef(s: &mut Src, c: &mut Ctx) -> R {
    let mut bundle = load_ok(PREDEF)?;
    let mut m = strict(&save_ok(&load_ok(PREDEF)?)?)?;
    let n = s.size(0, 6);
    for _ in 0..n {
        let d = gen_def(s);
        bundle.pool.add_definition::<()>(build_def(&d));
        m.defs.push(d);
    }
    c.sample(|| format!("predef + {:?}", &m.defs[m.defs.len() - n..]));
    c.nontrivial_if(n > 0);
    diff_bundle(&strict(&save_ok(&bundle)?)?, &m)
}

/// Presence bits that disagree with the data are repaired on save, nothing else changes.
fn presence_bits(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen_bundle(s, 8, true);
    // build in memory with arbitrary presence bits
    let mut bundle = load_ok(&encode_bundle(
        &Bundle {
            defs: vec![Def::placeholder()],
            ..m.clone()
        },
        &Layout::default(),
    ))?;
    for d in &m.defs[1..] {
        let mut e = d.clone();
        match &mut e.val {
            Val::Class(k) => k.flags ^= (s.bits(16) as u16) & cf::COMPUTED,
            Val::Function(k) => k.flags ^= (s.bits(32) as u32) & ff::COMPUTED,
            Val::Field(k) => k.flags ^= (s.bits(16) as u16) & fdf::HAS_HINT,
            _ => {}
        }
        c.nontrivial_if(e != *d);
        bundle.pool.add_definition::<()>(build_def(&e));
    }
    c.sample(|| describe(&m));
    diff_bundle(&strict(&save_ok(&bundle)?)?, &m)
}

/// Content at and beyond what the format can hold: texts of the definitions have a length of 16 bits, those of
/// the tables end at a zero. What cannot be held is refused, what can is written.
fn storable(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen_bundle(s, 6, false);
    let mut bundle = load_ok(&encode_bundle(&m, &Layout::default()))?;
    let mut want = m.clone();
    let mut fits = true;
    let mut long = |s: &mut Src| {
        let n = if s.chance(3, 4) { 65_535 + s.range(-3, 3) as usize } else { s.size(60_000, 200_000) };
        // characters of two bytes as well
        let t = if s.bool() { "x".repeat(n) } else { "\u{e9}".repeat(n / 2) + &"y".repeat(n % 2) };
        fits &= t.len() <= 65_535;
        t
    };
    let what = s.below(6);
    match what {
        0..=3 => {
            let val = if what == 3 {
                Val::SourceFile { id: s.bits(32) as u32, hash: s.bits(64), path: long(s) }
            } else {
                let short = || vec![("k".to_owned(), "v".to_owned())];
                let name = s.bool();
                let prop = |t: String| vec![if name { (t, "v".to_owned()) } else { ("k".to_owned(), t) }];
                Val::Field(Field {
                    vis: s.below(3) as u8,
                    ty: s.bits(32) as u32,
                    flags: 0,
                    hint: if what == 0 { Some(long(s)) } else { None },
                    attributes: if what == 1 { prop(long(s)) } else { short() },
                    defaults: if what == 2 { prop(long(s)) } else { short() },
                })
            };
            let d = Def::new(0, 0, val).normalised();
            bundle.pool.add_definition::<()>(build_def(&d));
            want.defs.push(d);
            c.label("long text");
        }
        _ => {
            let mut t: Vec<char> = gen_string(s, 8).chars().collect();
            let zero = what == 5 || s.bool();
            if zero {
                t.insert(s.idx(t.len() + 1), '\0');
                fits = false;
                c.label("zero");
            }
            let t: String = t.into_iter().collect();
            let (list, present) = match s.below(4) {
                0 => {
                    bundle.pool.names.add(t.as_str().into());
                    (&mut want.names, t == "None")
                }
                1 => {
                    bundle.pool.tweakdb_ids.add(t.as_str().into());
                    (&mut want.tweaks, false)
                }
                2 => {
                    bundle.pool.resources.add(t.as_str().into());
                    (&mut want.resources, false)
                }
                _ => {
                    bundle.pool.strings.add(t.as_str().into());
                    (&mut want.strings, false)
                }
            };
            if !present && !list.contains(&t) {
                list.push(t);
            }
        }
    }
    c.label(if fits { "fits" } else { "does not fit" });
    c.nontrivial_if(true);
    c.sample(|| format!("kind {what}, fits: {fits}"));
    match catch(|| save(&bundle)) {
        Err(p) => fail("panic", format!("saving panicked: {p}")),
        Ok(Err(e)) => {
            ensure!(!fits, "refused", "content which the format can hold is refused: {e}");
            Ok(())
        }
        Ok(Ok(out)) => {
            ensure!(fits, "accepted", "content which the format cannot hold was written without an error");
            diff_bundle(&strict(&out)?, &want)
        }
    }
}

fn format_after_edit(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen_bundle(s, 10, false);
    let lay = gen_layout(s, m.defs.len());
    let mut bundle = load_ok(&encode_bundle(&m, &lay))?;
    let mut want = m.clone();
    let adds = s.len(8);
    for _ in 0..adds {
        match s.below(5) {
            0 => {
                let d = gen_def(s);
                bundle.pool.add_definition::<()>(build_def(&d));
                want.defs.push(d);
            }
            k => {
                let t = if !want.names.is_empty() && s.bool() {
                    s.pick(&want.names).clone()
                } else {
                    gen_string(s, 16)
                };
                let (list, present) = match k {
                    1 => (&mut want.names, t == "None"),
                    2 => (&mut want.tweaks, false),
                    3 => (&mut want.resources, false),
                    _ => (&mut want.strings, false),
                };
                match k {
                    1 => drop(bundle.pool.names.add(t.as_str().into())),
                    2 => drop(bundle.pool.tweakdb_ids.add(t.as_str().into())),
                    3 => drop(bundle.pool.resources.add(t.as_str().into())),
                    _ => drop(bundle.pool.strings.add(t.as_str().into())),
                }
                if !present && !list.contains(&t) {
                    list.push(t);
                }
            }
        }
    }
    c.nontrivial_if(adds > 0 && want.defs.len() > 1);
    c.sample(|| describe(&want));
    let out = save_ok(&bundle)?;
    diff_bundle(&strict(&out)?, &want)
}

fn fixpoint(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen_bundle(s, 12, false);
    let lay = gen_layout(s, m.defs.len());
    c.sample(|| describe(&m));
    classify(&m, c);
    let raw = encode_bundle(&m, &lay);
    let b = load_ok(&raw)?;
    let one = save_ok(&b)?;
    let two = save_ok(&b)?;
    ensure!(one == two, "nondeterministic", "saving the same bundle twice gave different files");
    let other = save_ok(&load_ok(&raw)?)?;
    ensure!(one == other, "nondeterministic", "two loads of the same file save differently");
    let re = save_ok(&load_ok(&one)?)?;
    ensure!(one == re, "not-idempotent", "load and save of a saved file changed its bytes");
    // two layouts of the same content save to the same file
    let lay2 = gen_layout(s, m.defs.len());
    let third = save_ok(&load_ok(&encode_bundle(&m, &lay2))?)?;
    ensure!(one == third, "layout-dependent", "the layout of the input file leaks into the saved file");
    // a file overwritten by a longer or shorter one
    let mut reused = Cursor::new(vec![0xEEu8; s.size(0, one.len())]);
    // wherever the writer happens to stand, as after writing the file before
    reused.set_position(s.size(0, reused.get_ref().len()) as u64);
    b.save(&mut reused).or_else(|e| fail("save-err", e.to_string()))?;
    ensure!(reused.into_inner() == one, "stale-bytes", "saving over existing bytes gave a different file");
    Ok(())
}

// ---------------------------------------------------------------- I/O faults

#[derive(Clone, Debug)]
struct Faults {
    /// largest transfer per call
    chunk: usize,
    /// every n-th call is interrupted
    interrupt_every: usize,
    /// fail for good once this many bytes have moved
    fail_after: Option<u64>,
    /// fail the n-th seek
    fail_seek: Option<usize>,
    /// a write of zero bytes instead of an error
    zero: bool,
    /// the fault passes: everything works again after it
    once: bool,
}

struct Dev {
    inner: Cursor<Vec<u8>>,
    f: Faults,
    calls: usize,
    moved: u64,
    seeks: usize,
    tripped: bool,
}

impl Dev {
    fn new(data: Vec<u8>, f: Faults) -> Dev {
        Dev {
            inner: Cursor::new(data),
            f,
            calls: 0,
            moved: 0,
            seeks: 0,
            tripped: false,
        }
    }
    fn gate(&mut self, want: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.f.interrupt_every > 0 && self.calls % self.f.interrupt_every == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        if let Some(limit) = self.f.fail_after {
            if self.moved >= limit && want > 0 {
                self.tripped = true;
                if self.f.once {
                    self.f.fail_after = None;
                }
                if self.f.zero {
                    return Ok(0);
                }
                return Err(io::Error::new(io::ErrorKind::Other, "injected fault"));
            }
            let left = (limit - self.moved) as usize;
            return Ok(want.min(self.f.chunk).min(left.max(1)));
        }
        Ok(want.min(self.f.chunk))
    }
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.gate(buf.len())?;
        let n = self.inner.read(&mut buf[..n])?;
        self.moved += n as u64;
        Ok(n)
    }
}
impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.gate(buf.len())?;
        let n = self.inner.write(&buf[..n])?;
        self.moved += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Dev {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if !matches!(p, SeekFrom::Current(0)) {
            self.seeks += 1;
            if self.f.fail_seek == Some(self.seeks) {
                self.tripped = true;
                return Err(io::Error::new(io::ErrorKind::Other, "injected seek fault"));
            }
        }
        self.inner.seek(p)
    }
}

fn io_partial(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen_bundle(s, 8, false);
    let raw = encode_bundle(&m, &Layout::default());
    let f = Faults {
        chunk: s.size(1, 40),
        interrupt_every: if s.bool() { s.size(2, 9) } else { 0 },
        fail_after: None,
        fail_seek: None,
        zero: false,
        once: false,
    };
    c.sample(|| format!("{f:?} on {} definitions, {} bytes", m.defs.len() - 1, raw.len()));
    c.nontrivial_if(m.defs.len() > 1);
    let good = save_ok(&load_ok(&raw)?)?;
    let mut dev = Dev::new(raw, f.clone());
    let b = match ScriptBundle::load(&mut dev) {
        Ok(b) => b,
        Err(e) => return fail("short-read", format!("short or interrupted reads made loading fail: {e}")),
    };
    diff_pool(&b.pool, &m).or_else(|e| fail("short-read", e))?;
    let mut dev = Dev::new(vec![], f);
    if let Err(e) = b.save(&mut dev) {
        return fail("short-write", format!("short or interrupted writes made saving fail: {e}"));
    }
    ensure!(
        dev.inner.into_inner() == good,
        "short-write",
        "short or interrupted writes changed the file that was written"
    );
    Ok(())
}

fn io_fail(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen_bundle(s, 8, false);
    let raw = encode_bundle(&m, &Layout::default());
    let b = load_ok(&raw)?;
    let good = save_ok(&b)?;
    // total bytes moved by a fault-free save
    let mut probe = Dev::new(
        vec![],
        Faults {
            chunk: usize::MAX,
            interrupt_every: 0,
            fail_after: None,
            fail_seek: None,
            zero: false,
        once: false,
        },
    );
    b.save(&mut probe).or_else(|e| fail("save-err", e.to_string()))?;
    let (total, seeks) = (probe.moved, probe.seeks);
    let by_seek = s.chance(1, 4);
    let mut f = Faults {
        chunk: s.size(1, 64),
        interrupt_every: 0,
        fail_after: None,
        fail_seek: None,
        zero: s.chance(1, 3),
        once: s.bool(),
    };
    if by_seek && seeks > 0 {
        f.fail_seek = Some(s.size(1, seeks));
        c.label("seek fault");
    } else {
        f.fail_after = Some(s.below(total));
        c.label("write fault");
    }
    c.sample(|| format!("{f:?} while saving {} bytes", good.len()));
    c.nontrivial_if(m.defs.len() > 1);
    let mut dev = Dev::new(vec![], f.clone());
    let r = b.save(&mut dev);
    ensure!(
        r.is_err() || !dev.tripped,
        "swallowed-write-error",
        "the device failed while saving but save reported success ({f:?})"
    );
    // the same on the reading side
    let mut probe = Dev::new(
        raw.clone(),
        Faults {
            chunk: usize::MAX,
            interrupt_every: 0,
            fail_after: None,
            fail_seek: None,
            zero: false,
        once: false,
        },
    );
    ScriptBundle::load(&mut probe).or_else(|e| fail("load-err", e.to_string()))?;
    let mut f = f;
    f.fail_seek = None;
    f.fail_after = None;
    if by_seek && probe.seeks > 0 {
        f.fail_seek = Some(s.size(1, probe.seeks));
    } else {
        f.fail_after = Some(s.below(probe.moved.max(1)));
    }
    let mut dev = Dev::new(raw, f.clone());
    let r = ScriptBundle::load(&mut dev);
    ensure!(
        r.is_err() || !dev.tripped,
        "swallowed-read-error",
        "the device failed while loading but load reported success ({f:?})"
    );
    Ok(())
}

/// Every proper prefix of a saved file is rejected.
fn truncation(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen_bundle(s, 6, false);
    let good = save_ok(&load_ok(&encode_bundle(&m, &Layout::default()))?)?;
    let n = good.len();
    let points: Vec<usize> = if n <= 400 {
        (0..n).collect()
    } else {
        (0..200).map(|_| s.idx(n)).collect()
    };
    c.sample(|| format!("{} truncation points of a file of {n} bytes", points.len()));
    c.extra_evals = points.len() as u64;
    c.nontrivial_if(m.defs.len() > 1);
    for p in points {
        match catch(|| load(&good[..p]).map(|_| ())) {
            Ok(Err(_)) => {}
            Ok(Ok(())) => return fail("truncated-accepted", format!("the first {p} of {n} bytes load without error")),
            Err(m) => return fail("truncated-panic", format!("loading the first {p} of {n} bytes panics: {m}")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- malformed input

/// What a load may hold on to at once: a fixed amount, plus a multiple of what it was given.
fn allowance(bytes: &[u8]) -> i64 {
    (64 << 20) + 256 * bytes.len() as i64
}

fn malformed_check(bytes: &[u8]) -> R {
    let (res, peak) = crate::alloc::peak_of(|| malformed_steps(bytes));
    res?;
    ensure!(peak <= allowance(bytes), "malformed-memory", "loading {} bytes holds {peak} bytes of memory", bytes.len());
    Ok(())
}

fn malformed_steps(bytes: &[u8]) -> R {
    match catch(|| load(bytes)) {
        Err(m) => fail("malformed-panic", format!("loading malformed bytes panics: {m}")),
        Ok(Err(_)) => Ok(()),
        Ok(Ok(b)) => match catch(|| save(&b)) {
            Err(m) => fail("malformed-save-panic", format!("saving what was loaded panics: {m}")),
            Ok(Err(e)) => fail("malformed-save-err", format!("saving what was loaded fails: {e}")),
            Ok(Ok(out)) => match catch(|| load(&out).map(|_| ())) {
                Err(m) => fail("malformed-reload-panic", format!("reloading panics: {m}")),
                Ok(Err(e)) => fail("malformed-reload-err", format!("reloading what was saved fails: {e}")),
                Ok(Ok(())) => Ok(()),
            },
        },
    }
}

fn must_reject(bytes: &[u8], what: &str) -> R {
    malformed_check(bytes)?;
    ensure!(load(bytes).is_err(), "malformed-accepted", "{what} loads without error");
    Ok(())
}

fn mutate(s: &mut Src, bytes: &mut Vec<u8>) {
    if bytes.is_empty() {
        bytes.push(s.bits(8) as u8);
        return;
    }
    let n = bytes.len();
    let at = if s.chance(1, 3) { s.idx(n.min(104)) } else { s.idx(n) };
    match s.below(7) {
        0 => bytes[at] ^= 1 << s.below(8),
        1 => bytes[at] = s.bits(8) as u8,
        2 => {
            let v = (s.bits(32) as u32).to_le_bytes();
            for (k, b) in v.iter().enumerate() {
                if at + k < n {
                    bytes[at + k] = *b;
                }
            }
        }
        3 => bytes.truncate(at),
        4 => {
            let k = s.size(1, 8);
            for _ in 0..k {
                let v = s.bits(8) as u8;
                bytes.insert(at, v);
            }
        }
        5 => {
            let k = s.size(1, 8).min(n - at);
            bytes.drain(at..at + k);
        }
        _ => {
            let k = s.size(1, 24).min(n - at);
            let from = s.idx(n - k + 1);
            let chunk = bytes[from..from + k].to_vec();
            bytes[at..at + k].copy_from_slice(&chunk);
        }
    }
}

fn malformed(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen_bundle(s, 6, false);
    let lay = gen_layout(s, m.defs.len());
    let mut bytes = encode_bundle(&m, &lay);
    let k = s.size(1, 4);
    for _ in 0..k {
        mutate(s, &mut bytes);
    }
    // a magic number that survives, most of the time
    if bytes.len() >= 4 && !s.chance(1, 20) {
        bytes[..4].copy_from_slice(b"REDS");
    }
    c.sample(|| format!("{} bytes: {:02x?}", bytes.len(), &bytes[..bytes.len().min(160)]));
    c.nontrivial_if(bytes.len() >= 104);
    match malformed_check(&bytes) {
        Ok(()) => Ok(()),
        e => e,
    }
}

/// Each length, count, tag or code word of each definition body set to extreme values.
fn malformed_fields(s: &mut Src, c: &mut Ctx) -> R {
    let d = gen_def(s);
    let mut m = gen_bundle(s, 0, true);
    m.defs.push(d);
    let bytes = encode_bundle(&m, &Layout::default());
    let body = encode_val(&m.defs[1].val).len();
    let start = bytes.len() - body;
    let head_at = 104 + (bytes.len() - body - 104); // end of tables
    let _ = head_at;
    c.sample(|| format!("{:?}", m.defs[1]));
    c.nontrivial_if(body > 4);
    let mut evals = 0;
    let vals = [0u32, 1, 0x7f, 0xff, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff];
    // words of the file header
    for at in (4..104).step_by(4) {
        for v in vals {
            let mut b = bytes.clone();
            b[at..at + 4].copy_from_slice(&v.to_le_bytes());
            malformed_check(&b)?;
            evals += 1;
        }
    }
    // definition header
    let dh = {
        let off = u32::from_le_bytes(bytes[80..84].try_into().unwrap()) as usize;
        off + 20
    };
    for at in dh..dh + 20 {
        for v in [0u8, 1, 4, 9, 10, 0x7f, 0x80, 0xff] {
            let mut b = bytes.clone();
            b[at] = v;
            malformed_check(&b)?;
            evals += 1;
        }
    }
    // content said to be where the file has none
    let end = bytes.len() as u32;
    for off in [end, end + 1, end.saturating_mul(2), u32::MAX] {
        for size in [None, Some(0), Some(1), Some(body as u32 + 1), Some(u32::MAX)] {
            let mut b = bytes.clone();
            b[dh + 8..dh + 12].copy_from_slice(&off.to_le_bytes());
            if let Some(size) = size {
                b[dh + 12..dh + 16].copy_from_slice(&size.to_le_bytes());
            }
            must_reject(&b, "a definition behind the end of the file")?;
            evals += 1;
        }
    }
    let word = |at: usize| u32::from_le_bytes(bytes[at..at + 4].try_into().unwrap());
    let data = word(36);
    for (at, size) in [(32, 1), (44, 4), (56, 4), (68, 4), (80, 20), (92, 4)] {
        for count in [end / size + 1, end, u32::MAX] {
            let mut b = bytes.clone();
            b[at + 4..at + 8].copy_from_slice(&count.to_le_bytes());
            // a single cut table must do, whatever follows in the file is taken for it
            if count as u64 * size as u64 > end as u64 {
                must_reject(&b, "a table longer than the file")?;
                evals += 1;
            }
        }
    }
    for at in [44, 56, 68, 92] {
        for k in 0..word(at + 4).min(8) as usize {
            for off in [data, data + 1, u32::MAX] {
                let mut b = bytes.clone();
                let pos = word(at) as usize + 4 * k;
                b[pos..pos + 4].copy_from_slice(&off.to_le_bytes());
                must_reject(&b, "a string behind the end of the string data")?;
                evals += 1;
            }
        }
    }
    for at in start..bytes.len().min(start + 120) {
        for v in [0u8, 1, 3, 7, 0x7f, 0x80, 0xff] {
            let mut b = bytes.clone();
            b[at] = v;
            malformed_check(&b)?;
            if at + 4 <= b.len() {
                b[at..at + 4].copy_from_slice(&u32::MAX.to_le_bytes());
                malformed_check(&b)?;
                evals += 1;
            }
            evals += 1;
        }
    }
    c.extra_evals = evals;
    Ok(())
}

// ---------------------------------------------------------------- C03 histories

fn history(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen_bundle(s, 5, true);
    history_from(s, c, m)
}

/// The same with a pool that has a large table to begin with.
fn history_wide(s: &mut Src, c: &mut Ctx) -> R {
    let (m, _) = gen_wide(s);
    history_from(s, c, m)
}

fn history_from(s: &mut Src, c: &mut Ctx, mut m: Bundle) -> R {
    m.names.retain(|n| n != "None");
    if m.names.is_empty() {
        m.names.push("first".into());
    }
    let mut b = load_ok(&encode_bundle(&m, &Layout::default()))?;
    let steps = s.size(1, 25);
    let mut log = vec![];
    let mut reloads = 0;
    let mut edits = 0;
    for step in 0..steps {
        let n = m.defs.len() as u32;
        let what = s.weighted(&[4, 3, 2, 2, 2, 1, 2, 2, 3, 2]);
        match what {
            0 => {
                let d = gen_def(s);
                let i: PoolIndex<()> = b.pool.add_definition(build_def(&d));
                log.push(format!("add {:?} -> {i}", d.val.tag()));
                ensure_eq!(u32::from(i), n, "add-index");
                m.defs.push(d);
                edits += 1;
            }
            1 => {
                let pool = s.below(4);
                let t = if s.bool() {
                    gen_string(s, 8)
                } else {
                    let mut all: Vec<&String> = vec![];
                    all.extend(&m.names);
                    all.extend(&m.tweaks);
                    all.extend(&m.resources);
                    all.extend(&m.strings);
                    (*s.pick(&all)).clone()
                };
                let (i, list): (u32, &mut Vec<String>) = match pool {
                    0 => (b.pool.names.add(t.as_str().into()).into(), &mut m.names),
                    1 => (b.pool.tweakdb_ids.add(t.as_str().into()).into(), &mut m.tweaks),
                    2 => (b.pool.resources.add(t.as_str().into()).into(), &mut m.resources),
                    _ => (b.pool.strings.add(t.as_str().into()).into(), &mut m.strings),
                };
                log.push(format!("intern {t:?} in {pool} -> {i}"));
                if pool == 0 && t == "None" {
                    ensure_eq!(i, 0, "intern-none");
                } else if let Some(p) = list.iter().position(|x| *x == t) {
                    ensure_eq!(i as usize, p, "intern-existing");
                } else {
                    ensure_eq!(i as usize, list.len(), "intern-new");
                    list.push(t);
                    edits += 1;
                }
            }
            2 if n > 1 => {
                let i = s.range(1, i64::from(n) - 1) as u32;
                let d = gen_def(s);
                b.pool.put_definition(PoolIndex::<()>::new(i), build_def(&d));
                log.push(format!("put {i}"));
                m.defs[i as usize] = d;
                edits += 1;
            }
            3 if n > 1 => {
                let i = s.range(1, i64::from(n) - 1) as u32;
                let j = s.range(1, i64::from(n) - 1) as u32;
                b.pool.swap_definition(PoolIndex::<()>::new(i), PoolIndex::new(j));
                log.push(format!("swap {i} {j}"));
                m.defs.swap(i as usize, j as usize);
                edits += 1;
            }
            4 if n > 1 => {
                let i = s.range(1, i64::from(n) - 1) as u32;
                let name = s.below(m.names.len() as u64) as u32;
                b.pool.rename(PoolIndex::<()>::new(i), PoolIndex::new(name));
                log.push(format!("rename {i} to {name}"));
                m.defs[i as usize].name = name;
                edits += 1;
            }
            5 => {
                let i: PoolIndex<()> = b.pool.reserve();
                log.push(format!("reserve -> {i}"));
                ensure_eq!(u32::from(i), n, "reserve-index");
                m.defs.push(Def::placeholder());
                edits += 1;
            }
            6 => {
                let name = s.below(m.names.len() as u64) as u32;
                let i: PoolIndex<()> = b.pool.stub_definition(PoolIndex::new(name));
                log.push(format!("stub {name} -> {i}"));
                ensure_eq!(u32::from(i), n, "stub-index");
                m.defs.push(Def::new(name, 0, Val::Type(Ty::Prim)));
                edits += 1;
            }
            7 if n > 1 => {
                // mutate in place
                let i = s.range(1, i64::from(n) - 1) as u32;
                log.push(format!("mutate {i}"));
                match &mut m.defs[i as usize].val {
                    Val::Class(k) => {
                        let f = s.bits(32) as u32;
                        let got = b.pool.class_mut(PoolIndex::new(i));
                        let Ok(got) = got else {
                            return fail("class-mut", format!("definition {i} is a class but cannot be edited"));
                        };
                        got.functions.push(PoolIndex::new(f));
                        got.base = PoolIndex::new(7);
                        k.functions.push(f);
                        k.base = 7;
                        k.flags |= cf::HAS_FUNCTIONS;
                    }
                    Val::Function(k) => {
                        let f = s.bits(32) as u32;
                        let Ok(got) = b.pool.function_mut(PoolIndex::new(i)) else {
                            return fail("function-mut", format!("definition {i} is a function but cannot be edited"));
                        };
                        got.locals.push(PoolIndex::new(f));
                        k.locals.push(f);
                        k.flags |= ff::HAS_LOCALS;
                    }
                    Val::Field(k) => {
                        let Ok(got) = b.pool.field_mut(PoolIndex::new(i)) else {
                            return fail("field-mut", format!("definition {i} is a field but cannot be edited"));
                        };
                        got.type_ = PoolIndex::new(5);
                        k.ty = 5;
                    }
                    _ => {
                        ensure!(
                            b.pool.class_mut(PoolIndex::new(i)).is_err()
                                && b.pool.function_mut(PoolIndex::new(i)).is_err()
                                && b.pool.field_mut(PoolIndex::new(i)).is_err(),
                            "wrong-kind-mut",
                            "definition {i} can be edited as a kind it is not"
                        );
                    }
                }
                edits += 1;
            }
            8 => {
                log.push("save+load".into());
                reloads += 1;
                let bytes = save_ok(&b)?;
                b = load_ok(&bytes)?;
                // presence bits are recomputed by saving
                for d in &mut m.defs {
                    *d = d.clone().normalised();
                }
            }
            _ => {
                log.push("look".into());
                check_lookups(&b.pool, &m, s)?;
            }
        }
        if step % 4 == 3 || step + 1 == steps {
            let norm = Bundle {
                defs: m.defs.iter().map(|d| d.clone().normalised()).collect(),
                ..m.clone()
            };
            let mut shown = b.pool.clone();
            normalise_pool(&mut shown);
            diff_pool(&shown, &norm).or_else(|e| fail("history-view", format!("after {log:?}: {e}")))?;
        }
    }
    c.sample(|| format!("{log:?}"));
    c.nontrivial_if(reloads > 0 && edits > 2);
    check_lookups(&b.pool, &m, s)?;
    let m2 = Bundle {
        defs: m.defs.iter().map(|d| d.clone().normalised()).collect(),
        ..m
    };
    diff_bundle(&strict(&save_ok(&b)?)?, &m2)
}

fn normalise_pool(pool: &mut ConstantPool) {
    let all: Vec<(u32, Def)> = pool.definitions().map(|(i, d)| (i.into(), view_def(d).normalised())).collect();
    for (i, d) in all {
        pool.put_definition(PoolIndex::<()>::new(i), build_def(&d));
    }
}

fn check_lookups(pool: &ConstantPool, m: &Bundle, s: &mut Src) -> R {
    // typed accessors answer for exactly the kind stored at an index
    for (i, def) in m.defs.iter().enumerate() {
        let i = i as u32;
        let t = def.val.tag();
        let got = [
            (0, pool.type_(PoolIndex::new(i)).is_ok()),
            (1, pool.class(PoolIndex::new(i)).is_ok()),
            (2, pool.enum_value(PoolIndex::new(i)).is_ok()),
            (3, pool.enum_(PoolIndex::new(i)).is_ok()),
            (5, pool.function(PoolIndex::new(i)).is_ok()),
            (6, pool.parameter(PoolIndex::new(i)).is_ok()),
            (7, pool.local(PoolIndex::new(i)).is_ok()),
            (8, pool.field(PoolIndex::new(i)).is_ok()),
        ];
        for (k, ok) in got {
            ensure!(ok == (k == t), "typed-access", "definition {i} of kind {t}: accessor for kind {k} says {ok}");
        }
        if let Val::EnumValue(v) = def.val {
            ensure_eq!(pool.enum_value(PoolIndex::new(i)).ok(), Some(v), "enum-value");
        }
        let Ok(d) = pool.definition(PoolIndex::<()>::new(i)) else {
            return fail("definition", format!("definition {i} not found"));
        };
        ensure_eq!(u32::from(d.name), def.name, "definition-name");
        let want = if def.name == 0 {
            Some("None".to_owned())
        } else {
            m.names.get(def.name as usize).cloned()
        };
        ensure_eq!(pool.def_name(PoolIndex::<()>::new(i)).ok().map(|s| s.to_string()), want, "def-name");
    }
    let past = m.defs.len() as u32 + s.below(3) as u32;
    ensure!(pool.definition(PoolIndex::<()>::new(past)).is_err(), "past-end", "index {past} past the end resolves");
    let roots: Vec<u32> = pool.roots().map(|(i, _)| i.into()).collect();
    let want: Vec<u32> = (1..m.defs.len() as u32).filter(|i| m.defs[*i as usize].parent == 0).collect();
    ensure_eq!(roots, want, "roots");
    macro_rules! back {
        ($p:expr, $list:expr, $what:literal) => {
            for (i, t) in $list.iter().enumerate() {
                let got = $p.get_index(t).map(|x| u32::from(x) as usize);
                // of a text that a file has twice it is one of the indices
                let same = got.is_some_and(|g| g != i && $list.get(g) == Some(t));
                ensure!(got == Some(i) || same, $what, "{t:?}: got {got:?}, not {i}");
            }
            let miss = "\u{1}not there\u{1}";
            ensure!($p.get_index(miss).is_none(), $what, "an absent string has an index");
        };
    }
    back!(pool.names, m.names, "name-index");
    back!(pool.tweakdb_ids, m.tweaks, "tweak-index");
    back!(pool.resources, m.resources, "resource-index");
    back!(pool.strings, m.strings, "string-index");
    Ok(())
}

// ---------------------------------------------------------------- C10 interning

fn interning(s: &mut Src, c: &mut Ctx) -> R {
    use redscript::bundle::{CName, Strings};
    let cname = s.bool();
    let alphabet: Vec<String> = (0..s.size(2, 8)).map(|_| gen_string(s, 6)).chain(["None".to_owned(), String::new()]).collect();
    let mut alphabet = alphabet;
    for _ in 0..s.len(3) {
        let t = near(s, &alphabet);
        alphabet.push(t);
    }
    let mut names: Strings<CName> = Strings::default();
    let mut strs: Strings<String> = Strings::default();
    let mut model: Vec<String> = vec![];
    // a name table starts with the entry that stands for "None"
    if cname {
        let first = s.pick(&["", "first", "zero"]).to_string();
        names.add(first.as_str().into());
        model.push(first);
    }
    let n = s.size(1, 40);
    let mut hits = 0;
    let mut log = vec![];
    for _ in 0..n {
        let t = if s.chance(1, 6) { gen_string(s, 10) } else { s.pick(&alphabet).clone() };
        let known = model.iter().position(|x| *x == t);
        log.push(t.clone());
        if cname {
            let i = u32::from(names.add(t.as_str().into()));
            if t == "None" {
                ensure_eq!(i, 0, "none-name");
                ensure_eq!(names.get_ref(PoolIndex::new(0)).ok(), Some("None"), "none-name");
                continue;
            }
            ensure_eq!(i as usize, known.unwrap_or(model.len()), "intern");
            if known.is_none() {
                model.push(t);
            } else {
                hits += 1;
            }
            for (k, x) in model.iter().enumerate().skip(1) {
                ensure_eq!(names.get_ref(PoolIndex::new(k as u32)).ok(), Some(x.as_str()), "stable");
                ensure_eq!(names.get(PoolIndex::new(k as u32)).ok().map(|r| r.to_string()), Some(x.clone()), "stable");
                ensure_eq!(names.get_index(x).map(u32::from), Some(k as u32), "lookup");
            }
            ensure!(names.get_ref(PoolIndex::new(model.len() as u32)).is_err(), "bounds", "index past the end resolves");
        } else {
            let i = u32::from(strs.add(t.as_str().into()));
            ensure_eq!(i as usize, known.unwrap_or(model.len()), "intern");
            if known.is_none() {
                model.push(t);
            } else {
                hits += 1;
            }
            for (k, x) in model.iter().enumerate() {
                ensure_eq!(strs.get_ref(PoolIndex::new(k as u32)).ok(), Some(x.as_str()), "stable");
                ensure_eq!(strs.get(PoolIndex::new(k as u32)).ok().map(|r| r.to_string()), Some(x.clone()), "stable");
                ensure_eq!(strs.get_index(x).map(u32::from), Some(k as u32), "lookup");
            }
            ensure!(strs.get_ref(PoolIndex::new(model.len() as u32)).is_err(), "bounds", "index past the end resolves");
        }
    }
    c.sample(|| format!("names={cname} {log:?}"));
    c.nontrivial_if(hits > 0 && model.len() > 2);
    Ok(())
}

/// Interning continues correctly in a pool that came from a file.
fn interning_loaded(s: &mut Src, c: &mut Ctx) -> R {
    let mut m = gen_bundle(s, 0, true);
    m.names.retain(|x| x != "None");
    m.names.insert(0, "\u{1}zero".into());
    // other writers may store a text more than once
    if s.chance(1, 3) {
        for list in [&mut m.names, &mut m.tweaks, &mut m.resources, &mut m.strings] {
            for _ in 0..s.size(0, 3) {
                if list.len() > 1 {
                    let t = list[1 + s.idx(list.len() - 1)].clone();
                    list.insert(1 + s.idx(list.len()), t);
                }
            }
        }
    }
    let mut answers: HashMap<(u64, String), u32> = HashMap::new();
    let mut b = load_ok(&encode_bundle(&m, &Layout::default()))?;
    let n = s.size(1, 20);
    let mut hits = 0;
    for _ in 0..n {
        let mut all: Vec<String> = m.names.clone();
        all.extend(m.tweaks.clone());
        all.extend(m.resources.clone());
        all.extend(m.strings.clone());
        all.push("None".into());
        let t = if s.bool() { gen_string(s, 6) } else { s.pick(&all).clone() };
        let k = s.below(4);
        let (got, list) = match k {
            0 => (u32::from(b.pool.names.add(t.as_str().into())), &mut m.names),
            1 => (u32::from(b.pool.tweakdb_ids.add(t.as_str().into())), &mut m.tweaks),
            2 => (u32::from(b.pool.resources.add(t.as_str().into())), &mut m.resources),
            _ => (u32::from(b.pool.strings.add(t.as_str().into())), &mut m.strings),
        };
        if k == 0 && t == "None" {
            ensure_eq!(got, 0, "none-name");
            continue;
        }
        if list.contains(&t) {
            hits += 1;
            ensure_eq!(list.get(got as usize), Some(&t), "intern", "{t:?} in table {k}: index {got}");
        } else {
            ensure_eq!(got as usize, list.len(), "intern", "{t:?} in table {k}");
            list.push(t.clone());
        }
        // of several indices of one text it is always the same
        let first = *answers.entry((k, t.clone())).or_insert(got);
        ensure_eq!(got, first, "intern", "{t:?} in table {k}");
    }
    c.sample(|| format!("{:?} {:?} {:?} {:?}", m.names, m.tweaks, m.resources, m.strings));
    c.nontrivial_if(hits > 0);
    diff_pool(&b.pool, &m).or_else(|e| fail("view", e))?;
    check_lookups(&b.pool, &m, s)?;
    diff_bundle(&strict(&save_ok(&b)?)?, &m)
}

/// The position kept beside a stream is the number of bytes that went through it, whatever the
/// device did.
fn offsets(s: &mut Src, c: &mut Ctx) -> R {
    use redscript::io::StreamOffset;
    let start = s.bits(12);
    let mut dev = Dev::new(
        vec![7u8; start as usize + s.size(0, 400)],
        Faults {
            chunk: s.size(1, 40),
            interrupt_every: if s.bool() { s.size(2, 9) } else { 0 },
            fail_after: if s.chance(1, 3) { Some(s.below(300)) } else { None },
            fail_seek: None,
            zero: s.bool(),
            once: s.bool(),
        },
    );
    let seekable = s.bool();
    let base = if seekable {
        let _ = dev.inner.seek(SeekFrom::Start(start));
        start as usize
    } else {
        0
    };
    let mut so = if seekable {
        StreamOffset::new_seekable(dev).or_else(|e| fail("position", e.to_string()))?
    } else {
        StreamOffset::new_zeroed(dev)
    };
    let mut moved = base;
    ensure_eq!(so.offset(), moved, "start");
    let mut log = vec![];
    for _ in 0..s.size(1, 30) {
        let n = s.len(60);
        let r = if s.bool() { so.read(&mut vec![0; n]) } else { so.write(&vec![1; n]) };
        log.push(format!("{n}:{}", r.as_ref().map_or(-1, |k| *k as i64)));
        moved += r.unwrap_or(0);
        ensure_eq!(so.offset(), moved, "offset", "{log:?}");
    }
    c.nontrivial_if(moved > base);
    c.sample(|| log.join(" "));
    Ok(())
}

/// A table with very many strings, some of them long, kept and found across a reload.
fn interning_many(s: &mut Src, c: &mut Ctx) -> R {
    let n = edge(s, 70_000).max(2);
    let stem = gen_string(s, 4);
    let long = edge(s, 70_000);
    let mut texts: Vec<String> = (0..n).map(|i| format!("{stem}{i}")).collect();
    let last = texts.len() - 1;
    texts[last] = "z".repeat(long.max(1)) + "!";
    let mut bundle = load_ok(&encode_bundle(
        &Bundle {
            names: vec!["\u{1}zero".into()],
            ..gen_bundle(s, 0, true)
        },
        &Layout::default(),
    ))?;
    let table = s.below(4);
    let mut first = None;
    for round in 0..2 {
        for (i, t) in texts.iter().enumerate() {
            let got = match table {
                0 => u32::from(bundle.pool.names.add(t.as_str().into())),
                1 => bundle.pool.tweakdb_ids.add(t.as_str().into()).into(),
                2 => bundle.pool.resources.add(t.as_str().into()).into(),
                _ => bundle.pool.strings.add(t.as_str().into()).into(),
            };
            let base = *first.get_or_insert(got);
            ensure_eq!(got, base + i as u32, "many", "string {i} of {n} in round {round}, table {table}");
        }
        for (i, t) in texts.iter().enumerate() {
            let at = first.unwrap_or(0) + i as u32;
            let (text, back) = match table {
                0 => (bundle.pool.names.get_ref(PoolIndex::new(at)).ok(), bundle.pool.names.get_index(t).map(u32::from)),
                1 => (bundle.pool.tweakdb_ids.get_ref(PoolIndex::new(at)).ok(), bundle.pool.tweakdb_ids.get_index(t).map(u32::from)),
                2 => (bundle.pool.resources.get_ref(PoolIndex::new(at)).ok(), bundle.pool.resources.get_index(t).map(u32::from)),
                _ => (bundle.pool.strings.get_ref(PoolIndex::new(at)).ok(), bundle.pool.strings.get_index(t).map(u32::from)),
            };
            if i < 3 || i + 3 >= n || i % 4099 == 0 {
                let own = match table {
                    0 => bundle.pool.names.get(PoolIndex::new(at)).ok(),
                    1 => bundle.pool.tweakdb_ids.get(PoolIndex::new(at)).ok(),
                    2 => bundle.pool.resources.get(PoolIndex::new(at)).ok(),
                    _ => bundle.pool.strings.get(PoolIndex::new(at)).ok(),
                };
                ensure!(own.as_deref() == text, "many-get", "index {at} of table {table} has two texts");
            }
            ensure!(text == Some(t.as_str()), "many-text", "index {at} of table {table} has changed its text");
            ensure_eq!(back, Some(at), "many-lookup", "table {table}");
        }
        bundle = load_ok(&save_ok(&bundle)?)?;
    }
    c.nontrivial_if(true);
    c.sample(|| format!("{n} strings, one of {long} bytes"));
    Ok(())
}

// ---------------------------------------------------------------- C13 flags

fn flags(s: &mut Src, c: &mut Ctx) -> R {
    c.nontrivial_if(true);
    let w = if s.bool() { 1u64 << s.below(32) } else { s.bits(32) };
    c.sample(|| format!("{w:#034b}"));
    let f = d::FunctionFlags::from_bytes((w as u32).to_le_bytes());
    let bits: &[(u32, bool, &str)] = &[
        (0, f.is_static(), "static"),
        (1, f.is_exec(), "exec"),
        (2, f.is_timer(), "timer"),
        (3, f.is_final(), "final"),
        (4, f.is_native(), "native"),
        (5, f.unk1(), "unk1"),
        (6, f.is_callback(), "callback"),
        (7, f.is_operator(), "operator"),
        (8, f.has_return_value(), "return value"),
        (9, f.has_base_method(), "base method"),
        (10, f.has_parameters(), "parameters"),
        (11, f.has_locals(), "locals"),
        (12, f.has_body(), "body"),
        (13, f.is_cast(), "cast"),
        (14, f.is_implicit_cast(), "implicit cast"),
        (18, f.is_thread_safe(), "thread safe"),
        (19, f.is_const(), "const"),
        (20, f.unk2(), "unk2"),
        (21, f.unk3(), "unk3"),
        (22, f.is_quest(), "quest"),
        (23, f.unk4(), "unk4"),
        (24, f.unk5(), "unk5"),
        (25, f.unk6(), "unk6"),
    ];
    for (b, got, n) in bits {
        ensure!(*got == ((w >> b) & 1 == 1), "function-flag", "function flag {n} does not match bit {b} of {w:#x}");
    }
    ensure_eq!(u32::from_le_bytes(f.into_bytes()), w as u32, "function-flag-bytes");
    let k = d::ClassFlags::from_bytes((w as u16).to_le_bytes());
    let bits: &[(u32, bool, &str)] = &[
        (0, k.is_native(), "native"),
        (1, k.is_abstract(), "abstract"),
        (2, k.is_final(), "final"),
        (3, k.is_struct(), "struct"),
        (4, k.has_functions(), "functions"),
        (5, k.has_fields(), "fields"),
        (6, k.is_import_only(), "import only"),
        (7, k.is_test_only(), "test only"),
        (8, k.has_overrides(), "overrides"),
    ];
    for (b, got, n) in bits {
        ensure!(*got == ((w >> b) & 1 == 1), "class-flag", "class flag {n} does not match bit {b} of {w:#x}");
    }
    ensure_eq!(u16::from_le_bytes(k.into_bytes()), w as u16, "class-flag-bytes");
    let k = d::FieldFlags::from_bytes((w as u16).to_le_bytes());
    let bits: &[(u32, bool, &str)] = &[
        (0, k.is_native(), "native"),
        (1, k.is_editable(), "editable"),
        (2, k.is_inline(), "inline"),
        (3, k.is_const(), "const"),
        (4, k.is_replicated(), "replicated"),
        (5, k.has_hint(), "hint"),
        (6, k.is_instance_editable(), "instance editable"),
        (7, k.has_default(), "default"),
        (8, k.is_persistent(), "persistent"),
        (9, k.is_test_only(), "test only"),
        (10, k.is_browsable(), "browsable"),
    ];
    for (b, got, n) in bits {
        ensure!(*got == ((w >> b) & 1 == 1), "field-flag", "field flag {n} does not match bit {b} of {w:#x}");
    }
    ensure_eq!(u16::from_le_bytes(k.into_bytes()), w as u16, "field-flag-bytes");
    let k = d::ParameterFlags::from_bytes([w as u8]);
    let bits: &[(u32, bool, &str)] = &[
        (0, k.is_optional(), "optional"),
        (1, k.is_out(), "out"),
        (2, k.is_short_circuit(), "short circuit"),
        (3, k.is_const(), "const"),
    ];
    for (b, got, n) in bits {
        ensure!(*got == ((w >> b) & 1 == 1), "parameter-flag", "parameter flag {n} does not match bit {b} of {w:#x}");
    }
    let k = d::LocalFlags::from_bytes([w as u8]);
    ensure!(k.is_const() == (w & 1 == 1), "local-flag", "local const flag does not match bit 0 of {w:#x}");
    Ok(())
}

macro_rules! setters {
    ($s:expr, $w:expr, $v:expr, $t:ty, $int:ty, $bytes:expr, [$(($bit:expr, $with:ident, $set:ident)),* $(,)?]) => {{
        $(
            let f = <$t>::from_bytes($bytes).$with($v);
            let got = f.into_bytes();
            let mut want = $w as $int;
            if $v { want |= 1 << $bit } else { want &= !(1 << $bit) }
            ensure_eq!(got, want.to_le_bytes(), "setter", "{} bit {} of {:#x}", stringify!($with), $bit, $w);
            let mut f = <$t>::from_bytes($bytes);
            f.$set($v);
            ensure_eq!(f.into_bytes(), want.to_le_bytes(), "setter", "{} bit {} of {:#x}", stringify!($set), $bit, $w);
        )*
    }};
}

/// Setting one flag changes its own bit and nothing else.
fn flag_setters(s: &mut Src, c: &mut Ctx) -> R {
    c.nontrivial_if(true);
    let w = s.bits(32);
    let v = s.bool();
    c.sample(|| format!("{w:#034b} := {v}"));
    let w = w as u32;
    setters!(s, w, v, d::FunctionFlags, u32, w.to_le_bytes(), [
        (0, with_is_static, set_is_static), (1, with_is_exec, set_is_exec), (2, with_is_timer, set_is_timer),
        (3, with_is_final, set_is_final), (4, with_is_native, set_is_native), (6, with_is_callback, set_is_callback),
        (7, with_is_operator, set_is_operator), (8, with_has_return_value, set_has_return_value),
        (9, with_has_base_method, set_has_base_method), (10, with_has_parameters, set_has_parameters),
        (11, with_has_locals, set_has_locals), (12, with_has_body, set_has_body), (13, with_is_cast, set_is_cast),
        (14, with_is_implicit_cast, set_is_implicit_cast), (18, with_is_thread_safe, set_is_thread_safe),
        (19, with_is_const, set_is_const), (22, with_is_quest, set_is_quest),
    ]);
    setters!(s, w as u16, v, d::ClassFlags, u16, (w as u16).to_le_bytes(), [
        (0, with_is_native, set_is_native), (1, with_is_abstract, set_is_abstract), (2, with_is_final, set_is_final),
        (3, with_is_struct, set_is_struct), (4, with_has_functions, set_has_functions), (5, with_has_fields, set_has_fields),
        (6, with_is_import_only, set_is_import_only), (7, with_is_test_only, set_is_test_only),
        (8, with_has_overrides, set_has_overrides),
    ]);
    setters!(s, w as u16, v, d::FieldFlags, u16, (w as u16).to_le_bytes(), [
        (0, with_is_native, set_is_native), (1, with_is_editable, set_is_editable), (2, with_is_inline, set_is_inline),
        (3, with_is_const, set_is_const), (4, with_is_replicated, set_is_replicated), (5, with_has_hint, set_has_hint),
        (6, with_is_instance_editable, set_is_instance_editable), (7, with_has_default, set_has_default),
        (8, with_is_persistent, set_is_persistent), (9, with_is_test_only, set_is_test_only),
        (10, with_is_browsable, set_is_browsable),
    ]);
    setters!(s, w as u8, v, d::ParameterFlags, u8, (w as u8).to_le_bytes(), [
        (0, with_is_optional, set_is_optional), (1, with_is_out, set_is_out),
        (2, with_is_short_circuit, set_is_short_circuit), (3, with_is_const, set_is_const),
    ]);
    Ok(())
}

fn timestamps(s: &mut Src, c: &mut Ctx) -> R {
    c.nontrivial_if(true);
    let w = s.bits(64);
    let t = Timestamp::from_bytes(w.to_le_bytes());
    let part = |lo: u32, n: u32| (w >> lo) & ((1 << n) - 1);
    c.sample(|| format!("{w:#x}"));
    ensure_eq!(u64::from(t.day()), part(10, 5), "day");
    ensure_eq!(u64::from(t.month()), part(15, 5), "month");
    ensure_eq!(u64::from(t.year()), part(20, 12), "year");
    ensure_eq!(u64::from(t.millis()), part(32, 10), "millis");
    ensure_eq!(u64::from(t.seconds()), part(42, 6), "seconds");
    ensure_eq!(u64::from(t.minutes()), part(48, 6), "minutes");
    ensure_eq!(u64::from(t.hours()), part(54, 10), "hours");
    let want = format!(
        "{:02}/{:02}/{} {:02}:{:02}:{:02}:{:03}",
        part(10, 5) + 1,
        part(15, 5) + 1,
        part(20, 12),
        part(54, 10),
        part(48, 6),
        part(42, 6),
        part(32, 10)
    );
    ensure_eq!(t.to_string(), want, "display");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "random bundle models (all definition kinds, flags, opcodes, shared and repeated strings, foreign layouts), serialised by an independent writer, loaded, compared, saved and read back by an independent strict reader; non-trivial = at least one definition and one name",
            assumptions: &["the independent reader and writer in harness/core/src/model.rs describe the format", "non-native functions carry a source position; cast/unk2 data only with their flag"],
            subs: vec![
                Sub { name: "roundtrip", quick: 60_000, thorough: 3_000_000, run: roundtrip },
                Sub { name: "large", quick: 300, thorough: 20_000, run: roundtrip_large },
                Sub { name: "wide", quick: 500, thorough: 20_000, run: roundtrip_wide },
                Sub { name: "predef", quick: 600, thorough: 20_000, run: roundtrip_predef },
                Sub { name: "giant", quick: 3, thorough: 60, run: roundtrip_giant },
                Sub { name: "presence", quick: 20_000, thorough: 1_000_000, run: presence_bits },
            ],
        },
        Prop {
            id: "C02",
            level: "exploration",
            rule: "random bundles edited in memory and saved; the bytes are parsed by a strict reader that recomputes every checksum, offset, count and size and the tiling of definition bodies; non-trivial = at least one edit and one definition",
            assumptions: &["CRC-32 (IEEE) of each table and of the header with the hash word 0xDEADBEEF"],
            subs: vec![
                Sub { name: "edited", quick: 60_000, thorough: 3_000_000, run: format_after_edit },
                Sub { name: "roundtrip", quick: 20_000, thorough: 500_000, run: roundtrip },
                Sub { name: "large", quick: 200, thorough: 10_000, run: roundtrip_large },
                Sub { name: "wide", quick: 300, thorough: 10_000, run: roundtrip_wide },
                Sub { name: "giant", quick: 3, thorough: 60, run: roundtrip_giant },
                Sub { name: "storable", quick: 400, thorough: 20_000, run: storable },
            ],
        },
        Prop {
            id: "C03",
            level: "exploration",
            rule: "random histories of add/put/swap/rename/reserve/stub/edit/intern/save+load on a pool, mirrored on a reference model and compared through every accessor; non-trivial = at least one reload and three edits",
            assumptions: &["index 0 of the name table stands for None"],
            subs: vec![Sub { name: "history", quick: 30_000, thorough: 2_000_000, run: history }, Sub { name: "wide", quick: 120, thorough: 10_000, run: history_wide }],
        },
        Prop {
            id: "C04",
            level: "exploration",
            rule: "random bundles; save twice, from two loads, after a reload, from two input layouts and over stale bytes: all byte-identical; non-trivial = at least one definition and one name",
            assumptions: &[],
            subs: vec![Sub { name: "fixpoint", quick: 30_000, thorough: 1_500_000, run: fixpoint }, Sub { name: "wide", quick: 200, thorough: 10_000, run: roundtrip_wide }],
        },
        Prop {
            id: "C05",
            level: "fault_enumeration",
            rule: "random bundles read and written through a device with short transfers, interruptions, a fault after a random byte or seek, and all or 200 truncation points; non-trivial = bundle with a definition",
            assumptions: &["the device follows the std::io contracts"],
            subs: vec![
                Sub { name: "partial", quick: 15_000, thorough: 600_000, run: io_partial },
                Sub { name: "faults", quick: 20_000, thorough: 800_000, run: io_fail },
                Sub { name: "truncation", quick: 2_000, thorough: 80_000, run: truncation },
                Sub { name: "offsets", quick: 40_000, thorough: 1_000_000, run: offsets },
            ],
        },
        Prop {
            id: "C06",
            level: "exploration",
            rule: "valid bundles with 1-4 random byte/word/splice mutations, and systematic extreme values in every header word, definition header byte and body byte; non-trivial = at least a full header is left (mutated) / body of more than 4 bytes (systematic)",
            assumptions: &["address space limits of the sandbox; release-mode arithmetic"],
            subs: vec![
                Sub { name: "mutations", quick: 150_000, thorough: 6_000_000, run: malformed },
                Sub { name: "fields", quick: 400, thorough: 20_000, run: malformed_fields },
            ],
        },
        Prop {
            id: "C10",
            level: "exploration",
            rule: "random sequences of interning into fresh and loaded string tables against a list model; non-trivial = at least one repeated string",
            assumptions: &["name tables start with an entry for index 0, as all files do"],
            subs: vec![
                Sub { name: "fresh", quick: 40_000, thorough: 2_000_000, run: interning },
                Sub { name: "loaded", quick: 20_000, thorough: 1_000_000, run: interning_loaded },
                Sub { name: "many", quick: 200, thorough: 10_000, run: interning_many },
            ],
        },
        Prop {
            id: "C13",
            level: "exploration",
            rule: "random and single-bit words decoded as flag sets and timestamps, compared bit by bit with the reference table; every case is non-trivial",
            assumptions: &["bit positions as in the game's format"],
            subs: vec![
                Sub { name: "flags", quick: 40_000, thorough: 2_000_000, run: flags },
                Sub { name: "setters", quick: 20_000, thorough: 1_000_000, run: flag_setters },
                Sub { name: "timestamps", quick: 20_000, thorough: 1_000_000, run: timestamps },
            ],
        },
    ]
}

//! C07–C09, C11, C12: bytecode, label resolution, code navigation, remapping, type names.

use std::io::Cursor;

use hashbrown::HashMap;
use pbt::{ensure, ensure_eq, fail, Ctx, Prop, Src, Sub, R};
use redscript::ast::{Constant, Expr, Pos, Seq, SourceAst, Span, TypeName};
use redscript::bundle::{CName, ConstantPool, PoolIndex};
use redscript::bytecode::{Code, Instr, Label, Location, Offset};
use redscript::decode::Decode;
use redscript::definition as d;
use redscript::encode::Encode;
use redscript::mapper::{MultiMapper, PoolMapper};

use crate::gen::*;
use crate::model::*;
use crate::ops::{self, *};

fn show(i: &Ins) -> String {
    format!("{}{:?}{}", i.name(), i.args, i.text)
}

/// One instruction against the reference table: bytes, size, decoding, consumption.
fn single(s: &mut Src, c: &mut Ctx) -> R {
    let mut op = s.case_index(104) as u8;
    if op == OP_TARGET {
        op = 0;
    }
    let i = gen_ins_op(s, op);
    let instr = to_instr(&i);
    let mut want = vec![];
    encode_ins(&i, &mut want);
    let mut got = vec![];
    if let Err(e) = instr.encode(&mut got) {
        return fail("encode-err", format!("{}: {e}", show(&i)));
    }
    ensure_eq!(got, want, "encoding", "{}", show(&i));
    ensure_eq!(u32::from(instr.size()), runtime_size(&i), "size", "{}", show(&i));
    let tail = s.size(0, 3);
    let mut bytes = want.clone();
    bytes.extend((0..tail).map(|k| 0xA0 + k as u8));
    let mut cur = Cursor::new(&bytes[..]);
    let back = Instr::<Offset>::decode(&mut cur).or_else(|e| fail("decode-err", format!("{}: {e}", show(&i))))?;
    ensure_eq!(cur.position() as usize, want.len(), "consumed", "{}", show(&i));
    ensure_eq!(from_instr(&back), i, "decoding");
    ensure_eq!(u32::from(back.size()), runtime_size(&i), "size", "{}", show(&i));
    c.nontrivial_if(!i.args.is_empty());
    c.sample(|| show(&i));
    Ok(())
}

fn sequence(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.len(60);
    let code: Vec<Ins> = (0..n).map(|_| gen_ins(s)).collect();
    let mut want = vec![];
    let size: u32 = code.iter().map(runtime_size).sum();
    want.extend(size.to_le_bytes());
    for i in &code {
        encode_ins(i, &mut want);
    }
    let real = Code::new(code.iter().map(to_instr).collect());
    ensure_eq!(real.len(), code.len(), "len");
    ensure_eq!(real.is_empty(), code.is_empty(), "len");
    let mut got = vec![];
    real.encode(&mut got).or_else(|e| fail("encode-err", e.to_string()))?;
    ensure_eq!(got, want, "code bytes");
    let tail = s.size(0, 9);
    let mut bytes = want.clone();
    bytes.extend(std::iter::repeat(0x16).take(tail));
    let mut cur = Cursor::new(&bytes[..]);
    let back = Code::<Offset>::decode(&mut cur).or_else(|e| fail("decode-err", e.to_string()))?;
    ensure_eq!(cur.position() as usize, want.len(), "consumed");
    let view: Vec<Ins> = back.as_ref().iter().map(from_instr).collect();
    ensure_eq!(view, code, "code");
    // positions reported by iteration are running sums of sizes
    let mut at = 0u32;
    let mut k = 0;
    for (loc, i) in back.iter() {
        ensure_eq!(u32::from(loc.value), at & 0xffff, "iter position");
        ensure_eq!(from_instr(&i), code[k], "iter instr");
        at += runtime_size(&code[k]);
        k += 1;
    }
    ensure_eq!(k, code.len(), "iter length");
    c.nontrivial_if(code.len() >= 3);
    c.sample(|| code.iter().map(show).collect::<Vec<_>>().join(" "));
    Ok(())
}

fn unknown_opcode(s: &mut Src, c: &mut Ctx) -> R {
    let op = 104 + s.case_index(152) as u8;
    let mut bytes = vec![op];
    bytes.extend((0..s.size(0, 30)).map(|_| s.bits(8) as u8).collect::<Vec<_>>());
    let r = Instr::<Offset>::decode(&mut Cursor::new(&bytes[..]));
    ensure!(r.is_err(), "unknown-opcode", "opcode {op} decodes as {:?}", r);
    c.nontrivial_if(true);
    c.sample(|| format!("{bytes:02x?}"));
    Ok(())
}

// ---------------------------------------------------------------- labels

/// Symbolic instruction: offsets replaced by label numbers.
#[derive(Debug, Clone)]
struct Sym {
    ins: Ins,
    labels: Vec<usize>,
}

fn offsets_of(op: u8) -> Vec<usize> {
    SPEC[op as usize]
        .1
        .iter()
        .enumerate()
        .filter(|(_, k)| matches!(k, K::Of(_)))
        .map(|(j, _)| j)
        .collect()
}

fn lab(i: &Sym) -> Instr<Label> {
    let l = |k: usize| Label { index: i.labels[k] };
    let a = &i.ins.args;
    match i.ins.op {
        28 => Instr::Switch(PoolIndex::new(a[0] as u32), l(0)),
        29 => Instr::SwitchLabel(l(0), l(1)),
        31 => Instr::Jump(l(0)),
        32 => Instr::JumpIfFalse(l(0)),
        33 => Instr::Skip(l(0)),
        34 => Instr::Conditional(l(0), l(1)),
        36 => Instr::InvokeStatic(l(0), a[1] as u16, PoolIndex::new(a[2] as u32), a[3] as u16),
        37 => Instr::InvokeVirtual(l(0), a[1] as u16, PoolIndex::new(a[2] as u32), a[3] as u16),
        41 => Instr::Context(l(0)),
        // no displacement: same operands under a label type
        _ => relabel(to_instr(&i.ins)),
    }
}

macro_rules! relabel {
    ($($n:ident $(($($v:ident),*))?),* $(,)?) => {
        fn relabel(i: Instr<Offset>) -> Instr<Label> {
            match i {
                $( Instr::$n $(($($v),*))? => Instr::$n $(($($v),*))?, )*
                _ => unreachable!("instruction with a displacement"),
            }
        }
    };
}
relabel! {
    Nop, Null, I32One, I32Zero, I8Const(a), I16Const(a), I32Const(a), I64Const(a), U8Const(a), U16Const(a),
    U32Const(a), U64Const(a), F32Const(a), F64Const(a), NameConst(a), EnumConst(a, b), StringConst(a),
    TweakDbIdConst(a), ResourceConst(a), TrueConst, FalseConst, Breakpoint(a), Assign, Local(a), Param(a),
    ObjectField(a), ExternalVar, SwitchDefault, Construct(a, b), ParamEnd, Return, StructField(a), Equals(a),
    RefStringEqualsString(a), StringEqualsRefString(a), NotEquals(a), RefStringNotEqualsString(a),
    StringNotEqualsRefString(a), New(a), Delete, This, StartProfiling(a), ArrayClear(a), ArraySize(a),
    ArrayResize(a), ArrayFindFirst(a), ArrayFindFirstFast(a), ArrayFindLast(a), ArrayFindLastFast(a),
    ArrayContains(a), ArrayContainsFast(a), ArrayCount(a), ArrayCountFast(a), ArrayPush(a), ArrayPop(a),
    ArrayInsert(a), ArrayRemove(a), ArrayRemoveFast(a), ArrayGrow(a), ArrayErase(a), ArrayEraseFast(a),
    ArrayLast(a), ArrayElement(a), ArraySort(a), ArraySortByPredicate(a), StaticArraySize(a),
    StaticArrayFindFirst(a), StaticArrayFindFirstFast(a), StaticArrayFindLast(a), StaticArrayFindLastFast(a),
    StaticArrayContains(a), StaticArrayContainsFast(a), StaticArrayCount(a), StaticArrayCountFast(a),
    StaticArrayLast(a), StaticArrayElement(a), RefToBool, WeakRefToBool, EnumToI32(a, b), I32ToEnum(a, b),
    DynamicCast(a, b), ToString(a), ToVariant(a), FromVariant(a), VariantIsDefined, VariantIsRef,
    VariantIsArray, VariantTypeName, VariantToString, WeakRefToRef, RefToWeakRef, WeakRefNull, AsRef(a), Deref(a),
}

const JUMPY: [u8; 9] = [28, 29, 31, 32, 33, 34, 36, 37, 41];

/// Labels placed between instructions; resolving, writing, reading and seeking end at the label.
fn labels(s: &mut Src, c: &mut Ctx) -> R {
    // one case in four is long, up to what 16-bit positions can address
    let long = s.chance(1, 4);
    let n = if long { s.size(30, 400) } else { s.size(1, 30) };
    let n_labels = s.size(1, 8);
    let mut code: Vec<Sym> = vec![];
    let mut total = 0u32;
    for _ in 0..n {
        let op = if s.chance(1, 2) {
            *s.pick(&JUMPY)
        } else if long {
            // larger instructions reach far positions sooner
            *s.pick(&[21u8, 15, 36, 7, 0])
        } else {
            let o = s.below(104) as u8;
            if o == OP_TARGET {
                0
            } else {
                o
            }
        };
        let ins = if long && s.chance(1, 12) {
            let len = s.size(0, 4000);
            Ins {
                op: OP_PROFILE,
                args: vec![0],
                text: "p".repeat(len),
            }
        } else {
            gen_ins_op(s, op)
        };
        let op = ins.op;
        let z = runtime_size(&ins);
        if total + z > 65_000 {
            break;
        }
        total += z;
        let labels = offsets_of(op).iter().map(|_| s.idx(n_labels)).collect();
        code.push(Sym { ins, labels });
    }
    let mut pos = vec![0u32];
    for i in &code {
        pos.push(pos.last().unwrap() + runtime_size(&i.ins));
    }
    // label -> index of the instruction it stands before (or the end)
    let target_idx: Vec<usize> = (0..n_labels).map(|_| s.idx(code.len() + 1)).collect();
    let targets: Vec<Location> = target_idx.iter().map(|i| Location::new(pos[*i] as u16)).collect();
    // displacements beyond 16 bits wrap around, as the positions they lead to do
    let targets = targets;
    let mut far = 0;
    let mut resolved = vec![];
    for (k, i) in code.iter().enumerate() {
        let at = Location::new(pos[k] as u16);
        let r = lab(i).resolve_labels(at, &targets);
        ensure_eq!(u32::from(r.size()), runtime_size(&i.ins), "size");
        let mut want = i.ins.clone();
        for (q, j) in offsets_of(i.ins.op).iter().enumerate() {
            let rel = i64::from(pos[target_idx[i.labels[q]]]) - i64::from(pos[k]);
            want.args[*j] = off_raw(rel as i16);
            if rel.abs() > 8_000 {
                far += 1;
            }
        }
        ensure_eq!(from_instr(&r), want, "resolved", "at {}", pos[k]);
        resolved.push(r);
    }
    let mut bytes = vec![];
    Code::new(resolved)
        .encode(&mut bytes)
        .or_else(|e| fail("encode-err", e.to_string()))?;
    let back = Code::<Offset>::decode(&mut Cursor::new(&bytes[..])).or_else(|e| fail("decode-err", e.to_string()))?;
    ensure_eq!(back.len(), code.len(), "length");
    // stored form: displacement relative to the end of its own field in runtime layout
    let mut p = 4;
    for (k, i) in code.iter().enumerate() {
        let stored = decode_ins(&bytes, &mut p).or_else(|e| fail("stored", e))?;
        for (q, j) in offsets_of(i.ins.op).iter().enumerate() {
            let dest = pos[target_idx[i.labels[q]]] as u16;
            ensure_eq!(
                (pos[k] as u16).wrapping_add(stored.args[*j] as u16),
                dest,
                "stored displacement",
                "{} at {}",
                show(&stored),
                pos[k]
            );
        }
    }
    let mut cur = back.cursor();
    let mut jumps = 0;
    for (k, (loc, i)) in back.iter().enumerate() {
        ensure_eq!(u32::from(loc.value), pos[k], "position");
        let v = from_instr(&i);
        for (q, j) in offsets_of(v.op).iter().enumerate() {
            jumps += 1;
            let off = Offset::new(v.args[*j] as i16);
            let dest = target_idx[code[k].labels[q]];
            ensure_eq!(u32::from(off.absolute(loc).value), pos[dest], "absolute");
            cur.seek_abs(loc).or_else(|e| fail("seek", e.to_string()))?;
            cur.seek_rel(off).or_else(|e| fail("seek", e.to_string()))?;
            ensure_eq!(u32::from(cur.pos().value), pos[dest], "seek position");
            let want = back.as_ref().get(dest).map(from_instr);
            ensure_eq!(cur.peek().as_ref().map(from_instr), want, "jump target");
        }
    }
    if far > 0 {
        c.label("far jumps");
    }
    if pos.last().unwrap() > &32_768 {
        c.label("code beyond 32 KiB");
    }
    c.nontrivial_if(jumps > 0);
    c.sample(|| format!("{} instructions, labels before {:?}: {:?}", code.len(), target_idx, &code[..code.len().min(12)]));
    Ok(())
}

// ---------------------------------------------------------------- cursor

fn cursor(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.len(40);
    let mut code: Vec<Ins> = (0..n).map(|_| gen_ins(s)).collect();
    if s.chance(1, 40) && !code.is_empty() {
        // long code: positions up to the top of their 16 bits
        let total = s.size(1000, 65_000) as u32;
        let mut size: u32 = code.iter().map(runtime_size).sum();
        let mut k = 0;
        while size < total {
            let next = code[k].clone();
            size += runtime_size(&next);
            if size > 65_400 {
                break;
            }
            code.push(next);
            k += 1;
        }
        if code.iter().map(runtime_size).sum::<u32>() > 60_000 {
            c.label("code of 60 KB");
        }
    }
    let real = Code::new(code.iter().map(to_instr).collect::<Vec<_>>());
    let mut pos = vec![0u32];
    for i in &code {
        pos.push(pos.last().unwrap() + runtime_size(i));
    }
    let mut at = 0usize;
    let mut cur = real.cursor();
    let steps = s.size(1, 40);
    let mut log = vec![];
    let (mut bad, mut ok) = (0, 0);
    for _ in 0..steps {
        match s.weighted(&[4, 3, 2, 3, 3, 3]) {
            0 => {
                log.push("pop".to_owned());
                let got = cur.pop();
                match code.get(at) {
                    Some(w) => {
                        let g = got.or_else(|e| fail("pop", format!("pop fails: {e}")))?;
                        ensure_eq!(&from_instr(&g), w, "pop");
                        at += 1;
                    }
                    None => ensure!(got.is_err(), "pop-end", "pop past the end returns {:?}", got),
                }
            }
            1 => {
                log.push("peek".to_owned());
                ensure_eq!(cur.peek().as_ref().map(from_instr), code.get(at).cloned(), "peek");
            }
            2 => {}
            3 | 4 if *pos.last().unwrap() < 30_000 && s.chance(1, 10) => {
                // before the start of the code
                let back = pos[at] + 1 + s.below(2_000) as u32;
                log.push(format!("seek_rel -{back} from {}", pos[at]));
                ensure!(cur.seek_rel(Offset::new(-(back as i32) as i16)).is_err(), "seek-before", "seeking by -{back} from {} succeeds", pos[at]);
                bad += 1;
            }
            3 | 4 => {
                let valid = s.chance(3, 4);
                let to = if valid {
                    pos[s.idx(pos.len())]
                } else {
                    s.below(u64::from(*pos.last().unwrap()) + 20) as u32
                };
                // relative seeks reach 32 KB either way
                let rel = s.bool() && i16::try_from(i64::from(to) - i64::from(pos[at])).is_ok();
                log.push(format!("seek{} {to}", if rel { "_rel" } else { "" }));
                let r = if rel {
                    cur.seek_rel(Offset::new((to as i64 - i64::from(pos[at])) as i16))
                } else {
                    cur.seek_abs(Location::new(to as u16))
                };
                match pos.iter().position(|p| *p == to) {
                    Some(k) => {
                        if let Err(e) = r {
                            return fail("seek", format!("seek to the instruction at {to} fails: {e}"));
                        }
                        at = k;
                        ok += 1;
                    }
                    None => {
                        ensure!(r.is_err(), "seek-invalid", "seek to {to}, inside an instruction, succeeds");
                        bad += 1;
                    }
                }
            }
            _ => {
                let (mut a, mut b) = (s.idx(pos.len()), s.idx(pos.len()));
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                log.push(format!("range {} {}", pos[a], pos[b]));
                let r = cur
                    .range(Location::new(pos[a] as u16), Location::new(pos[b] as u16))
                    .or_else(|e| fail("range", e.to_string()))?;
                let got: Vec<(u32, Ins)> = r.map(|(l, i)| (u32::from(l.value), from_instr(&i))).collect();
                let want: Vec<(u32, Ins)> = (a..b).map(|k| (pos[k], code[k].clone())).collect();
                ensure_eq!(got, want, "range");
                if s.chance(1, 3) {
                    let x = s.below(u64::from(*pos.last().unwrap()) + 9) as u32;
                    if !pos.contains(&x) {
                        ensure!(
                            cur.range(Location::ZERO, Location::new(x as u16)).is_err(),
                            "range-invalid",
                            "range ending inside an instruction at {x} succeeds"
                        );
                    }
                }
            }
        }
        ensure_eq!(u32::from(cur.pos().value), pos[at], "pos", "after {:?}", log);
    }
    ensure_eq!(cur.peek().as_ref().map(from_instr), code.get(at).cloned(), "peek");
    if bad > 0 {
        c.label("invalid seeks");
    }
    c.nontrivial_if(ok > 0 && code.len() > 2);
    c.sample(|| format!("{} instructions: {}", code.len(), log.join(", ")));
    Ok(())
}

// ---------------------------------------------------------------- mapper

fn remap(s: &mut Src, c: &mut Ctx) -> R {
    let mut m = gen_bundle(s, 12, true);
    // at times a function with a lot of code, or a great many definitions
    if s.chance(1, 150) {
        let unit = gen_code(s, 12);
        let n = crate::gen::edge(s, 6_000);
        let code = (0..n).filter_map(|k| unit.get(k % unit.len().max(1)).cloned()).collect();
        if let Some(d) = m.defs.iter_mut().find(|d| matches!(d.val, Val::Function(_))) {
            if let Val::Function(f) = &mut d.val {
                f.code = code;
            }
            *d = d.clone().normalised();
        }
    } else if s.chance(1, 150) && m.defs.len() > 1 {
        let unit = m.defs[1..].to_vec();
        let n = crate::gen::edge(s, 5_000);
        m.defs.extend((0..n).map(|k| unit[k % unit.len()].clone()));
    }
    let mut pool = load_pool(&m)?;
    // presence flags are brought up to date when a pool is saved, until then they may lag behind
    if s.chance(1, 3) {
        for (i, def) in m.defs.iter_mut().enumerate() {
            match &mut def.val {
                Val::Function(f) => f.flags ^= (s.bits(13) as u32) & 0b1_1111_1000_0000,
                Val::Class(k) => k.flags ^= (s.bits(9) as u16) & 0b1_0011_0000,
                _ => continue,
            }
            pool.put_definition(PoolIndex::<()>::new(i as u32), build_def(def));
        }
    }
    // interesting keys: indices that occur
    let mut class_keys: Vec<u32> = vec![0, 1, 2, 3, 4, 5];
    let mut fun_keys: Vec<u32> = vec![0, 1, 2, 3, 4, 5];
    for def in &m.defs {
        class_keys.push(def.parent);
        fun_keys.push(def.parent);
        match &def.val {
            Val::Class(k) => {
                class_keys.push(k.base);
                fun_keys.extend(&k.functions);
            }
            Val::Function(f) => {
                for i in &f.code {
                    match i.op {
                        35 => class_keys.push(i.args[1] as u32),
                        48 | 90 => class_keys.push(i.args[0] as u32),
                        36 => fun_keys.push(i.args[2] as u32),
                        _ => {
                            for a in &i.args {
                                class_keys.push(*a as u32);
                                fun_keys.push(*a as u32);
                            }
                        }
                    }
                }
                if let Some(b) = f.base_method {
                    fun_keys.push(b);
                }
            }
            _ => {}
        }
    }
    let mk = |s: &mut Src, keys: &[u32]| -> Vec<(u32, u32)> {
        let n = s.size(0, 6);
        let mut v: Vec<(u32, u32)> = vec![];
        for _ in 0..n {
            let k = *s.pick(keys);
            let t = if s.bool() { *s.pick(keys) } else { s.bits(32) as u32 };
            if !v.iter().any(|(a, _)| *a == k) {
                v.push((k, t));
            }
        }
        v
    };
    let cm = mk(s, &class_keys);
    let fm = mk(s, &fun_keys);
    let ap = |m: &[(u32, u32)], v: u32| m.iter().find(|(k, _)| *k == v).map_or(v, |(_, t)| *t);
    let to_map = |m: &[(u32, u32)]| m.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>();
    let cmap: HashMap<PoolIndex<d::Class>, PoolIndex<d::Class>> =
        to_map(&cm).into_iter().map(|(a, b)| (PoolIndex::new(a), PoolIndex::new(b))).collect();
    let fmap: HashMap<PoolIndex<d::Function>, PoolIndex<d::Function>> =
        to_map(&fm).into_iter().map(|(a, b)| (PoolIndex::new(a), PoolIndex::new(b))).collect();
    let which = s.below(4);
    match which {
        0 => PoolMapper::default()
            .with_class_mapper(MultiMapper::new(cmap))
            .with_function_mapper(MultiMapper::new(fmap))
            .map(&mut pool),
        1 => PoolMapper::default().with_class_mapper(MultiMapper::new(cmap)).map(&mut pool),
        2 => PoolMapper::default().with_function_mapper(MultiMapper::new(fmap)).map(&mut pool),
        _ => PoolMapper::default()
            .with_function_mapper(MultiMapper::new(fmap))
            .with_class_mapper(MultiMapper::new(cmap))
            .map(&mut pool),
    }
    let cm: &[(u32, u32)] = if which == 2 { &[] } else { &cm };
    let fm: &[(u32, u32)] = if which == 1 { &[] } else { &fm };
    let mut want = m.clone();
    let mut hits = 0;
    for def in &mut want.defs {
        let before = def.clone();
        match &mut def.val {
            Val::Class(k) => k.base = ap(cm, k.base),
            Val::Function(f) => {
                def.parent = ap(cm, def.parent);
                for i in &mut f.code {
                    match i.op {
                        35 => i.args[1] = u64::from(ap(cm, i.args[1] as u32)),
                        48 | 90 => i.args[0] = u64::from(ap(cm, i.args[0] as u32)),
                        36 => i.args[2] = u64::from(ap(fm, i.args[2] as u32)),
                        _ => {}
                    }
                }
            }
            Val::Parameter { .. } | Val::Local { .. } => def.parent = ap(fm, def.parent),
            Val::Field(_) => def.parent = ap(cm, def.parent),
            _ => {}
        }
        if *def != before {
            hits += 1;
        }
    }
    if let Err(e) = diff_pool(&pool, &want) {
        return fail("remap", format!("classes {cm:?} functions {fm:?}: {e}"));
    }
    c.nontrivial_if(hits > 0);
    c.sample(|| format!("classes {cm:?} functions {fm:?} over {} definitions, {hits} changed", m.defs.len()));
    Ok(())
}

fn load_pool(m: &Bundle) -> Result<ConstantPool, pbt::Fail> {
    let bytes = encode_bundle(m, &Layout::default());
    match crate::p_bundle::load(&bytes) {
        Ok(b) => Ok(b.pool),
        Err(e) => fail("load-err", e.to_string()),
    }
}

// ---------------------------------------------------------------- type names

#[derive(Debug, Clone, PartialEq)]
struct T {
    name: String,
    args: Vec<T>,
}

const TNAMES: [&str; 14] = [
    "ref", "wref", "array", "script_ref", "Int32", "Bool", "String", "IScriptable", "Uint8", "gameObject", "A", "Variant", "Void", "CName",
];

fn gen_t(s: &mut Src, depth: usize, multi: bool) -> T {
    if depth >= 4 && s.chance(1, 50) {
        // a long chain
        let mut t = gen_t(s, 1, false);
        for _ in 0..s.big(60) {
            t = T {
                name: s.pick(&TNAMES[..4]).to_string(),
                args: vec![t],
            };
        }
        return t;
    }
    let nargs = if depth == 0 {
        0
    } else if multi && s.chance(1, 5) {
        if s.chance(1, 10) { s.size(2, 9) } else { s.size(2, 3) }
    } else {
        usize::from(s.chance(2, 3))
    };
    let name = if nargs == 0 {
        s.pick(&TNAMES[4..]).to_string()
    } else if s.chance(3, 4) {
        s.pick(&TNAMES[..4]).to_string()
    } else {
        s.pick(&TNAMES).to_string()
    };
    let args = (0..nargs).map(|_| gen_t(s, depth - 1, multi)).collect();
    T { name, args }
}

fn t_real(t: &T) -> TypeName {
    TypeName::new(redscript::Str::from_ref(t.name.as_str()), t.args.iter().map(t_real).collect())
}

fn t_view(t: &TypeName) -> T {
    T {
        name: t.name().to_string(),
        args: t.arguments().iter().map(t_view).collect(),
    }
}

fn t_repr(t: &T) -> String {
    let mut o = t.name.clone();
    for a in &t.args {
        o.push(':');
        o.push_str(&t_repr(a));
    }
    o
}

fn t_pretty(t: &T) -> String {
    if t.args.is_empty() {
        t.name.clone()
    } else {
        format!("{}<{}>", t.name, t.args.iter().map(t_pretty).collect::<Vec<_>>().join(", "))
    }
}

/// The identity of a type in function signatures: handles are transparent at every level.
fn t_mangled(t: &T) -> String {
    let mut t = t;
    while (t.name == "ref" || t.name == "wref") && t.args.len() == 1 {
        t = &t.args[0];
    }
    if t.args.is_empty() {
        t.name.clone()
    } else {
        format!("{}<{}>", t.name, t.args.iter().map(t_mangled).collect::<Vec<_>>().join(","))
    }
}

fn type_names(s: &mut Src, c: &mut Ctx) -> R {
    let multi = s.chance(1, 3);
    let t = gen_t(s, 5, multi);
    let r = t_real(&t);
    ensure_eq!(t_view(&r), t, "structure");
    ensure_eq!(r.repr().to_string(), t_repr(&t), "repr");
    ensure_eq!(r.pretty().to_string(), t_pretty(&t), "pretty");
    ensure_eq!(r.mangled().to_string(), t_mangled(&t), "mangled");
    ensure_eq!(r.to_string(), t_mangled(&t), "display");
    let kind = match t.name.as_str() {
        "ref" => "Ref",
        "wref" => "WRef",
        "script_ref" => "ScriptRef",
        "array" => "Array",
        _ => "Prim",
    };
    ensure_eq!(format!("{:?}", r.kind()), kind, "kind", "{t:?}");
    if !multi {
        let back = TypeName::from_repr(&t_repr(&t));
        ensure_eq!(t_view(&back), t, "from_repr");
        ensure!(back == r, "equality", "a type read back from its stored name is not equal to it: {t:?}");
    }
    let u = gen_t(s, 3, multi);
    ensure_eq!(t_real(&u) == r, u == t, "equality", "{t:?} against {u:?}");
    c.nontrivial_if(!t.args.is_empty());
    c.sample(|| t_pretty(&t));
    Ok(())
}

/// Type definitions print in the stored form, and the stored form of a handle chain reads back.
fn pool_types(s: &mut Src, c: &mut Ctx) -> R {
    let t = gen_t(s, 5, false);
    // build in a pool, innermost first
    let mut chain = vec![];
    let mut cur = &t;
    loop {
        chain.push(cur.name.clone());
        match cur.args.first() {
            Some(a) => cur = a,
            None => break,
        }
    }
    let mut pool = ConstantPool::default();
    // name 0 stands for None
    pool.names.add("\u{1}zero".into());
    let mut prev: Option<PoolIndex<d::Type>> = None;
    let mut repr = String::new();
    let mut proper = true;
    for name in chain.iter().rev() {
        let outer = prev.is_some();
        repr = if outer { format!("{name}:{repr}") } else { name.clone() };
        let n: PoolIndex<CName> = pool.names.add(repr.as_str().into());
        let ty = match (prev, name.as_str()) {
            (None, _) => d::Type::Prim,
            (Some(p), "ref") => d::Type::Ref(p),
            (Some(p), "wref") => d::Type::WeakRef(p),
            (Some(p), "array") => d::Type::Array(p),
            (Some(p), "script_ref") => d::Type::ScriptRef(p),
            _ => {
                proper = false;
                d::Type::Prim
            }
        };
        let _ = proper;
        prev = Some(pool.add_definition(d::Definition::type_(n, ty)));
    }
    let idx = prev.unwrap();
    let name = pool.def_name(idx).or_else(|e| fail("name", e.to_string()))?;
    ensure_eq!(name.to_string(), t_repr(&t), "pool name");
    let back = TypeName::from_repr(name.as_ref());
    ensure_eq!(t_view(&back), t, "from pool");
    ensure_eq!(back.repr().to_string(), name.to_string(), "repr");
    c.nontrivial_if(chain.len() > 2);
    c.sample(|| repr.clone());
    Ok(())
}

fn spans(s: &mut Src, c: &mut Ctx) -> R {
    let bits = *s.pick(&[6, 20, 31]);
    let p = |s: &mut Src| s.bits(bits) as usize;
    let mk = |a: usize, b: usize| Span::new(Pos::new(a.min(b)), Pos::new(a.max(b)));
    let (a, b, x, y, q) = (p(s), p(s), p(s), p(s), p(s));
    let (l1, h1, l2, h2) = (a.min(b), a.max(b), x.min(y), x.max(y));
    let m = mk(a, b).merge(mk(x, y));
    ensure_eq!((usize::from(m.low), usize::from(m.high)), (l1.min(l2), h1.max(h2)), "merge");
    ensure_eq!(mk(a, b).contains(Pos::new(q)), l1 <= q && q < h1, "contains");
    let o = mk(a, b).compare_pos(Pos::new(q));
    let want = if q < l1 {
        std::cmp::Ordering::Greater
    } else if q > h1 {
        std::cmp::Ordering::Less
    } else {
        std::cmp::Ordering::Equal
    };
    ensure_eq!(o, want, "compare_pos");
    ensure_eq!(usize::from(Pos::new(a) + b), a + b, "add");
    ensure_eq!(usize::from(Pos::new(a + b) - b), a, "sub");
    ensure_eq!(Pos::new(a).cmp(&Pos::new(b)), a.cmp(&b), "order");
    c.nontrivial_if(a != b && x != y);
    c.sample(|| format!("[{l1},{h1}) [{l2},{h2}) at {q}"));
    Ok(())
}

/// The span of a tree: its own, or for a sequence from its first to its last statement.
fn trees(s: &mut Src, c: &mut Ctx) -> R {
    let mut seqs = 0;
    let (e, want, empty) = gen_tree(s, 4, &mut seqs);
    ensure_eq!((usize::from(e.span().low), usize::from(e.span().high)), want, "span", "{e:?}");
    ensure_eq!(e.is_empty(), empty, "empty", "{e:?}");
    c.nontrivial_if(seqs > 0);
    c.sample(|| format!("{e:?}"));
    Ok(())
}

fn gen_tree(s: &mut Src, depth: usize, seqs: &mut usize) -> (Expr<SourceAst>, (usize, usize), bool) {
    let (a, b) = (s.bits(16) as usize, s.bits(16) as usize);
    let (lo, hi) = (a.min(b), a.max(b));
    let sp = Span::new(Pos::new(lo), Pos::new(hi));
    let id = || redscript::ast::Ident::from_static("x");
    let leaf = || Box::new(Expr::<SourceAst>::Null(Span::ZERO));
    let seq = || Seq::<SourceAst>::new(vec![]);
    let e = match s.below(32) {
        0 => Expr::Ident(id(), sp),
        1 => Expr::Constant(Constant::Bool(true), sp),
        2 => Expr::ArrayLit([].into(), None, sp),
        3 => Expr::InterpolatedString("".into(), vec![], sp),
        4 => Expr::Declare(id(), None, None, sp),
        5 => Expr::Cast(TypeName::BOOL, leaf(), sp),
        6 => Expr::Assign(leaf(), leaf(), sp),
        7 => Expr::Call(id(), [].into(), [].into(), sp),
        8 => Expr::MethodCall(leaf(), id(), vec![], sp),
        9 => Expr::Member(leaf(), id(), sp),
        10 => Expr::ArrayElem(leaf(), leaf(), sp),
        11 => Expr::New(TypeName::BOOL, [].into(), sp),
        12 => Expr::Return(None, sp),
        13 => Expr::Switch(leaf(), vec![], None, sp),
        14 => Expr::Goto(redscript::ast::Target::new(Location::ZERO), sp),
        15 => Expr::If(leaf(), seq(), None, sp),
        16 => Expr::Conditional(leaf(), leaf(), leaf(), sp),
        17 => Expr::While(leaf(), seq(), sp),
        18 => Expr::ForIn(id(), leaf(), seq(), sp),
        19 => Expr::BinOp(leaf(), leaf(), redscript::ast::BinOp::Add, sp),
        20 => Expr::UnOp(leaf(), redscript::ast::UnOp::Neg, sp),
        21 => Expr::This(sp),
        22 => Expr::Super(sp),
        23 => Expr::Break(sp),
        _ if depth > 0 => {
            *seqs += 1;
            let parts: Vec<_> = (0..s.len(5)).map(|_| gen_tree(s, depth - 1, seqs)).collect();
            let want = match (parts.first(), parts.last()) {
                (Some((_, f, _)), Some((_, l, _))) => (f.0.min(l.0), f.1.max(l.1)),
                _ => (0, 0),
            };
            let empty = parts.iter().all(|p| p.2);
            return (Expr::Seq(Seq::new(parts.into_iter().map(|p| p.0).collect())), want, empty);
        }
        _ => Expr::Null(sp),
    };
    (e, (lo, hi), false)
}

pub fn props() -> Vec<Prop> {
    let _ = ops::OP_PROFILE;
    vec![
        Prop {
            id: "C07",
            level: "exploration",
            rule: "every opcode in turn with random and edge operands, random instruction sequences, every unassigned opcode; compared byte for byte with a separately written instruction table; non-trivial = instruction with operands / sequence of three or more",
            assumptions: &["the table in harness/core/src/ops.rs describes the instruction set"],
            subs: vec![
                Sub { name: "single", quick: 104 * 8000, thorough: 104 * 200_000, run: single },
                Sub { name: "sequence", quick: 100_000, thorough: 4_000_000, run: sequence },
                Sub { name: "unknown", quick: 152 * 40, thorough: 152 * 1000, run: unknown_opcode },
            ],
        },
        Prop {
            id: "C08",
            level: "exploration",
            rule: "random symbolic programs (all nine branching instructions, up to 65000 bytes of code) with labels anywhere; resolved, written, read, and every displacement followed; non-trivial = at least one branch",
            assumptions: &["release-mode arithmetic"],
            subs: vec![Sub { name: "labels", quick: 80_000, thorough: 3_000_000, run: labels }],
        },
        Prop {
            id: "C09",
            level: "exploration",
            rule: "random code and random pop/peek/seek/range histories against an index model; non-trivial = at least one successful seek over three or more instructions",
            assumptions: &["ranges are given in order"],
            subs: vec![Sub { name: "cursor", quick: 300_000, thorough: 10_000_000, run: cursor }],
        },
        Prop {
            id: "C11",
            level: "exploration",
            rule: "random pools and random partial class and function maps (swaps, chains, collisions with other kinds of index), compared with a reference rewrite of the model; non-trivial = at least one definition changes",
            assumptions: &[],
            subs: vec![Sub { name: "remap", quick: 150_000, thorough: 4_000_000, run: remap }],
        },
        Prop {
            id: "C12",
            level: "exploration",
            rule: "random nested type names against reference renderings and read back; random source spans against interval arithmetic; non-trivial = nested type / non-empty spans",
            assumptions: &["stored names of types have one argument per level"],
            subs: vec![
                Sub { name: "types", quick: 300_000, thorough: 10_000_000, run: type_names },
                Sub { name: "pool", quick: 100_000, thorough: 3_000_000, run: pool_types },
                Sub { name: "spans", quick: 200_000, thorough: 5_000_000, run: spans },
                Sub { name: "trees", quick: 100_000, thorough: 3_000_000, run: trees },
            ],
        },
    ]
}

//! Reference model of a script bundle and an independent reader/writer of its on-disk format.

use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::Code;
use redscript::definition as d;

use crate::ops::{self, Ins};

#[derive(Clone, Debug, PartialEq)]
pub struct Bundle {
    pub version: u32,
    pub flags: u32,
    pub timestamp: [u8; 8],
    pub unk3: u32,
    pub chunks: u32,
    pub names: Vec<String>,
    pub tweaks: Vec<String>,
    pub resources: Vec<String>,
    pub strings: Vec<String>,
    /// defs[0] is the placeholder every bundle starts with
    pub defs: Vec<Def>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Def {
    pub name: u32,
    pub parent: u32,
    pub unk: [u8; 3],
    pub val: Val,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Type(Ty),
    Class(Class),
    EnumValue(i64),
    Enum { flags: u8, size: u8, members: Vec<u32>, unk1: bool },
    Function(Fun),
    Parameter { ty: u32, flags: u8 },
    Local { ty: u32, flags: u8 },
    Field(Field),
    SourceFile { id: u32, hash: u64, path: String },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Prim,
    Class,
    Ref(u32),
    WeakRef(u32),
    Array(u32),
    StaticArray(u32, u32),
    ScriptRef(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Class {
    pub vis: u8,
    pub flags: u16,
    pub base: u32,
    pub functions: Vec<u32>,
    pub fields: Vec<u32>,
    pub overrides: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fun {
    pub vis: u8,
    pub flags: u32,
    pub source: Option<(u32, u32)>,
    pub ret: Option<(u32, bool)>,
    pub base_method: Option<u32>,
    pub params: Vec<u32>,
    pub locals: Vec<u32>,
    pub operator: Option<u32>,
    pub cast: u8,
    pub code: Vec<Ins>,
    pub unk2: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub vis: u8,
    pub ty: u32,
    pub flags: u16,
    pub hint: Option<String>,
    pub attributes: Vec<(String, String)>,
    pub defaults: Vec<(String, String)>,
}

pub mod cf {
    pub const NATIVE: u16 = 1;
    pub const ABSTRACT: u16 = 2;
    pub const FINAL: u16 = 4;
    pub const STRUCT: u16 = 8;
    pub const HAS_FUNCTIONS: u16 = 1 << 4;
    pub const HAS_FIELDS: u16 = 1 << 5;
    pub const IMPORT_ONLY: u16 = 1 << 6;
    pub const TEST_ONLY: u16 = 1 << 7;
    pub const HAS_OVERRIDES: u16 = 1 << 8;
    pub const COMPUTED: u16 = HAS_FUNCTIONS | HAS_FIELDS | HAS_OVERRIDES;
}

pub mod ff {
    pub const STATIC: u32 = 1;
    pub const EXEC: u32 = 2;
    pub const TIMER: u32 = 4;
    pub const FINAL: u32 = 8;
    pub const NATIVE: u32 = 1 << 4;
    pub const UNK1: u32 = 1 << 5;
    pub const CALLBACK: u32 = 1 << 6;
    pub const OPERATOR: u32 = 1 << 7;
    pub const HAS_RET: u32 = 1 << 8;
    pub const HAS_BASE: u32 = 1 << 9;
    pub const HAS_PARAMS: u32 = 1 << 10;
    pub const HAS_LOCALS: u32 = 1 << 11;
    pub const HAS_BODY: u32 = 1 << 12;
    pub const CAST: u32 = 1 << 13;
    pub const IMPLICIT_CAST: u32 = 1 << 14;
    pub const THREAD_SAFE: u32 = 1 << 18;
    pub const CONST: u32 = 1 << 19;
    pub const UNK2: u32 = 1 << 20;
    pub const UNK3: u32 = 1 << 21;
    pub const QUEST: u32 = 1 << 22;
    pub const UNK4: u32 = 1 << 23;
    pub const UNK5: u32 = 1 << 24;
    pub const UNK6: u32 = 1 << 25;
    pub const COMPUTED: u32 = OPERATOR | HAS_RET | HAS_BASE | HAS_PARAMS | HAS_LOCALS | HAS_BODY;
}

pub mod fdf {
    pub const NATIVE: u16 = 1;
    pub const EDITABLE: u16 = 2;
    pub const INLINE: u16 = 4;
    pub const CONST: u16 = 8;
    pub const REPLICATED: u16 = 1 << 4;
    pub const HAS_HINT: u16 = 1 << 5;
    pub const INSTANCE_EDITABLE: u16 = 1 << 6;
    pub const HAS_DEFAULT: u16 = 1 << 7;
    pub const PERSISTENT: u16 = 1 << 8;
    pub const TEST_ONLY: u16 = 1 << 9;
    pub const BROWSABLE: u16 = 1 << 10;
}

pub mod pf {
    pub const OPTIONAL: u8 = 1;
    pub const OUT: u8 = 2;
    pub const SHORT_CIRCUIT: u8 = 4;
    pub const CONST: u8 = 8;
}

impl Def {
    pub fn placeholder() -> Def {
        Def {
            name: 0,
            parent: 0,
            unk: [0; 3],
            val: Val::Type(Ty::Prim),
        }
    }

    pub fn new(name: u32, parent: u32, val: Val) -> Def {
        Def {
            name,
            parent,
            unk: [0; 3],
            val,
        }
    }

    /// The form in which presence bits agree with the data they announce.
    pub fn normalised(mut self) -> Def {
        match &mut self.val {
            Val::Class(c) => {
                c.flags &= !cf::COMPUTED;
                if !c.functions.is_empty() {
                    c.flags |= cf::HAS_FUNCTIONS;
                }
                if !c.fields.is_empty() {
                    c.flags |= cf::HAS_FIELDS;
                }
                if !c.overrides.is_empty() {
                    c.flags |= cf::HAS_OVERRIDES;
                }
            }
            Val::Function(f) => {
                f.flags &= !ff::COMPUTED;
                if f.ret.is_some() {
                    f.flags |= ff::HAS_RET;
                }
                if f.base_method.is_some() {
                    f.flags |= ff::HAS_BASE;
                }
                if !f.params.is_empty() || !f.unk2.is_empty() {
                    f.flags |= ff::HAS_PARAMS;
                }
                if !f.locals.is_empty() {
                    f.flags |= ff::HAS_LOCALS;
                }
                if f.operator.is_some() {
                    f.flags |= ff::OPERATOR;
                }
                if !f.code.is_empty() {
                    f.flags |= ff::HAS_BODY;
                }
            }
            Val::Field(f) => {
                f.flags &= !fdf::HAS_HINT;
                if f.hint.is_some() {
                    f.flags |= fdf::HAS_HINT;
                }
            }
            _ => {}
        }
        self
    }
}

impl Val {
    pub fn tag(&self) -> u8 {
        match self {
            Val::Type(_) => 0,
            Val::Class(_) => 1,
            Val::EnumValue(_) => 2,
            Val::Enum { .. } => 3,
            Val::Function(_) => 5,
            Val::Parameter { .. } => 6,
            Val::Local { .. } => 7,
            Val::Field(_) => 8,
            Val::SourceFile { .. } => 9,
        }
    }
}

pub fn crc32(data: &[u8]) -> u32 {
    let mut c = 0xFFFF_FFFFu32;
    for b in data {
        c ^= u32::from(*b);
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

fn p32(o: &mut Vec<u8>, v: u32) {
    o.extend(v.to_le_bytes());
}
fn pvec(o: &mut Vec<u8>, v: &[u32]) {
    p32(o, v.len() as u32);
    for x in v {
        p32(o, *x);
    }
}
fn pstr16(o: &mut Vec<u8>, s: &str) {
    o.extend((s.len() as u16).to_le_bytes());
    o.extend(s.as_bytes());
}

pub fn encode_val(v: &Val) -> Vec<u8> {
    let mut o = vec![];
    match v {
        Val::Type(t) => match t {
            Ty::Prim => o.push(0),
            Ty::Class => o.push(1),
            Ty::Ref(i) => {
                o.push(2);
                p32(&mut o, *i);
            }
            Ty::WeakRef(i) => {
                o.push(3);
                p32(&mut o, *i);
            }
            Ty::Array(i) => {
                o.push(4);
                p32(&mut o, *i);
            }
            Ty::StaticArray(i, n) => {
                o.push(5);
                p32(&mut o, *i);
                p32(&mut o, *n);
            }
            Ty::ScriptRef(i) => {
                o.push(6);
                p32(&mut o, *i);
            }
        },
        Val::Class(c) => {
            o.push(c.vis);
            o.extend(c.flags.to_le_bytes());
            p32(&mut o, c.base);
            if c.flags & cf::HAS_FUNCTIONS != 0 {
                pvec(&mut o, &c.functions);
            }
            if c.flags & cf::HAS_FIELDS != 0 {
                pvec(&mut o, &c.fields);
            }
            if c.flags & cf::HAS_OVERRIDES != 0 {
                pvec(&mut o, &c.overrides);
            }
        }
        Val::EnumValue(v) => o.extend(v.to_le_bytes()),
        Val::Enum {
            flags,
            size,
            members,
            unk1,
        } => {
            o.push(*flags);
            o.push(*size);
            pvec(&mut o, members);
            o.push(u8::from(*unk1));
        }
        Val::Function(f) => {
            o.push(f.vis);
            p32(&mut o, f.flags);
            if f.flags & ff::NATIVE == 0 {
                let (file, line) = f.source.unwrap();
                p32(&mut o, file);
                p32(&mut o, line);
            }
            if let Some((t, u)) = f.ret {
                p32(&mut o, t);
                o.push(u8::from(u));
            }
            if let Some(m) = f.base_method {
                p32(&mut o, m);
            }
            if f.flags & ff::HAS_PARAMS != 0 {
                pvec(&mut o, &f.params);
            }
            if f.flags & ff::HAS_LOCALS != 0 {
                pvec(&mut o, &f.locals);
            }
            if let Some(op) = f.operator {
                p32(&mut o, op);
            }
            if f.flags & ff::CAST != 0 {
                o.push(f.cast);
            }
            if f.flags & ff::HAS_BODY != 0 {
                p32(&mut o, f.code.iter().map(ops::runtime_size).sum());
                for i in &f.code {
                    ops::encode_ins(i, &mut o);
                }
            }
            if f.flags & ff::UNK4 != 0 {
                pvec(&mut o, &f.unk2);
            }
        }
        Val::Parameter { ty, flags } | Val::Local { ty, flags } => {
            p32(&mut o, *ty);
            o.push(*flags);
        }
        Val::Field(f) => {
            o.push(f.vis);
            p32(&mut o, f.ty);
            o.extend(f.flags.to_le_bytes());
            if let Some(h) = &f.hint {
                pstr16(&mut o, h);
            }
            for props in [&f.attributes, &f.defaults] {
                p32(&mut o, props.len() as u32);
                for (n, v) in props {
                    pstr16(&mut o, n);
                    pstr16(&mut o, v);
                }
            }
        }
        Val::SourceFile { id, hash, path } => {
            p32(&mut o, *id);
            o.extend(hash.to_le_bytes());
            pstr16(&mut o, path);
        }
    }
    o
}

/// How a foreign writer may have laid the file out.
#[derive(Clone, Debug, Default)]
pub struct Layout {
    /// permutation of the definition bodies
    pub body_order: Vec<usize>,
    /// unused bytes before each body
    pub gaps: Vec<u8>,
    /// write a string again even if it is already in the data block
    pub dup_strings: bool,
    /// header checksum words as found in the file (loading does not depend on them)
    pub junk_hash: u32,
    /// no checksums at all
    pub blank: bool,
}

pub fn encode_bundle(b: &Bundle, lay: &Layout) -> Vec<u8> {
    let mut data = vec![];
    let mut seen: std::collections::HashMap<String, u32> = Default::default();
    let mut place = |s: &String, data: &mut Vec<u8>| -> u32 {
        if !lay.dup_strings {
            if let Some(o) = seen.get(s) {
                return *o;
            }
        }
        let o = data.len() as u32;
        seen.insert(s.clone(), o);
        data.extend(s.as_bytes());
        data.push(0);
        o
    };
    let names: Vec<u32> = b.names.iter().map(|s| place(s, &mut data)).collect();
    let tweaks: Vec<u32> = b.tweaks.iter().map(|s| place(s, &mut data)).collect();
    let resources: Vec<u32> = b.resources.iter().map(|s| place(s, &mut data)).collect();
    let strings: Vec<u32> = b.strings.iter().map(|s| place(s, &mut data)).collect();
    drop(place);

    let mut out = vec![0u8; 104];
    let mut tabs = vec![];
    let flat = |v: &[u32]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    tabs.push((out.len() as u32, data.len() as u32, crc32(&data)));
    out.extend(&data);
    for t in [&names, &tweaks, &resources] {
        tabs.push((out.len() as u32, t.len() as u32, crc32(&flat(t))));
        out.extend(flat(t));
    }
    let def_pos = out.len();
    out.extend(vec![0u8; 20 * b.defs.len()]);
    let str_tab = (out.len() as u32, strings.len() as u32, crc32(&flat(&strings)));
    out.extend(flat(&strings));

    let mut heads = vec![(0u32, 0u32); b.defs.len()];
    let order: Vec<usize> = if lay.body_order.is_empty() {
        (1..b.defs.len()).collect()
    } else {
        lay.body_order.clone()
    };
    for (k, i) in order.iter().enumerate() {
        let gap = lay.gaps.get(k).copied().unwrap_or(0);
        out.extend(vec![0xAAu8; gap as usize]);
        let body = encode_val(&b.defs[*i].val);
        heads[*i] = (out.len() as u32, body.len() as u32);
        out.extend(body);
    }
    let mut hd = vec![];
    for (i, d) in b.defs.iter().enumerate() {
        p32(&mut hd, d.name);
        p32(&mut hd, d.parent);
        p32(&mut hd, heads[i].0);
        p32(&mut hd, heads[i].1);
        hd.push(d.val.tag());
        hd.extend(d.unk);
    }
    tabs.push((def_pos as u32, b.defs.len() as u32, crc32(&hd)));
    tabs.push(str_tab);
    out[def_pos..def_pos + hd.len()].copy_from_slice(&hd);

    let head = |hash: u32| {
        let mut h = vec![];
        p32(&mut h, 0x5344_4552);
        p32(&mut h, b.version);
        p32(&mut h, b.flags);
        h.extend(b.timestamp);
        p32(&mut h, b.unk3);
        p32(&mut h, hash);
        p32(&mut h, b.chunks);
        for (o, c, x) in &tabs {
            p32(&mut h, *o);
            p32(&mut h, *c);
            p32(&mut h, if lay.blank { 0 } else { *x ^ lay.junk_hash });
        }
        h
    };
    let hash = if lay.blank { lay.junk_hash } else { crc32(&head(0xDEAD_BEEF)) ^ lay.junk_hash };
    out[..104].copy_from_slice(&head(hash));
    out
}

struct Rd<'a> {
    b: &'a [u8],
    pos: usize,
}
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        let end = self.pos.checked_add(n).ok_or("overflow")?;
        if end > self.b.len() {
            return Err(format!("read of {n} bytes at {} runs past {}", self.pos, self.b.len()));
        }
        let r = &self.b[self.pos..end];
        self.pos = end;
        Ok(r)
    }
    fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Result<u16, String> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn vec(&mut self) -> Result<Vec<u32>, String> {
        let n = self.u32()?;
        (0..n).map(|_| self.u32()).collect()
    }
    fn str16(&mut self) -> Result<String, String> {
        let n = self.u16()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
    fn flag(&mut self) -> Result<bool, String> {
        match self.u8()? {
            0 => Ok(false),
            1 => Ok(true),
            v => Err(format!("boolean byte {v}")),
        }
    }
}

pub fn decode_val(tag: u8, body: &[u8]) -> Result<Val, String> {
    let mut r = Rd { b: body, pos: 0 };
    let val = match tag {
        0 => Val::Type(match r.u8()? {
            0 => Ty::Prim,
            1 => Ty::Class,
            2 => Ty::Ref(r.u32()?),
            3 => Ty::WeakRef(r.u32()?),
            4 => Ty::Array(r.u32()?),
            5 => Ty::StaticArray(r.u32()?, r.u32()?),
            6 => Ty::ScriptRef(r.u32()?),
            t => return Err(format!("type tag {t}")),
        }),
        1 => {
            let vis = r.u8()?;
            let flags = r.u16()?;
            let base = r.u32()?;
            let functions = if flags & cf::HAS_FUNCTIONS != 0 { r.vec()? } else { vec![] };
            let fields = if flags & cf::HAS_FIELDS != 0 { r.vec()? } else { vec![] };
            let overrides = if flags & cf::HAS_OVERRIDES != 0 { r.vec()? } else { vec![] };
            Val::Class(Class {
                vis,
                flags,
                base,
                functions,
                fields,
                overrides,
            })
        }
        2 => Val::EnumValue(r.u64()? as i64),
        3 => Val::Enum {
            flags: r.u8()?,
            size: r.u8()?,
            members: r.vec()?,
            unk1: r.flag()?,
        },
        5 => {
            let vis = r.u8()?;
            let flags = r.u32()?;
            let source = if flags & ff::NATIVE == 0 { Some((r.u32()?, r.u32()?)) } else { None };
            let ret = if flags & ff::HAS_RET != 0 { Some((r.u32()?, r.flag()?)) } else { None };
            let base_method = if flags & ff::HAS_BASE != 0 { Some(r.u32()?) } else { None };
            let params = if flags & ff::HAS_PARAMS != 0 { r.vec()? } else { vec![] };
            let locals = if flags & ff::HAS_LOCALS != 0 { r.vec()? } else { vec![] };
            let operator = if flags & ff::OPERATOR != 0 { Some(r.u32()?) } else { None };
            let cast = if flags & ff::CAST != 0 { r.u8()? } else { 0 };
            let mut code = vec![];
            if flags & ff::HAS_BODY != 0 {
                let total = r.u32()?;
                let mut at = 0;
                while at < total {
                    let i = ops::decode_ins(r.b, &mut r.pos)?;
                    at += ops::runtime_size(&i);
                    code.push(i);
                }
                if at != total {
                    return Err(format!("code announces {total} but its instructions take {at}"));
                }
            }
            let unk2 = if flags & ff::UNK4 != 0 { r.vec()? } else { vec![] };
            Val::Function(Fun {
                vis,
                flags,
                source,
                ret,
                base_method,
                params,
                locals,
                operator,
                cast,
                code,
                unk2,
            })
        }
        6 => Val::Parameter {
            ty: r.u32()?,
            flags: r.u8()?,
        },
        7 => Val::Local {
            ty: r.u32()?,
            flags: r.u8()?,
        },
        8 => {
            let vis = r.u8()?;
            let ty = r.u32()?;
            let flags = r.u16()?;
            let hint = if flags & fdf::HAS_HINT != 0 { Some(r.str16()?) } else { None };
            let mut lists = vec![];
            for _ in 0..2 {
                let n = r.u32()?;
                lists.push(
                    (0..n)
                        .map(|_| Ok((r.str16()?, r.str16()?)))
                        .collect::<Result<Vec<_>, String>>()?,
                );
            }
            let defaults = lists.pop().unwrap();
            let attributes = lists.pop().unwrap();
            Val::Field(Field {
                vis,
                ty,
                flags,
                hint,
                attributes,
                defaults,
            })
        }
        9 => Val::SourceFile {
            id: r.u32()?,
            hash: r.u64()?,
            path: r.str16()?,
        },
        t => return Err(format!("definition tag {t}")),
    };
    if r.pos != body.len() {
        return Err(format!("definition body of {} bytes, only {} used", body.len(), r.pos));
    }
    Ok(val)
}

/// Strict reader of files written by the code under test.
pub fn decode_strict(bytes: &[u8]) -> Result<Bundle, String> {
    let mut r = Rd { b: bytes, pos: 0 };
    if r.u32()? != 0x5344_4552 {
        return Err("magic".into());
    }
    let version = r.u32()?;
    let flags = r.u32()?;
    let timestamp: [u8; 8] = r.take(8)?.try_into().unwrap();
    let unk3 = r.u32()?;
    let hash = r.u32()?;
    let chunks = r.u32()?;
    let mut tabs = vec![];
    for _ in 0..6 {
        tabs.push((r.u32()? as usize, r.u32()? as usize, r.u32()?));
    }
    let mut for_hash = bytes[..104].to_vec();
    for_hash[24..28].copy_from_slice(&0xDEAD_BEEFu32.to_le_bytes());
    if crc32(&for_hash) != hash {
        return Err("header checksum does not match the header".into());
    }
    // data, names, tweakdb ids, resources, definitions, strings: contiguous, in this order
    let sizes = [1usize, 4, 4, 4, 20, 4];
    let mut at = 104usize;
    let mut blocks = vec![];
    for (k, (off, count, crc)) in tabs.iter().enumerate() {
        if *off != at {
            return Err(format!("table {k} announced at {off}, expected {at}"));
        }
        let end = at + count * sizes[k];
        if end > bytes.len() {
            return Err(format!("table {k} runs past the end"));
        }
        let block = &bytes[at..end];
        if crc32(block) != *crc {
            return Err(format!("checksum of table {k} does not match"));
        }
        blocks.push(block);
        at = end;
    }
    let data = blocks[0];
    let mut starts: Vec<usize> = vec![0];
    starts.extend(data.iter().enumerate().filter(|(_, b)| **b == 0).map(|(i, _)| i + 1));
    if *starts.last().unwrap() != data.len() {
        return Err("string data is not NUL-terminated".into());
    }
    starts.pop();
    let mut uniq = std::collections::HashSet::new();
    let mut used = std::collections::HashSet::new();
    let mut read_pool = |block: &[u8]| -> Result<Vec<String>, String> {
        block
            .chunks(4)
            .map(|c| {
                let o = u32::from_le_bytes(c.try_into().unwrap()) as usize;
                if starts.binary_search(&o).is_err() {
                    return Err(format!("string offset {o} is not the start of a string"));
                }
                used.insert(o);
                let end = data[o..].iter().position(|b| *b == 0).unwrap() + o;
                String::from_utf8(data[o..end].to_vec()).map_err(|e| e.to_string())
            })
            .collect()
    };
    let names = read_pool(blocks[1])?;
    let tweaks = read_pool(blocks[2])?;
    let resources = read_pool(blocks[3])?;
    let strings = read_pool(blocks[5])?;
    for s in &starts {
        let end = data[*s..].iter().position(|b| *b == 0).unwrap() + s;
        if !uniq.insert(&data[*s..end]) {
            return Err("a string is stored twice in the data block".into());
        }
        if !used.contains(s) {
            return Err("the data block holds a string no table refers to".into());
        }
    }
    let mut defs = vec![];
    let mut spans = vec![];
    let mut dr = Rd {
        b: blocks[4],
        pos: 0,
    };
    for i in 0..tabs[4].1 {
        let name = dr.u32()?;
        let parent = dr.u32()?;
        let off = dr.u32()? as usize;
        let size = dr.u32()? as usize;
        let tag = dr.u8()?;
        let unk = [dr.u8()?, dr.u8()?, dr.u8()?];
        if i == 0 {
            if (name, parent, off, size, tag, unk) != (0, 0, 0, 0, 0, [0; 3]) {
                return Err("definition 0 is not the placeholder".into());
            }
            defs.push(Def::placeholder());
            continue;
        }
        if off < at || off + size > bytes.len() {
            return Err(format!("definition {i} lies outside the body area"));
        }
        spans.push((off, off + size));
        let val = decode_val(tag, &bytes[off..off + size]).map_err(|e| format!("definition {i}: {e}"))?;
        defs.push(Def { name, parent, unk, val });
    }
    spans.sort_unstable();
    let mut cur = at;
    for (a, b) in spans {
        if a != cur {
            return Err(format!("definition bodies leave a hole or overlap at {cur} (next starts at {a})"));
        }
        cur = b;
    }
    if cur != bytes.len() {
        return Err(format!("{} trailing bytes", bytes.len() - cur));
    }
    Ok(Bundle {
        version,
        flags,
        timestamp,
        unk3,
        chunks,
        names,
        tweaks,
        resources,
        strings,
        defs,
    })
}

fn ix<A>(v: &[PoolIndex<A>]) -> Vec<u32> {
    v.iter().map(|x| u32::from(*x)).collect()
}
fn xi<A>(v: &[u32]) -> Vec<PoolIndex<A>> {
    v.iter().map(|x| PoolIndex::new(*x)).collect()
}

/// The in-memory definition as model.
pub fn view_def(def: &d::Definition) -> Def {
    let val = match &def.value {
        d::AnyDefinition::Type(t) => Val::Type(match t {
            d::Type::Prim => Ty::Prim,
            d::Type::Class => Ty::Class,
            d::Type::Ref(i) => Ty::Ref((*i).into()),
            d::Type::WeakRef(i) => Ty::WeakRef((*i).into()),
            d::Type::Array(i) => Ty::Array((*i).into()),
            d::Type::StaticArray(i, n) => Ty::StaticArray((*i).into(), *n),
            d::Type::ScriptRef(i) => Ty::ScriptRef((*i).into()),
        }),
        d::AnyDefinition::Class(c) => Val::Class(Class {
            vis: c.visibility as u8,
            flags: u16::from_le_bytes(c.flags.into_bytes()),
            base: c.base.into(),
            functions: ix(&c.functions),
            fields: ix(&c.fields),
            overrides: ix(&c.overrides),
        }),
        d::AnyDefinition::EnumValue(v) => Val::EnumValue(*v),
        d::AnyDefinition::Enum(e) => Val::Enum {
            flags: e.flags,
            size: e.size,
            members: ix(&e.members),
            unk1: e.unk1,
        },
        d::AnyDefinition::Function(f) => Val::Function(Fun {
            vis: f.visibility as u8,
            flags: u32::from_le_bytes(f.flags.into_bytes()),
            source: f.source.as_ref().map(|s| (s.file.into(), s.line)),
            // a flag without the type it belongs to must not appear out of nowhere
            ret: f.return_type.map(|t| (t.into(), f.unk1)).or(f.unk1.then_some((u32::MAX, true))),
            base_method: f.base_method.map(Into::into),
            params: ix(&f.parameters),
            locals: ix(&f.locals),
            operator: f.operator,
            cast: f.cast,
            code: f.code.as_ref().iter().map(ops::from_instr).collect(),
            unk2: ix(&f.unk2),
        }),
        d::AnyDefinition::Parameter(p) => Val::Parameter {
            ty: p.type_.into(),
            flags: p.flags.into_bytes()[0],
        },
        d::AnyDefinition::Local(l) => Val::Local {
            ty: l.type_.into(),
            flags: l.flags.into_bytes()[0],
        },
        d::AnyDefinition::Field(f) => Val::Field(Field {
            vis: f.visibility as u8,
            ty: f.type_.into(),
            flags: u16::from_le_bytes(f.flags.into_bytes()),
            hint: f.hint.clone(),
            attributes: f.attributes.iter().map(|p| (p.name.clone(), p.value.clone())).collect(),
            defaults: f.defaults.iter().map(|p| (p.name.clone(), p.value.clone())).collect(),
        }),
        d::AnyDefinition::SourceFile(s) => Val::SourceFile {
            id: s.id,
            hash: s.path_hash,
            path: s.path.to_str().unwrap().replace('/', "\\"),
        },
    };
    Def {
        name: def.name.into(),
        parent: def.parent.into(),
        unk: [def.unk1, def.unk2, def.unk3],
        val,
    }
}

pub fn vis(v: u8) -> d::Visibility {
    match v {
        0 => d::Visibility::Public,
        1 => d::Visibility::Protected,
        _ => d::Visibility::Private,
    }
}

/// The model as in-memory definition.
pub fn build_def(def: &Def) -> d::Definition {
    let value = match &def.val {
        Val::Type(t) => d::AnyDefinition::Type(match t {
            Ty::Prim => d::Type::Prim,
            Ty::Class => d::Type::Class,
            Ty::Ref(i) => d::Type::Ref(PoolIndex::new(*i)),
            Ty::WeakRef(i) => d::Type::WeakRef(PoolIndex::new(*i)),
            Ty::Array(i) => d::Type::Array(PoolIndex::new(*i)),
            Ty::StaticArray(i, n) => d::Type::StaticArray(PoolIndex::new(*i), *n),
            Ty::ScriptRef(i) => d::Type::ScriptRef(PoolIndex::new(*i)),
        }),
        Val::Class(c) => d::AnyDefinition::Class(d::Class {
            visibility: vis(c.vis),
            flags: d::ClassFlags::from_bytes(c.flags.to_le_bytes()),
            base: PoolIndex::new(c.base),
            functions: xi(&c.functions),
            fields: xi(&c.fields),
            overrides: xi(&c.overrides),
        }),
        Val::EnumValue(v) => d::AnyDefinition::EnumValue(*v),
        Val::Enum {
            flags,
            size,
            members,
            unk1,
        } => d::AnyDefinition::Enum(d::Enum {
            flags: *flags,
            size: *size,
            members: xi(members),
            unk1: *unk1,
        }),
        Val::Function(f) => d::AnyDefinition::Function(build_fun(f)),
        Val::Parameter { ty, flags } => d::AnyDefinition::Parameter(d::Parameter {
            type_: PoolIndex::new(*ty),
            flags: d::ParameterFlags::from_bytes([*flags]),
        }),
        Val::Local { ty, flags } => d::AnyDefinition::Local(d::Local {
            type_: PoolIndex::new(*ty),
            flags: d::LocalFlags::from_bytes([*flags]),
        }),
        Val::Field(f) => d::AnyDefinition::Field(d::Field {
            visibility: vis(f.vis),
            type_: PoolIndex::new(f.ty),
            flags: d::FieldFlags::from_bytes(f.flags.to_le_bytes()),
            hint: f.hint.clone(),
            attributes: f.attributes.iter().map(mk_prop).collect(),
            defaults: f.defaults.iter().map(mk_prop).collect(),
        }),
        Val::SourceFile { id, hash, path } => d::AnyDefinition::SourceFile(d::SourceFile {
            id: *id,
            path_hash: *hash,
            path: path.replace('\\', "/").into(),
        }),
    };
    d::Definition {
        name: PoolIndex::new(def.name),
        parent: PoolIndex::new(def.parent),
        unk1: def.unk[0],
        unk2: def.unk[1],
        unk3: def.unk[2],
        value,
    }
}

fn mk_prop((n, v): &(String, String)) -> d::Property {
    d::Property {
        name: n.clone(),
        value: v.clone(),
    }
}

pub fn build_fun(f: &Fun) -> d::Function {
    d::Function {
        visibility: vis(f.vis),
        flags: d::FunctionFlags::from_bytes(f.flags.to_le_bytes()),
        source: f.source.map(|(file, line)| d::SourceReference {
            file: PoolIndex::new(file),
            line,
        }),
        return_type: f.ret.map(|(t, _)| PoolIndex::new(t)),
        unk1: f.ret.map_or(false, |(_, u)| u),
        base_method: f.base_method.map(PoolIndex::new),
        parameters: xi(&f.params),
        locals: xi(&f.locals),
        operator: f.operator,
        cast: f.cast,
        code: Code::new(f.code.iter().map(ops::to_instr).collect()),
        unk2: xi(&f.unk2),
    }
}

/// Compares what the loaded pool shows through its accessors with the model.
pub fn diff_pool(pool: &ConstantPool, m: &Bundle) -> Result<(), String> {
    let n = pool.definitions().count();
    if n + 1 != m.defs.len().max(1) {
        return Err(format!("{} definitions, expected {}", n, m.defs.len() - 1));
    }
    for (idx, def) in pool.definitions() {
        let i = u32::from(idx) as usize;
        let got = view_def(def);
        if got != m.defs[i] {
            return Err(format!("definition {i}: got {:?}, expected {:?}", got, m.defs[i]));
        }
    }
    macro_rules! pool_strings {
        ($p:expr, $want:expr, $what:literal, $first:expr) => {
            for (i, w) in $want.iter().enumerate() {
                let expected = if i == 0 { $first.unwrap_or(w.as_str()) } else { w.as_str() };
                let a = $p.get(PoolIndex::new(i as u32)).map(|s| s.to_string()).map_err(|e| e.to_string());
                let b = $p.get_ref(PoolIndex::new(i as u32)).map(str::to_owned).map_err(|e| e.to_string());
                if a.as_deref() != Ok(expected) || b.as_deref() != Ok(expected) {
                    return Err(format!("{} {i}: got {a:?}/{b:?}, expected {expected:?}", $what));
                }
            }
            let past = $want.len().max(1) as u32;
            if $p.get(PoolIndex::new(past)).is_ok() || $p.get_ref(PoolIndex::new(past)).is_ok() {
                return Err(format!("{} table holds more than {} strings", $what, $want.len()));
            }
        };
    }
    pool_strings!(pool.names, m.names, "name", Some("None"));
    pool_strings!(pool.tweakdb_ids, m.tweaks, "tweakdb id", None::<&str>);
    pool_strings!(pool.resources, m.resources, "resource", None::<&str>);
    pool_strings!(pool.strings, m.strings, "string", None::<&str>);
    Ok(())
}

//! Generators of bundle models.

use pbt::Src;

use crate::model::*;
use crate::ops;

/// Now and then one that is far longer than the others, at the size where a length field would wrap.
pub fn gen_string(s: &mut Src, max: usize) -> String {
    let t = short_string(s, max);
    if max >= 12 && s.chance(1, 300) {
        let n = if s.chance(1, 8) { s.big(65_535) } else { s.big(1100) };
        let mut out = t.clone();
        while out.len() + t.len() + 1 < n {
            out.push_str(&t);
            out.push('x');
        }
        while out.len() < n {
            out.push('y');
        }
        return out;
    }
    t
}

fn short_string(s: &mut Src, max: usize) -> String {
    let n = s.len(max);
    (0..n)
        .map(|_| match s.below(12) {
            0..=7 => (b'a' + s.below(26) as u8) as char,
            8 => *s.pick(&['\\', '/', ';', ':', '"', ' ', '.', '\'', '{', '}', '\t', '\n']),
            9 => *s.pick(&['é', 'ß', 'Ω', 'ж']),
            10 => *s.pick(&['漢', '\u{2028}', '\u{FEFF}']),
            _ => *s.pick(&['😀', '\u{10FFFF}', '\u{1}', '\u{7f}']),
        })
        .collect()
}

/// Text that is almost another one, or almost the name that is not stored.
pub fn near(s: &mut Src, of: &[String]) -> String {
    let base = if of.is_empty() || s.chance(1, 3) { "None".to_owned() } else { s.pick(of).clone() };
    match s.below(5) {
        0 => base.to_lowercase(),
        1 => base.to_uppercase(),
        2 => format!("{base} "),
        3 => base.chars().rev().collect(),
        _ => base.chars().skip(1).collect(),
    }
}

/// A pool of candidate strings, so that the same text turns up in several tables.
pub fn gen_strings(s: &mut Src, shared: &[String], max: usize, distinct: bool) -> Vec<String> {
    let n = s.len(max);
    let mut out: Vec<String> = vec![];
    for _ in 0..n {
        let t = if !shared.is_empty() && s.chance(1, 2) {
            s.pick(shared).clone()
        } else if s.chance(1, 12) {
            near(s, &out)
        } else {
            gen_string(s, 30)
        };
        if distinct && out.contains(&t) {
            continue;
        }
        out.push(t);
    }
    out
}

fn index(s: &mut Src) -> u32 {
    s.bits(32) as u32
}

fn indexes(s: &mut Src, max: usize) -> Vec<u32> {
    let n = s.len(max);
    if s.chance(1, 300) {
        let n = if s.chance(1, 10) { s.big(66_000) } else { s.big(1100) };
        let first = s.bits(20) as u32;
        return (0..n as u32).map(|k| first + k).collect();
    }
    (0..n).map(|_| index(s)).collect()
}

pub fn gen_code(s: &mut Src, max: usize) -> Vec<ops::Ins> {
    let n = s.len(max);
    (0..n).map(|_| ops::gen_ins(s)).collect()
}

fn prop(s: &mut Src) -> (String, String) {
    (gen_string(s, 12), gen_string(s, 20))
}

fn props(s: &mut Src, max: usize) -> Vec<(String, String)> {
    if s.chance(1, 300) {
        return (0..s.big(600)).map(|k| (format!("k{k}"), format!("v{k}"))).collect();
    }
    (0..s.len(max)).map(|_| prop(s)).collect()
}

pub fn gen_val(s: &mut Src) -> Val {
    match s.weighted(&[3, 4, 2, 2, 8, 2, 2, 4, 2]) {
        0 => Val::Type(match s.below(7) {
            0 => Ty::Prim,
            1 => Ty::Class,
            2 => Ty::Ref(index(s)),
            3 => Ty::WeakRef(index(s)),
            4 => Ty::Array(index(s)),
            5 => Ty::StaticArray(index(s), s.bits(32) as u32),
            _ => Ty::ScriptRef(index(s)),
        }),
        1 => Val::Class(Class {
            vis: s.below(3) as u8,
            flags: s.bits(16) as u16,
            base: index(s),
            functions: indexes(s, 20),
            fields: indexes(s, 20),
            overrides: indexes(s, 6),
        }),
        2 => Val::EnumValue(s.bits(64) as i64),
        3 => Val::Enum {
            flags: s.bits(8) as u8,
            size: s.bits(8) as u8,
            members: indexes(s, 20),
            unk1: s.bool(),
        },
        4 => {
            let mut flags = s.bits(32) as u32;
            for bit in [ff::NATIVE, ff::CAST, ff::UNK4] {
                if s.bool() {
                    flags ^= bit;
                }
            }
            let native = flags & ff::NATIVE != 0;
            Val::Function(Fun {
                vis: s.below(3) as u8,
                flags,
                source: if native { None } else { Some((index(s), s.bits(32) as u32)) },
                ret: if s.bool() { Some((index(s), s.bool())) } else { None },
                base_method: if s.chance(1, 3) { Some(index(s)) } else { None },
                params: indexes(s, 8),
                locals: indexes(s, 8),
                operator: if s.chance(1, 4) { Some(s.bits(32) as u32) } else { None },
                cast: if flags & ff::CAST != 0 { s.bits(8) as u8 } else { 0 },
                code: gen_code(s, 40),
                unk2: if flags & ff::UNK4 != 0 { indexes(s, 5) } else { vec![] },
            })
        }
        5 => Val::Parameter {
            ty: index(s),
            flags: s.bits(8) as u8,
        },
        6 => Val::Local {
            ty: index(s),
            flags: s.bits(8) as u8,
        },
        7 => Val::Field(Field {
            vis: s.below(3) as u8,
            ty: index(s),
            flags: s.bits(16) as u16,
            hint: if s.chance(1, 2) { Some(gen_string(s, 20)) } else { None },
            attributes: props(s, 5),
            defaults: props(s, 3),
        }),
        _ => Val::SourceFile {
            id: s.bits(32) as u32,
            hash: s.bits(64),
            path: gen_path(s),
        },
    }
}

/// Paths as stored: backslash-separated, no forward slash; rarely with empty and dot components.
pub fn gen_path(s: &mut Src) -> String {
    let n = s.size(1, 5);
    let mut parts = vec![];
    for _ in 0..n {
        let t: String = gen_string(s, 10)
            .chars()
            .filter(|c| !matches!(c, '/' | '\\'))
            .collect();
        parts.push(if t.is_empty() || t == "." { "x".to_owned() } else { t });
    }
    if s.chance(1, 8) {
        let k = s.idx(parts.len() + 1);
        parts.insert(k, (*s.pick(&["", ".", "..", "C:", "", " "])).to_owned());
    }
    if s.chance(1, 100) {
        parts.extend((0..s.big(1100)).map(|k| format!("p{k}")));
    }
    parts.join("\\")
}

pub fn gen_def(s: &mut Src) -> Def {
    let d = Def {
        name: index(s),
        parent: index(s),
        unk: [s.bits(8) as u8, s.bits(8) as u8, s.bits(8) as u8],
        val: gen_val(s),
    };
    d.normalised()
}

pub fn gen_bundle(s: &mut Src, max_defs: usize, distinct_strings: bool) -> Bundle {
    let shared: Vec<String> = (0..s.len(5)).map(|_| gen_string(s, 12)).collect();
    let n = s.len(max_defs);
    let mut defs = vec![Def::placeholder()];
    for _ in 0..n {
        defs.push(gen_def(s));
    }
    Bundle {
        version: if s.chance(1, 3) { s.bits(32) as u32 } else { 14 },
        flags: s.bits(32) as u32,
        timestamp: s.bits(64).to_le_bytes(),
        unk3: s.bits(32) as u32,
        chunks: s.bits(32) as u32,
        names: gen_strings(s, &shared, 12, distinct_strings),
        tweaks: gen_strings(s, &shared, 8, distinct_strings),
        resources: gen_strings(s, &shared, 8, distinct_strings),
        strings: gen_strings(s, &shared, 8, distinct_strings),
        defs,
    }
}

/// A layout another writer may have chosen.
pub fn gen_layout(s: &mut Src, n_defs: usize) -> Layout {
    let mut order: Vec<usize> = (1..n_defs).collect();
    if s.bool() {
        for i in (1..order.len()).rev() {
            let j = s.idx(i + 1);
            order.swap(i, j);
        }
    }
    let gaps = if s.chance(1, 3) {
        (0..n_defs).map(|_| s.below(4) as u8).collect()
    } else {
        vec![]
    };
    Layout {
        body_order: order,
        gaps,
        dup_strings: s.chance(1, 3),
        junk_hash: if s.chance(1, 3) { s.bits(32) as u32 } else { 0 },
        blank: s.chance(1, 6),
    }
}

/// A count next to a power of two, where a count kept in too few bits goes wrong.
pub fn edge(s: &mut Src, max: usize) -> usize {
    let bits = usize::BITS - max.leading_zeros();
    let p = 1usize << s.below(u64::from(bits) + 1);
    (p + s.idx(3)).saturating_sub(1).min(max)
}

/// A bundle in which one thing is long: a list, a text, a table or the code of a function.
pub fn gen_wide(s: &mut Src) -> (Bundle, String) {
    let mut m = gen_bundle(s, 4, true);
    let kind = s.below(20);
    let n = edge(s, match kind {
        0..=9 => 70_000,
        10..=13 => 65_535,
        14 => 66_000,
        _ => 70_000,
    });
    let list = |s: &mut Src| {
        let stem = s.bits(32) as u32;
        (0..n as u32).map(|i| stem.wrapping_add(i.wrapping_mul(0x9E37))).collect::<Vec<u32>>()
    };
    let text = |s: &mut Src| {
        let wide = s.chance(1, 4);
        let mut t: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        if wide && n > 4 {
            // a character of several bytes at the end
            t.truncate(n - 2);
            t.push('é');
        }
        t
    };
    let mut fun = Fun {
        vis: 0,
        flags: 0,
        source: Some((1, 2)),
        ret: None,
        base_method: None,
        params: vec![],
        locals: vec![],
        operator: None,
        cast: 0,
        code: vec![],
        unk2: vec![],
    };
    let mut class = Class {
        vis: 1,
        flags: 0,
        base: 0,
        functions: vec![],
        fields: vec![],
        overrides: vec![],
    };
    let mut field = Field {
        vis: 2,
        ty: 3,
        flags: 0,
        hint: None,
        attributes: vec![],
        defaults: vec![],
    };
    let props = |k: usize| (0..k.min(20_000)).map(|i| (format!("k{i}"), format!("v{}", i * 7))).collect::<Vec<_>>();
    let val = match kind {
        0 => {
            fun.params = list(s);
            Some(Val::Function(fun))
        }
        1 => {
            fun.locals = list(s);
            Some(Val::Function(fun))
        }
        2 => {
            let motif: Vec<ops::Ins> = (0..s.size(1, 6)).map(|_| ops::gen_ins(s)).collect();
            fun.code = motif.iter().cycle().take(n).cloned().collect();
            Some(Val::Function(fun))
        }
        3 => {
            fun.flags = ff::UNK4;
            fun.unk2 = list(s);
            Some(Val::Function(fun))
        }
        4 => {
            class.functions = list(s);
            Some(Val::Class(class))
        }
        5 => {
            class.fields = list(s);
            Some(Val::Class(class))
        }
        6 => {
            class.overrides = list(s);
            Some(Val::Class(class))
        }
        7 => Some(Val::Enum {
            flags: 1,
            size: 4,
            members: list(s),
            unk1: false,
        }),
        8 => {
            field.attributes = props(n);
            Some(Val::Field(field))
        }
        9 => {
            field.defaults = props(n);
            Some(Val::Field(field))
        }
        10 => {
            field.hint = Some(text(s));
            Some(Val::Field(field))
        }
        11 => {
            field.attributes = vec![(text(s), "v".into())];
            Some(Val::Field(field))
        }
        12 => {
            field.defaults = vec![("k".into(), text(s))];
            Some(Val::Field(field))
        }
        13 => Some(Val::SourceFile {
            id: 1,
            hash: 2,
            path: if n == 0 { "x".into() } else { text(s) },
        }),
        14 => {
            for i in 0..n {
                let v = match i % 3 {
                    0 => Val::EnumValue(i as i64 - 5),
                    1 => Val::Type(Ty::Ref(i as u32)),
                    _ => Val::Local { ty: i as u32, flags: 0 },
                };
                m.defs.push(Def::new(i as u32, (i / 2) as u32, v).normalised());
            }
            None
        }
        15 => {
            let t = text(s);
            for v in [&mut m.names, &mut m.strings, &mut m.tweaks, &mut m.resources] {
                if s.bool() && !v.contains(&t) {
                    v.push(t.clone());
                }
            }
            None
        }
        _ => {
            let v = match kind {
                16 => &mut m.names,
                17 => &mut m.tweaks,
                18 => &mut m.resources,
                _ => &mut m.strings,
            };
            v.clear();
            v.extend((0..n).map(|i| format!("s{i}")));
            None
        }
    };
    if let Some(v) = val {
        let k = s.idx(2);
        m.defs.push(Def::new(k as u32, 0, v).normalised());
        m.defs.push(gen_def(s));
    }
    let what = ["params", "locals", "code", "unk2", "functions", "fields", "overrides", "members", "attributes", "defaults", "hint",
        "attribute text", "default text", "path", "definitions", "table text", "names", "tweakdb ids", "resources", "strings"][kind as usize];
    (m, format!("{n} in {what}"))
}

/// A bundle of the size of the game's own, or larger, in one respect.
pub fn gen_giant(s: &mut Src) -> (Bundle, String) {
    let mut m = gen_bundle(s, 4, true);
    let kind = s.below(5);
    let n;
    match kind {
        0 => {
            n = s.size(200_000, 400_000);
            let protos: Vec<Def> = (0..7)
                .map(|_| loop {
                    let d = gen_def(s);
                    if encode_val(&d.val).len() < 300 {
                        break d;
                    }
                })
                .collect();
            for i in 0..n {
                let mut d = protos[i % protos.len()].clone();
                (d.name, d.parent) = (i as u32, (i / 3) as u32);
                if let Val::EnumValue(v) = &mut d.val {
                    *v = v.wrapping_mul(i as i64);
                }
                m.defs.push(d);
            }
        }
        1 => {
            n = s.size(300_000, 1_100_000);
            let v = match s.below(4) {
                0 => &mut m.names,
                1 => &mut m.tweaks,
                2 => &mut m.resources,
                _ => &mut m.strings,
            };
            v.clear();
            v.extend((0..n).map(|i| format!("text {i}")));
        }
        2 => {
            n = s.size(1_000_000, 1_200_000);
            let v: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(0x9E37_79B1)).collect();
            let val = if s.bool() {
                Val::Enum { flags: 0, size: 4, members: v, unk1: true }
            } else {
                Val::Class(Class { vis: 0, flags: 0, base: 1, functions: v, fields: vec![1], overrides: vec![] })
            };
            m.defs.push(Def::new(1, 0, val).normalised());
            m.defs.push(gen_def(s));
        }
        3 => {
            // more than 16 MB of text, some of it in one string
            n = s.size(17_000_000, 20_000_000);
            let long: String = (0..n - 4_000_000).map(|i| (b'a' + (i % 23) as u8) as char).collect();
            m.strings.clear();
            m.strings.push(long);
            m.strings.extend((0..4000).map(|i| format!("{i}:{}", "z".repeat(1000))));
            m.strings.push("after".into());
        }
        _ => {
            n = s.size(300_000, 1_100_000);
            let motif: Vec<ops::Ins> = (0..s.size(1, 6)).map(|_| ops::gen_ins(s)).collect();
            let fun = Fun {
                vis: 0,
                flags: 0,
                source: Some((1, 70_000)),
                ret: None,
                base_method: None,
                params: vec![3],
                locals: vec![],
                operator: None,
                cast: 0,
                code: motif.iter().cycle().take(n).cloned().collect(),
                unk2: vec![],
            };
            m.defs.push(Def::new(1, 0, Val::Function(fun)).normalised());
            m.defs.push(gen_def(s));
        }
    }
    (m, format!("{n} {}", ["definitions", "texts", "list elements", "bytes of text", "instructions"][kind as usize]))
}

//! Reference table of the instruction set: opcode, operand layout on disk, size in the running game.
//! Written independently of the encoder and decoder under test.

use redscript::bundle::PoolIndex;
use redscript::bytecode::{Breakpoint, Instr, Offset, StartProfiling};
use redscript::decode::Decode;
use redscript::encode::Encode;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ins {
    pub op: u8,
    pub args: Vec<u64>,
    pub text: String,
}

impl Ins {
    pub fn new(op: u8, args: &[u64]) -> Ins {
        Ins {
            op,
            args: args.to_vec(),
            text: String::new(),
        }
    }
    pub fn name(&self) -> &'static str {
        SPEC[self.op as usize].0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    N8,
    N16,
    N32,
    N64,
    /// pool index: 4 bytes on disk, 8 in the running game
    Ix,
    /// index of a string literal: 4 bytes in both
    Sx,
    /// jump displacement, stored relative to the end of its own field plus whatever precedes it
    Of(i16),
}
use K::*;

pub const OP_BREAKPOINT: u8 = 21;
pub const OP_TARGET: u8 = 23;
pub const OP_PROFILE: u8 = 51;

pub const SPEC: [(&str, &[K]); 104] = [
    ("Nop", &[]),
    ("Null", &[]),
    ("I32One", &[]),
    ("I32Zero", &[]),
    ("I8Const", &[N8]),
    ("I16Const", &[N16]),
    ("I32Const", &[N32]),
    ("I64Const", &[N64]),
    ("U8Const", &[N8]),
    ("U16Const", &[N16]),
    ("U32Const", &[N32]),
    ("U64Const", &[N64]),
    ("F32Const", &[N32]),
    ("F64Const", &[N64]),
    ("NameConst", &[Ix]),
    ("EnumConst", &[Ix, Ix]),
    ("StringConst", &[Sx]),
    ("TweakDbIdConst", &[Ix]),
    ("ResourceConst", &[Ix]),
    ("TrueConst", &[]),
    ("FalseConst", &[]),
    ("Breakpoint", &[N16, N32, N16, N16, N8, N64]),
    ("Assign", &[]),
    ("Target", &[]),
    ("Local", &[Ix]),
    ("Param", &[Ix]),
    ("ObjectField", &[Ix]),
    ("ExternalVar", &[]),
    ("Switch", &[Ix, Of(11)]),
    ("SwitchLabel", &[Of(3), Of(5)]),
    ("SwitchDefault", &[]),
    ("Jump", &[Of(3)]),
    ("JumpIfFalse", &[Of(3)]),
    ("Skip", &[Of(3)]),
    ("Conditional", &[Of(3), Of(5)]),
    ("Construct", &[N8, Ix]),
    ("InvokeStatic", &[Of(3), N16, Ix, N16]),
    ("InvokeVirtual", &[Of(3), N16, Ix, N16]),
    ("ParamEnd", &[]),
    ("Return", &[]),
    ("StructField", &[Ix]),
    ("Context", &[Of(3)]),
    ("Equals", &[Ix]),
    ("RefStringEqualsString", &[Ix]),
    ("StringEqualsRefString", &[Ix]),
    ("NotEquals", &[Ix]),
    ("RefStringNotEqualsString", &[Ix]),
    ("StringNotEqualsRefString", &[Ix]),
    ("New", &[Ix]),
    ("Delete", &[]),
    ("This", &[]),
    ("StartProfiling", &[]),
    ("ArrayClear", &[Ix]),
    ("ArraySize", &[Ix]),
    ("ArrayResize", &[Ix]),
    ("ArrayFindFirst", &[Ix]),
    ("ArrayFindFirstFast", &[Ix]),
    ("ArrayFindLast", &[Ix]),
    ("ArrayFindLastFast", &[Ix]),
    ("ArrayContains", &[Ix]),
    ("ArrayContainsFast", &[Ix]),
    ("ArrayCount", &[Ix]),
    ("ArrayCountFast", &[Ix]),
    ("ArrayPush", &[Ix]),
    ("ArrayPop", &[Ix]),
    ("ArrayInsert", &[Ix]),
    ("ArrayRemove", &[Ix]),
    ("ArrayRemoveFast", &[Ix]),
    ("ArrayGrow", &[Ix]),
    ("ArrayErase", &[Ix]),
    ("ArrayEraseFast", &[Ix]),
    ("ArrayLast", &[Ix]),
    ("ArrayElement", &[Ix]),
    ("ArraySort", &[Ix]),
    ("ArraySortByPredicate", &[Ix]),
    ("StaticArraySize", &[Ix]),
    ("StaticArrayFindFirst", &[Ix]),
    ("StaticArrayFindFirstFast", &[Ix]),
    ("StaticArrayFindLast", &[Ix]),
    ("StaticArrayFindLastFast", &[Ix]),
    ("StaticArrayContains", &[Ix]),
    ("StaticArrayContainsFast", &[Ix]),
    ("StaticArrayCount", &[Ix]),
    ("StaticArrayCountFast", &[Ix]),
    ("StaticArrayLast", &[Ix]),
    ("StaticArrayElement", &[Ix]),
    ("RefToBool", &[]),
    ("WeakRefToBool", &[]),
    ("EnumToI32", &[Ix, N8]),
    ("I32ToEnum", &[Ix, N8]),
    ("DynamicCast", &[Ix, N8]),
    ("ToString", &[Ix]),
    ("ToVariant", &[Ix]),
    ("FromVariant", &[Ix]),
    ("VariantIsDefined", &[]),
    ("VariantIsRef", &[]),
    ("VariantIsArray", &[]),
    ("VariantTypeName", &[]),
    ("VariantToString", &[]),
    ("WeakRefToRef", &[]),
    ("RefToWeakRef", &[]),
    ("WeakRefNull", &[]),
    ("AsRef", &[Ix]),
    ("Deref", &[Ix]),
];

pub fn op(name: &str) -> u8 {
    SPEC.iter().position(|(n, _)| *n == name).unwrap_or_else(|| panic!("no op {name}")) as u8
}

/// Space the instruction takes up in the running game (what jump distances are measured in).
pub fn runtime_size(i: &Ins) -> u32 {
    if i.op == OP_TARGET {
        return 0;
    }
    if i.op == OP_PROFILE {
        return 1 + 4 + i.text.len() as u32 + 1;
    }
    1 + SPEC[i.op as usize]
        .1
        .iter()
        .map(|k| match k {
            N8 => 1,
            N16 | Of(_) => 2,
            N32 | Sx => 4,
            N64 | Ix => 8,
        })
        .sum::<u32>()
}

pub fn encode_ins(i: &Ins, out: &mut Vec<u8>) {
    out.push(i.op);
    if i.op == OP_PROFILE {
        out.extend((i.text.len() as u32).to_le_bytes());
        out.extend(i.text.as_bytes());
        out.push(i.args[0] as u8);
        return;
    }
    let spec = SPEC[i.op as usize].1;
    for (k, v) in spec.iter().zip(&i.args) {
        match k {
            N8 => out.push(*v as u8),
            N16 => out.extend((*v as u16).to_le_bytes()),
            N32 | Ix | Sx => out.extend((*v as u32).to_le_bytes()),
            N64 => out.extend(v.to_le_bytes()),
            Of(b) => out.extend((*v as i16).wrapping_sub(*b).to_le_bytes()),
        }
    }
}

pub fn decode_ins(b: &[u8], pos: &mut usize) -> Result<Ins, String> {
    let mut take = |n: usize| -> Result<Vec<u8>, String> {
        let end = *pos + n;
        if end > b.len() {
            return Err("instruction runs past its container".into());
        }
        let r = b[*pos..end].to_vec();
        *pos = end;
        Ok(r)
    };
    let op = take(1)?[0];
    if op as usize >= SPEC.len() {
        return Err(format!("unknown opcode {op}"));
    }
    if op == OP_PROFILE {
        let n = u32::from_le_bytes(take(4)?.try_into().unwrap());
        let text = String::from_utf8(take(n as usize)?).map_err(|e| e.to_string())?;
        let f = take(1)?[0];
        return Ok(Ins {
            op,
            args: vec![u64::from(f)],
            text,
        });
    }
    let mut args = vec![];
    for k in SPEC[op as usize].1 {
        args.push(match k {
            N8 => u64::from(take(1)?[0]),
            N16 => u64::from(u16::from_le_bytes(take(2)?.try_into().unwrap())),
            N32 | Ix | Sx => u64::from(u32::from_le_bytes(take(4)?.try_into().unwrap())),
            N64 => u64::from_le_bytes(take(8)?.try_into().unwrap()),
            Of(bias) => {
                let v = i16::from_le_bytes(take(2)?.try_into().unwrap());
                off_raw(v.wrapping_add(*bias))
            }
        });
    }
    Ok(Ins {
        op,
        args,
        text: String::new(),
    })
}

pub fn off_raw(v: i16) -> u64 {
    u64::from(v as u16)
}

trait Opd {
    fn from_raw(v: u64) -> Self;
    fn to_raw(&self) -> u64;
}
macro_rules! opd_int {
    ($($t:ty as $u:ty),*) => {$(
        impl Opd for $t {
            fn from_raw(v: u64) -> Self { v as $t }
            fn to_raw(&self) -> u64 { u64::from(*self as $u) }
        }
    )*};
}
opd_int!(i8 as u8, i16 as u16, i32 as u32, i64 as u64, u8 as u8, u16 as u16, u32 as u32, u64 as u64);
impl Opd for f32 {
    fn from_raw(v: u64) -> Self {
        f32::from_bits(v as u32)
    }
    fn to_raw(&self) -> u64 {
        u64::from(self.to_bits())
    }
}
impl Opd for f64 {
    fn from_raw(v: u64) -> Self {
        f64::from_bits(v)
    }
    fn to_raw(&self) -> u64 {
        self.to_bits()
    }
}
impl<A> Opd for PoolIndex<A> {
    fn from_raw(v: u64) -> Self {
        PoolIndex::new(v as u32)
    }
    fn to_raw(&self) -> u64 {
        u64::from(u32::from(*self))
    }
}
impl Opd for Offset {
    fn from_raw(v: u64) -> Self {
        Offset::new(v as i16)
    }
    fn to_raw(&self) -> u64 {
        off_raw(self.value)
    }
}

pub fn mk_breakpoint(args: &[u64]) -> Breakpoint {
    let mut b = vec![];
    b.extend((args[0] as u16).to_le_bytes());
    b.extend((args[1] as u32).to_le_bytes());
    b.extend((args[2] as u16).to_le_bytes());
    b.extend((args[3] as u16).to_le_bytes());
    b.push(args[4] as u8);
    b.extend(args[5].to_le_bytes());
    Breakpoint::decode(&mut b.as_slice()).expect("breakpoint operand bytes decode")
}

pub fn mk_profiling(text: &str, flag: u8) -> StartProfiling {
    let mut b = vec![];
    b.extend((text.len() as u32).to_le_bytes());
    b.extend(text.as_bytes());
    b.push(flag);
    StartProfiling::decode(&mut b.as_slice()).expect("profiling operand bytes decode")
}

macro_rules! table {
    ($( $op:literal $name:ident $( ( $($v:ident),* ) )? ;)*) => {
        pub fn to_instr(i: &Ins) -> Instr<Offset> {
            #[allow(unused_mut, unused_variables)]
            let mut it = i.args.iter().copied();
            match i.op {
                21 => Instr::Breakpoint(Box::new(mk_breakpoint(&i.args))),
                23 => Instr::Target(Offset::new(0)),
                51 => Instr::StartProfiling(Box::new(mk_profiling(&i.text, i.args[0] as u8))),
                $( $op => {
                    $( $( let $v = Opd::from_raw(it.next().unwrap()); )* )?
                    Instr::$name $( ( $($v),* ) )?
                } )*
                _ => unreachable!(),
            }
        }

        pub fn from_instr(i: &Instr<Offset>) -> Ins {
            match i {
                Instr::Breakpoint(bp) => {
                    let mut b = vec![OP_BREAKPOINT];
                    bp.encode(&mut b).unwrap();
                    let mut p = 0;
                    decode_ins(&b, &mut p).unwrap()
                }
                Instr::Target(_) => Ins::new(OP_TARGET, &[]),
                Instr::StartProfiling(sp) => {
                    let mut b = vec![OP_PROFILE];
                    sp.encode(&mut b).unwrap();
                    let mut p = 0;
                    decode_ins(&b, &mut p).unwrap()
                }
                $( Instr::$name $( ( $($v),* ) )? => Ins::new($op, &[ $( $( Opd::to_raw($v) ),* )? ]), )*
            }
        }
    };
}

table! {
    0 Nop; 1 Null; 2 I32One; 3 I32Zero;
    4 I8Const(a); 5 I16Const(a); 6 I32Const(a); 7 I64Const(a);
    8 U8Const(a); 9 U16Const(a); 10 U32Const(a); 11 U64Const(a);
    12 F32Const(a); 13 F64Const(a); 14 NameConst(a); 15 EnumConst(a, b);
    16 StringConst(a); 17 TweakDbIdConst(a); 18 ResourceConst(a);
    19 TrueConst; 20 FalseConst; 22 Assign;
    24 Local(a); 25 Param(a); 26 ObjectField(a); 27 ExternalVar;
    28 Switch(a, b); 29 SwitchLabel(a, b); 30 SwitchDefault;
    31 Jump(a); 32 JumpIfFalse(a); 33 Skip(a); 34 Conditional(a, b);
    35 Construct(a, b); 36 InvokeStatic(a, b, c, d); 37 InvokeVirtual(a, b, c, d);
    38 ParamEnd; 39 Return; 40 StructField(a); 41 Context(a);
    42 Equals(a); 43 RefStringEqualsString(a); 44 StringEqualsRefString(a);
    45 NotEquals(a); 46 RefStringNotEqualsString(a); 47 StringNotEqualsRefString(a);
    48 New(a); 49 Delete; 50 This;
    52 ArrayClear(a); 53 ArraySize(a); 54 ArrayResize(a);
    55 ArrayFindFirst(a); 56 ArrayFindFirstFast(a); 57 ArrayFindLast(a); 58 ArrayFindLastFast(a);
    59 ArrayContains(a); 60 ArrayContainsFast(a); 61 ArrayCount(a); 62 ArrayCountFast(a);
    63 ArrayPush(a); 64 ArrayPop(a); 65 ArrayInsert(a); 66 ArrayRemove(a); 67 ArrayRemoveFast(a);
    68 ArrayGrow(a); 69 ArrayErase(a); 70 ArrayEraseFast(a); 71 ArrayLast(a); 72 ArrayElement(a);
    73 ArraySort(a); 74 ArraySortByPredicate(a);
    75 StaticArraySize(a); 76 StaticArrayFindFirst(a); 77 StaticArrayFindFirstFast(a);
    78 StaticArrayFindLast(a); 79 StaticArrayFindLastFast(a);
    80 StaticArrayContains(a); 81 StaticArrayContainsFast(a);
    82 StaticArrayCount(a); 83 StaticArrayCountFast(a); 84 StaticArrayLast(a); 85 StaticArrayElement(a);
    86 RefToBool; 87 WeakRefToBool; 88 EnumToI32(a, b); 89 I32ToEnum(a, b); 90 DynamicCast(a, b);
    91 ToString(a); 92 ToVariant(a); 93 FromVariant(a);
    94 VariantIsDefined; 95 VariantIsRef; 96 VariantIsArray; 97 VariantTypeName; 98 VariantToString;
    99 WeakRefToRef; 100 RefToWeakRef; 101 WeakRefNull; 102 AsRef(a); 103 Deref(a);
}

/// A random instruction (never Target, which has no on-disk form).
pub fn gen_ins(s: &mut pbt::Src) -> Ins {
    let mut op = s.below(104) as u8;
    if op == OP_TARGET {
        op = 0;
    }
    gen_ins_op(s, op)
}

pub fn gen_ins_op(s: &mut pbt::Src, op: u8) -> Ins {
    if op == OP_PROFILE {
        let n = if s.chance(1, 30) { s.big(1100) } else { s.size(0, 40) };
        let wide = s.chance(1, 3);
        let text: String = (0..n)
            .map(|_| {
                if wide && s.chance(1, 3) {
                    *s.pick(&['é', 'ł', '中', '🦀', ';', ':', ' '])
                } else {
                    (b'a' + s.below(26) as u8) as char
                }
            })
            .collect();
        return Ins {
            op,
            args: vec![s.bits(8)],
            text,
        };
    }
    let mut args = vec![];
    for (j, k) in SPEC[op as usize].1.iter().enumerate() {
        args.push(match k {
            N8 => {
                if op == OP_BREAKPOINT && j == 4 {
                    s.below(2)
                } else {
                    s.bits(8)
                }
            }
            N16 => s.bits(16),
            N32 | Ix | Sx => s.bits(32),
            N64 => s.bits(64),
            // displacements whose stored form fits in 16 bits
            Of(b) => {
                let stored = s.bits(16) as i16;
                off_raw(stored.max(i16::MIN).min(i16::MAX - *b) + *b)
            }
        });
    }
    Ins::new(op, &args)
        .with_text(String::new())
}

impl Ins {
    fn with_text(mut self, t: String) -> Ins {
        self.text = t;
        self
    }
}

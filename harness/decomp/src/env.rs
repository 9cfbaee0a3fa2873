//! A pool to generate code in, and an emitter that produces bytecode and the tree it stands for
//! at the same time, in the layout the compiler of this repository (and of the game) uses.

use pbt::Src;
use redscript::bundle::{CName, ConstantPool, PoolIndex};
use redscript::bytecode::{Code, Instr, Label, Location, Offset};
use redscript::decode::Decode;
use redscript::definition::*;

use crate::tree::*;

pub const BINOPS: [(&str, &str); 22] = [
    ("OperatorAssignAdd", "+="),
    ("OperatorAssignSubtract", "-="),
    ("OperatorAssignMultiply", "*="),
    ("OperatorAssignDivide", "/="),
    ("OperatorAssignOr", "|="),
    ("OperatorAssignAnd", "&="),
    ("OperatorLogicOr", "||"),
    ("OperatorLogicAnd", "&&"),
    ("OperatorOr", "|"),
    ("OperatorXor", "^"),
    ("OperatorAnd", "&"),
    ("OperatorEqual", "=="),
    ("OperatorNotEqual", "!="),
    ("OperatorLess", "<"),
    ("OperatorLessEqual", "<="),
    ("OperatorGreater", ">"),
    ("OperatorGreaterEqual", ">="),
    ("OperatorAdd", "+"),
    ("OperatorSubtract", "-"),
    ("OperatorMultiply", "*"),
    ("OperatorDivide", "/"),
    ("OperatorModulo", "%"),
];
pub const UNOPS: [(&str, &str); 3] = [
    ("OperatorBitNot", "~"),
    ("OperatorLogicNot", "!"),
    ("OperatorNeg", "-"),
];

type Ix<A> = PoolIndex<A>;

#[derive(Clone)]
pub struct Fun {
    pub idx: Ix<Function>,
    pub name: String,
    pub name_idx: Ix<CName>,
    pub class: Option<usize>,
    pub is_static: bool,
    pub arity: usize,
    /// which parameters are evaluated lazily
    pub lazy: Vec<bool>,
    pub ret: Option<String>,
}

pub struct Cls {
    pub idx: Ix<Class>,
    pub name: String,
    pub fields: Vec<(Ix<Field>, String)>,
}

pub struct Env {
    pub pool: ConstantPool,
    /// (index, pretty name)
    pub types: Vec<(Ix<Type>, String)>,
    pub classes: Vec<Cls>,
    pub structs: Vec<Cls>,
    pub enums: Vec<(Ix<Enum>, String, Vec<(Ix<i64>, String)>)>,
    pub globals: Vec<Fun>,
    pub casts: Vec<Fun>,
    pub binops: Vec<Fun>,
    pub unops: Vec<Fun>,
    pub methods: Vec<Fun>,
}

pub fn no_fun() -> Function {
    Function {
        visibility: Visibility::Public,
        flags: FunctionFlags::new(),
        source: None,
        return_type: None,
        unk1: false,
        base_method: None,
        parameters: vec![],
        locals: vec![],
        operator: None,
        cast: 0,
        code: Code::EMPTY,
        unk2: vec![],
    }
}

pub const PRETTY: [(&str, &str); 9] = [
    ("Int32", "Int32"),
    ("Bool", "Bool"),
    ("Float", "Float"),
    ("String", "String"),
    ("ref:K0", "ref<K0>"),
    ("wref:K1", "wref<K1>"),
    ("array:Int32", "array<Int32>"),
    ("script_ref:array:ref:K0", "script_ref<array<ref<K0>>>"),
    ("E0", "E0"),
];

impl Env {
    pub fn new(s: &mut Src) -> Env {
        let mut pool = ConstantPool::default();
        pool.names.add("<filler>".into());
        pool.reserve::<Definition>();
        let mut e = Env {
            pool,
            types: vec![],
            classes: vec![],
            structs: vec![],
            enums: vec![],
            globals: vec![],
            casts: vec![],
            binops: vec![],
            unops: vec![],
            methods: vec![],
        };
        for (repr, pretty) in PRETTY {
            e.add_type(repr, pretty);
        }
        for k in 0..3 {
            let c = e.add_class(&format!("K{k}"), k > 0, false, 2);
            e.classes.push(c);
        }
        for k in 0..2 {
            let c = e.add_class(&format!("S{k}"), false, true, 2);
            e.structs.push(c);
        }
        for k in 0..2 {
            let name = format!("E{k}");
            let n = e.pool.names.add(name.as_str().into());
            let idx: Ix<Enum> = e.pool.reserve();
            let mut members = vec![];
            for m in 0..3 {
                let mn = format!("E{k}_V{m}");
                let nm = e.pool.names.add(mn.as_str().into());
                members.push((e.pool.add_definition(Definition::enum_value(nm, idx, m)), mn));
            }
            e.pool.put_definition(
                idx,
                Definition::enum_(
                    n,
                    Enum {
                        flags: 0,
                        size: 4,
                        members: members.iter().map(|(i, _)| *i).collect(),
                        unk1: false,
                    },
                ),
            );
            e.enums.push((idx, name, members));
        }
        for (n, _) in BINOPS {
            let f = e.add_fun(&format!("{n};Int32Int32;Int32"), None, true, vec![false; 2], Some(0));
            e.binops.push(f);
        }
        for (n, _) in UNOPS {
            let f = e.add_fun(&format!("{n};Int32;Int32"), None, true, vec![false], Some(0));
            e.unops.push(f);
        }
        for (i, ty) in [0usize, 2, 6].iter().enumerate() {
            let f = e.add_fun(&format!("Cast;T{i}"), None, true, vec![false], Some(*ty));
            e.casts.push(f);
        }
        for k in 0..3 {
            let arity = if s.chance(1, 60) { s.big(40) } else { s.idx(4) };
            let lazy = (0..arity).map(|_| s.chance(1, 4)).collect();
            let name = if k == 2 { "Castle;".to_owned() } else { format!("G{k};Int32") };
            let f = e.add_fun(&name, None, true, lazy, None);
            e.globals.push(f);
        }
        // the same few method names in several classes, so that overrides and coincidences arise
        for class in 0..3 {
            for k in 0..3 {
                let is_static = k == 2 || s.chance(1, 6);
                let arity = if s.chance(1, 4) { s.idx(6) } else { s.idx(3) };
                let lazy = (0..arity).map(|_| s.chance(1, 5)).collect();
                let f = e.add_fun(&format!("M{k};Int32"), Some(class), is_static, lazy, None);
                if s.chance(1, 3) {
                    // how a function is declared doesn't change how a call of it is written
                    let bits = s.below(64);
                    let def = e.pool.function_mut(f.idx).expect("function");
                    def.flags = def
                        .flags
                        .with_is_final(bits & 1 != 0)
                        .with_is_native(bits & 2 != 0)
                        .with_is_callback(bits & 4 != 0)
                        .with_is_const(bits & 8 != 0)
                        .with_is_exec(bits & 16 != 0)
                        .with_is_quest(bits & 32 != 0);
                    def.visibility = [Visibility::Public, Visibility::Protected, Visibility::Private][bits as usize % 3];
                }
                e.methods.push(f);
            }
        }
        e
    }

    pub fn add_type(&mut self, repr: &str, pretty: &str) -> Ix<Type> {
        let n = self.pool.names.add(repr.into());
        let idx = self.pool.add_definition(Definition::type_(n, Type::Prim));
        self.types.push((idx, pretty.to_owned()));
        idx
    }

    fn add_class(&mut self, name: &str, has_base: bool, is_struct: bool, fields: usize) -> Cls {
        let n = self.pool.names.add(name.into());
        let idx: Ix<Class> = self.pool.reserve();
        let mut fs = vec![];
        for i in 0..fields {
            let fname = format!("{}_f{i}", name.to_lowercase());
            let fname_idx = self.pool.names.add(fname.as_str().into());
            let f = self.pool.add_definition(Definition::field(
                fname_idx,
                idx,
                Field {
                    visibility: Visibility::Public,
                    type_: self.types[0].0,
                    flags: FieldFlags::new(),
                    hint: None,
                    attributes: vec![],
                    defaults: vec![],
                },
            ));
            fs.push((f, fname));
        }
        let base = if has_base {
            self.classes.last().map_or(PoolIndex::UNDEFINED, |c| c.idx)
        } else {
            PoolIndex::UNDEFINED
        };
        self.pool.put_definition(
            idx,
            Definition::class(
                n,
                Class {
                    visibility: Visibility::Public,
                    flags: ClassFlags::new().with_is_struct(is_struct),
                    base,
                    functions: vec![],
                    fields: fs.iter().map(|(i, _)| *i).collect(),
                    overrides: vec![],
                },
            ),
        );
        Cls {
            idx,
            name: name.to_owned(),
            fields: fs,
        }
    }

    pub fn add_fun(
        &mut self,
        name: &str,
        class: Option<usize>,
        is_static: bool,
        lazy: Vec<bool>,
        ret: Option<usize>,
    ) -> Fun {
        let name_idx = self.pool.names.add(name.into());
        let idx: Ix<Function> = self.pool.reserve();
        let mut params = vec![];
        for (i, l) in lazy.iter().enumerate() {
            let pn = self.pool.names.add(format!("p{i}").as_str().into());
            let p = Parameter {
                type_: self.types[0].0,
                flags: ParameterFlags::new().with_is_short_circuit(*l),
            };
            params.push(self.pool.add_definition(Definition::param(pn, idx, p)));
        }
        let parent = class.map_or(PoolIndex::UNDEFINED, |c| self.classes[c].idx);
        let f = Function {
            flags: FunctionFlags::new().with_is_static(is_static),
            parameters: params,
            return_type: ret.map(|r| self.types[r].0),
            ..no_fun()
        };
        self.pool.put_definition(idx, Definition::function(name_idx, parent, f));
        if let Some(c) = class {
            self.pool
                .class_mut(self.classes[c].idx)
                .expect("class")
                .functions
                .push(idx);
        }
        Fun {
            idx,
            name: name.to_owned(),
            name_idx,
            class,
            is_static,
            arity: lazy.len(),
            lazy,
            ret: ret.map(|r| self.types[r].1.clone()),
        }
    }
}

/// The function being generated.
pub struct Emit<'e> {
    pub env: &'e mut Env,
    pub code: Vec<Instr<Label>>,
    labels: usize,
    pub me: Fun,
    pub params: Vec<(Ix<Parameter>, String)>,
    pub locals: Vec<(Ix<Local>, String, String)>,
    pub next_leaf: i32,
    fuel: usize,
    pub rich: bool,
    /// levels of nesting along one spine of the statements; 0: ordinary programs
    deep: usize,
    /// nesting of expressions
    edepth: usize,
    /// now and then a block or switch of up to so many statements or cases
    wide: usize,
    pub stats: Stats,
    /// loops of the programs may be continued from anywhere in their body
    pub continues: bool,
    tops: Vec<Label>,
}

#[derive(Default)]
pub struct Stats {
    pub loops: usize,
    pub switches: usize,
    pub ifs: usize,
    pub breaks: usize,
    pub continues: usize,
    pub returns: usize,
    pub exprs: usize,
    pub ops: usize,
    pub max_depth: usize,
}

fn breakpoint(s: &mut Src) -> Instr<Label> {
    // line, line start, column, length, enabled, padding
    let mut bytes = vec![];
    bytes.extend((s.below(1000) as u16).to_le_bytes());
    bytes.extend([0u8; 4]);
    bytes.extend([0u8; 2]);
    bytes.extend([0u8; 2]);
    bytes.push(1);
    bytes.extend([0u8; 8]);
    let bp = Decode::decode(&mut std::io::Cursor::new(bytes)).expect("breakpoint");
    Instr::Breakpoint(Box::new(bp))
}

fn profiling() -> Instr<Label> {
    let mut bytes = vec![];
    bytes.extend(3u32.to_le_bytes());
    bytes.extend(b"abc");
    bytes.push(1);
    let p = Decode::decode(&mut std::io::Cursor::new(bytes)).expect("profiling");
    Instr::StartProfiling(Box::new(p))
}

pub fn gen_text(s: &mut Src) -> String {
    let n = s.len(8);
    (0..n)
        .map(|_| match s.below(10) {
            0..=5 => (b'a' + s.below(26) as u8) as char,
            6 => *s.pick(&[' ', '.', '"', '\'', '\\', '/', '\n', '\t', '\r']),
            7 => *s.pick(&['é', 'Ω', '漢']),
            8 => *s.pick(&['{', '}', '(', ')', ';', ',']),
            _ => *s.pick(&['😀', '\u{1}', '\u{7f}', '\u{10FFFF}', '\0', '\u{200b}', '\u{feff}', '\u{301}', '\u{85}', '\u{2028}']),
        })
        .collect()
}

impl<'e> Emit<'e> {
    /// `class`: index of the class the function belongs to, None for a global function.
    pub fn new(s: &mut Src, env: &'e mut Env, class: Option<usize>, rich: bool, fuel: usize) -> Emit<'e> {
        let is_static = class.is_none() || s.chance(1, 5);
        let name = match (class, s.below(3)) {
            (Some(_), 0) => "M0;Int32".to_owned(),
            (Some(_), 1) => "M1;Int32".to_owned(),
            _ => "Main;".to_owned(),
        };
        // a class does not hold two functions of one name
        let existing = env
            .methods
            .iter()
            .find(|f| f.class == class && class.is_some() && f.name == name)
            .cloned();
        let me = match existing {
            Some(f) => f,
            None => {
                let lazy = vec![false; if s.chance(1, 60) { s.big(70) } else { s.idx(3) }];
                env.add_fun(&name, class, is_static, lazy, None)
            }
        };
        let mut locals = vec![];
        let n = if s.chance(1, 60) { s.big(140) } else { s.idx(4) };
        for i in 0..n {
            let ty = s.idx(env.types.len());
            let lname = *s.pick(&["x", "y", "acc", "tmp", "_v", "__", "aB_", "T"]);
            let lname = format!("{lname}{i}");
            let ln = env.pool.names.add(lname.as_str().into());
            let l = env.pool.add_definition(Definition::local(
                ln,
                me.idx,
                Local::new(env.types[ty].0, LocalFlags::new()),
            ));
            locals.push((l, lname, env.types[ty].1.clone()));
        }
        let params: Vec<(Ix<Parameter>, String)> = env
            .pool
            .function(me.idx)
            .expect("me")
            .parameters
            .iter()
            .enumerate()
            .map(|(i, p)| (*p, format!("p{i}")))
            .collect();
        env.pool.function_mut(me.idx).expect("me").locals = locals.iter().map(|l| l.0).collect();
        // rarely, programs of unusual shape
        let (mut deep, mut edepth, mut wide) = (0, 7, 0);
        match s.below(60) {
            0 | 1 => deep = s.size(6, 40),
            2 | 3 => edepth = s.size(8, 40),
            4 => wide = s.big(300),
            _ => {}
        }
        Emit {
            env,
            code: vec![],
            labels: 0,
            me,
            params,
            locals,
            next_leaf: 0,
            fuel: fuel + if edepth > 7 { 40 } else { 0 },
            rich,
            deep,
            edepth,
            wide,
            stats: Stats::default(),
            continues: false,
            tops: vec![],
        }
    }

    fn label(&mut self) -> Label {
        self.labels += 1;
        Label { index: self.labels - 1 }
    }

    fn i(&mut self, i: Instr<Label>) {
        self.code.push(i);
    }

    fn place(&mut self, l: &Label) {
        self.code.push(Instr::Target(l.clone()));
    }

    pub fn finish(mut self) -> (Ix<Function>, Stats) {
        self.i(Instr::Nop);
        let mut at = vec![Location::new(0); self.labels];
        let code = Code::new(self.code);
        let mut pos = 0u16;
        for ins in code.as_ref() {
            match ins {
                Instr::Target(l) => at[l.index] = Location::new(pos),
                other => pos += other.size(),
            }
        }
        let mut pos = 0u16;
        let mut out: Vec<Instr<Offset>> = vec![];
        for ins in code.as_ref() {
            if matches!(ins, Instr::Target(_)) {
                continue;
            }
            let size = ins.size();
            out.push(ins.clone().resolve_labels(Location::new(pos), &at));
            pos += size;
        }
        let f = self.env.pool.function_mut(self.me.idx).expect("me");
        f.code = Code::new(out);
        f.flags = f.flags.with_has_body(true);
        (self.me.idx, self.stats)
    }

    // ---- expressions -------------------------------------------------------------------------

    pub fn leaf_call(&mut self, f: &str) -> T {
        let n = self.next_leaf;
        self.next_leaf += 1;
        let fun = match self.env.globals.iter().find(|g| g.name == f) {
            Some(g) => g.clone(),
            None => {
                let g = self.env.add_fun(f, None, true, vec![false], Some(1));
                self.env.globals.push(g.clone());
                g
            }
        };
        let exit = self.label();
        self.i(Instr::InvokeStatic(exit.clone(), 0, fun.idx, 0));
        self.i(Instr::I32Const(n));
        self.i(Instr::ParamEnd);
        self.place(&exit);
        T::Call(f.to_owned(), vec![], vec![T::Const(K::I32(n))])
    }

    fn konst(&mut self, s: &mut Src) -> T {
        let (i, kk) = match s.below(18) {
            0 => {
                let v = s.bits(32) as u32 as i32;
                (Instr::I32Const(v), K::I32(v))
            }
            1 => (Instr::I32Zero, K::I32(0)),
            2 => (Instr::I32One, K::I32(1)),
            3 => {
                let v = s.bits(8) as u8 as i8;
                (Instr::I8Const(v), K::I32(v.into()))
            }
            4 => {
                let v = s.bits(16) as u16 as i16;
                (Instr::I16Const(v), K::I32(v.into()))
            }
            5 => {
                let v = s.bits(64) as i64;
                (Instr::I64Const(v), K::I64(v))
            }
            6 => {
                let v = s.bits(8) as u8;
                (Instr::U8Const(v), K::U32(v.into()))
            }
            7 => {
                let v = s.bits(16) as u16;
                (Instr::U16Const(v), K::U32(v.into()))
            }
            8 => {
                let v = s.bits(32) as u32;
                (Instr::U32Const(v), K::U32(v))
            }
            9 => {
                let v = s.bits(64);
                (Instr::U64Const(v), K::U64(v))
            }
            10 => {
                let v = match s.below(4) {
                    0 => s.range(-1000, 1000) as f32,
                    1 => s.range(-100_000, 100_000) as f32 / 100.0,
                    2 => s.range(-100_000, 100_000) as f32 / 4096.0,
                    _ => f32::from_bits(s.bits(32) as u32),
                };
                let v = if v.is_finite() { v } else { 0.5 };
                (Instr::F32Const(v), K::F32(v.to_bits()))
            }
            11 => {
                let v = match s.below(4) {
                    0 => s.range(-1000, 1000) as f64,
                    1 => s.range(-100_000, 100_000) as f64 / 100.0,
                    2 => s.range(-100_000, 100_000) as f64 / 4096.0,
                    _ => f64::from_bits(s.bits(64)),
                };
                let v = if v.is_finite() { v } else { 0.5 };
                (Instr::F64Const(v), K::F64(v.to_bits()))
            }
            12 => {
                let t = gen_text(s);
                (Instr::StringConst(self.env.pool.strings.add(t.as_str().into())), K::Str('s', t))
            }
            13 => {
                let t = gen_text(s);
                (Instr::NameConst(self.env.pool.names.add(t.as_str().into())), K::Str('n', t))
            }
            14 => {
                let t = gen_text(s);
                (
                    Instr::TweakDbIdConst(self.env.pool.tweakdb_ids.add(t.as_str().into())),
                    K::Str('t', t),
                )
            }
            15 => {
                let t = gen_text(s);
                (
                    Instr::ResourceConst(self.env.pool.resources.add(t.as_str().into())),
                    K::Str('r', t),
                )
            }
            16 => (Instr::TrueConst, K::Bool(true)),
            _ => (Instr::FalseConst, K::Bool(false)),
        };
        self.i(i);
        T::Const(kk)
    }

    fn atom(&mut self, s: &mut Src) -> T {
        loop {
            match s.weighted(&[3, 3, 4, 2, 2, 2, 1]) {
                0 if !self.locals.is_empty() => {
                    let (i, n, _) = s.pick(&self.locals).clone();
                    self.i(Instr::Local(i));
                    return T::Id(n);
                }
                1 if !self.params.is_empty() => {
                    let (i, n) = s.pick(&self.params).clone();
                    self.i(Instr::Param(i));
                    return T::Id(n);
                }
                0..=2 => return self.konst(s),
                3 => {
                    let (e, name, members) = s.pick(&self.env.enums);
                    let (m, mn) = s.pick(members);
                    let (i, t) = (
                        Instr::EnumConst(*e, *m),
                        T::Member(b(T::Id(name.clone())), mn.clone()),
                    );
                    self.i(i);
                    return t;
                }
                4 => {
                    self.i(Instr::This);
                    return T::This;
                }
                5 => {
                    let null = if s.bool() { Instr::Null } else { Instr::WeakRefNull };
                    self.i(null);
                    return T::Null;
                }
                _ => {
                    // a field of the object the function runs on
                    let c = s.pick(&self.env.classes);
                    let (f, n) = s.pick(&c.fields).clone();
                    self.i(Instr::ObjectField(f));
                    return T::Member(b(T::This), n);
                }
            }
        }
    }

    fn args(&mut self, s: &mut Src, f: &Fun, depth: usize) -> Vec<T> {
        let given = if s.chance(1, 5) { s.idx(f.arity + 1) } else { f.arity };
        let mut out = vec![];
        for k in 0..given {
            if f.lazy[k] {
                let l = self.label();
                self.i(Instr::Skip(l.clone()));
                out.push(self.sub(s, depth));
                self.place(&l);
            } else {
                out.push(self.sub(s, depth));
            }
        }
        for _ in given..f.arity {
            self.i(Instr::Nop);
        }
        self.i(Instr::ParamEnd);
        out
    }

    /// The receiver is None when the call has no explicit object.
    fn method_call(&mut self, s: &mut Src, object: Option<T>, depth: usize) -> T {
        let f = s.pick(&self.env.methods).clone();
        let exit = self.label();
        let line = s.below(500) as u16;
        let flags = s.below(4) as u16;
        let is_virtual = s.bool() && !f.is_static;
        if is_virtual {
            self.i(Instr::InvokeVirtual(exit.clone(), line, f.name_idx, flags));
        } else {
            self.i(Instr::InvokeStatic(exit.clone(), line, f.idx, flags));
        }
        let args = self.args(s, &f, depth);
        self.place(&exit);
        let upward = f.name == self.me.name && f.class != self.me.class;
        let obj = match object {
            // a direct (not virtual) call on `this` of the method the current one overrides
            Some(T::This) if !is_virtual && !f.is_static && upward => T::Super,
            Some(o) => o,
            None if is_virtual => T::This,
            None if f.is_static => T::Id(self.env.classes[f.class.unwrap_or(0)].name.clone()),
            None if upward => T::Super,
            None => T::This,
        };
        T::MCall(b(obj), f.name, args)
    }

    fn unary_table(&self, ty: Ix<Type>, k: u64) -> (Instr<Label>, &'static str, bool) {
        match k {
            0 => (Instr::ArrayClear(ty), "ArrayClear", false),
            1 => (Instr::ArraySize(ty), "ArraySize", false),
            2 => (Instr::StaticArraySize(ty), "ArraySize", false),
            3 => (Instr::ArrayPop(ty), "ArrayPop", false),
            4 => (Instr::ArrayLast(ty), "ArrayLast", false),
            5 => (Instr::StaticArrayLast(ty), "ArrayLast", false),
            6 => (Instr::ArraySort(ty), "ArraySort", false),
            7 => (Instr::RefToBool, "IsDefined", false),
            8 => (Instr::WeakRefToBool, "IsDefined", false),
            9 => (Instr::VariantIsDefined, "IsDefined", false),
            10 => (Instr::EnumToI32(ty, 4), "EnumInt", false),
            11 => (Instr::I32ToEnum(ty, 4), "IntEnum", true),
            12 => (Instr::ToString(ty), "ToString", false),
            13 => (Instr::VariantToString, "ToString", false),
            14 => (Instr::ToVariant(ty), "ToVariant", false),
            15 => (Instr::FromVariant(ty), "FromVariant", true),
            16 => (Instr::VariantIsRef, "VariantIsRef", false),
            17 => (Instr::VariantIsArray, "VariantIsArray", false),
            18 => (Instr::VariantTypeName, "VariantTypeName", false),
            19 => (Instr::WeakRefToRef, "WeakRefToRef", false),
            20 => (Instr::RefToWeakRef, "RefToWeakRef", false),
            21 => (Instr::AsRef(ty), "AsRef", false),
            22 => (Instr::Deref(ty), "Deref", false),
            _ => (Instr::Delete, "Delete", false),
        }
    }

    fn binary_table(&self, ty: Ix<Type>, k: u64) -> (Instr<Label>, &'static str) {
        match k {
            0 => (Instr::Equals(ty), "Equals"),
            1 => (Instr::RefStringEqualsString(ty), "Equals"),
            2 => (Instr::StringEqualsRefString(ty), "Equals"),
            3 => (Instr::NotEquals(ty), "NotEquals"),
            4 => (Instr::RefStringNotEqualsString(ty), "NotEquals"),
            5 => (Instr::StringNotEqualsRefString(ty), "NotEquals"),
            6 => (Instr::ArrayResize(ty), "ArrayResize"),
            7 => (Instr::ArrayFindFirst(ty), "ArrayFindFirst"),
            8 => (Instr::ArrayFindFirstFast(ty), "ArrayFindFirst"),
            9 => (Instr::StaticArrayFindFirst(ty), "ArrayFindFirst"),
            10 => (Instr::StaticArrayFindFirstFast(ty), "ArrayFindFirst"),
            11 => (Instr::ArrayFindLast(ty), "ArrayFindLast"),
            12 => (Instr::ArrayFindLastFast(ty), "ArrayFindLast"),
            13 => (Instr::StaticArrayFindLast(ty), "ArrayFindLast"),
            14 => (Instr::StaticArrayFindLastFast(ty), "ArrayFindLast"),
            15 => (Instr::ArrayContains(ty), "ArrayContains"),
            16 => (Instr::ArrayContainsFast(ty), "ArrayContains"),
            17 => (Instr::StaticArrayContains(ty), "ArrayContains"),
            18 => (Instr::StaticArrayContainsFast(ty), "ArrayContains"),
            19 => (Instr::ArrayCount(ty), "ArrayCount"),
            20 => (Instr::ArrayCountFast(ty), "ArrayCount"),
            21 => (Instr::StaticArrayCount(ty), "ArrayCount"),
            22 => (Instr::StaticArrayCountFast(ty), "ArrayCount"),
            23 => (Instr::ArrayPush(ty), "ArrayPush"),
            24 => (Instr::ArrayRemove(ty), "ArrayRemove"),
            25 => (Instr::ArrayRemoveFast(ty), "ArrayRemove"),
            26 => (Instr::ArrayGrow(ty), "ArrayGrow"),
            27 => (Instr::ArrayErase(ty), "ArrayErase"),
            28 => (Instr::ArrayEraseFast(ty), "ArrayErase"),
            _ => (Instr::ArraySortByPredicate(ty), "ArraySortByPredicate"),
        }
    }

    /// Anything but a numeric literal, which cannot have members and would swallow the dot.
    fn receiver(&mut self, s: &mut Src, depth: usize) -> T {
        let before = self.code.len();
        let t = self.expr(s, depth);
        if let T::Const(K::I32(_) | K::I64(_) | K::U32(_) | K::U64(_) | K::F32(_) | K::F64(_)) = crate::text::norm(&t, false) {
            self.code.truncate(before);
            self.i(Instr::This);
            return T::This;
        }
        t
    }

    /// An operand; along deep expressions, some operands are atoms so that every side gets its turn.
    fn sub(&mut self, s: &mut Src, depth: usize) -> T {
        if self.edepth > 7 && s.chance(1, 3) {
            return self.atom(s);
        }
        self.expr(s, depth + 1)
    }

    pub fn expr(&mut self, s: &mut Src, depth: usize) -> T {
        self.stats.exprs += 1;
        self.stats.max_depth = self.stats.max_depth.max(depth);
        if depth >= self.edepth || self.fuel == 0 {
            return self.atom(s);
        }
        self.fuel -= 1;
        match s.weighted(&[5, 7, 2, 3, 3, 2, 2, 2, 2, 3, 3, 2, 3, 2, 2]) {
            0 => self.atom(s),
            1 => {
                self.stats.ops += 1;
                let k = s.idx(BINOPS.len());
                let f = self.env.binops[k].clone();
                let exit = self.label();
                self.i(Instr::InvokeStatic(exit.clone(), 0, f.idx, 0));
                let l = self.sub(s, depth);
                let r = self.sub(s, depth);
                self.i(Instr::ParamEnd);
                self.place(&exit);
                T::Call(f.name, vec![], vec![l, r])
            }
            2 => {
                self.stats.ops += 1;
                let f = s.pick(&self.env.unops).clone();
                let exit = self.label();
                self.i(Instr::InvokeStatic(exit.clone(), 0, f.idx, 0));
                let l = self.sub(s, depth);
                self.i(Instr::ParamEnd);
                self.place(&exit);
                T::Call(f.name, vec![], vec![l])
            }
            3 => {
                let f = s.pick(&self.env.globals).clone();
                let exit = self.label();
                self.i(Instr::InvokeStatic(exit.clone(), s.below(9) as u16, f.idx, 0));
                let args = self.args(s, &f, depth);
                self.place(&exit);
                T::Call(f.name, vec![], args)
            }
            4 => {
                // obj.method(..)
                let exit = self.label();
                self.i(Instr::Context(exit.clone()));
                let o = self.receiver(s, depth + 1);
                let t = self.method_call(s, Some(o), depth);
                self.place(&exit);
                t
            }
            5 => self.method_call(s, None, depth),
            6 => {
                let exit = self.label();
                self.i(Instr::Context(exit.clone()));
                let o = self.receiver(s, depth + 1);
                let c = s.pick(&self.env.classes);
                let (f, n) = s.pick(&c.fields).clone();
                self.i(Instr::ObjectField(f));
                self.place(&exit);
                T::Member(b(o), n)
            }
            7 => {
                let c = s.pick(&self.env.structs);
                let (f, n) = s.pick(&c.fields).clone();
                self.i(Instr::StructField(f));
                let o = self.receiver(s, depth + 1);
                T::Member(b(o), n)
            }
            8 => {
                let ty = self.env.types[6].0;
                let i = if s.bool() { Instr::ArrayElement(ty) } else { Instr::StaticArrayElement(ty) };
                self.i(i);
                let a = self.sub(s, depth);
                let x = self.sub(s, depth);
                T::Elem(b(a), b(x))
            }
            9 => {
                let exit = self.label();
                let no = self.label();
                self.i(Instr::Conditional(no.clone(), exit.clone()));
                let c = self.sub(s, depth);
                let x = self.sub(s, depth);
                self.place(&no);
                let y = self.sub(s, depth);
                self.place(&exit);
                T::Cond(b(c), b(x), b(y))
            }
            10 => {
                let c = s.pick(&self.env.classes);
                let (ci, n) = (c.idx, c.name.clone());
                self.i(Instr::DynamicCast(ci, 0));
                let o = self.sub(s, depth);
                T::Cast(n, b(o))
            }
            11 => {
                if s.bool() {
                    let c = s.pick(&self.env.classes);
                    let (ci, n) = (c.idx, c.name.clone());
                    self.i(Instr::New(ci));
                    T::New(n, vec![])
                } else {
                    let c = s.pick(&self.env.structs);
                    let (ci, n) = (c.idx, c.name.clone());
                    let k = if s.chance(1, 40) { s.big(255) } else { s.idx(4) };
                    self.i(Instr::Construct(k as u8, ci));
                    let args = (0..k).map(|_| self.sub(s, depth)).collect();
                    T::New(n, args)
                }
            }
            12 => {
                let (ty, pretty) = s.pick(&self.env.types).clone();
                let k = s.below(24);
                let (i, n, typed) = self.unary_table(ty, k);
                self.i(i);
                let x = self.sub(s, depth);
                T::Call(n.to_owned(), if typed { vec![pretty] } else { vec![] }, vec![x])
            }
            13 => {
                let (ty, _) = s.pick(&self.env.types).clone();
                if s.chance(1, 12) {
                    self.i(Instr::ArrayInsert(ty));
                    let v = (0..3).map(|_| self.sub(s, depth)).collect();
                    return T::Call("ArrayInsert".to_owned(), vec![], v);
                }
                let k = s.below(30);
                let (i, n) = self.binary_table(ty, k);
                self.i(i);
                let x = self.sub(s, depth);
                let y = self.sub(s, depth);
                T::Call(n.to_owned(), vec![], vec![x, y])
            }
            _ => {
                let f = s.pick(&self.env.casts).clone();
                let exit = self.label();
                self.i(Instr::InvokeStatic(exit.clone(), 0, f.idx, 0));
                let x = self.sub(s, depth);
                self.i(Instr::ParamEnd);
                self.place(&exit);
                T::Call(f.name, vec![f.ret.unwrap_or_default()], vec![x])
            }
        }
    }

    // ---- statements --------------------------------------------------------------------------

    fn leaf(&mut self, s: &mut Src) -> T {
        if self.rich && s.chance(1, 2) {
            match s.below(3) {
                0 => self.expr(s, 0),
                _ => self.assign(s),
            }
        } else {
            self.leaf_call("Do;Int32")
        }
    }

    pub fn assign(&mut self, s: &mut Src) -> T {
        self.i(Instr::Assign);
        let l = if !self.locals.is_empty() && s.chance(2, 3) {
            let (i, n, _) = s.pick(&self.locals).clone();
            self.i(Instr::Local(i));
            T::Id(n)
        } else if s.bool() {
            self.atom_place(s)
        } else {
            let c = s.pick(&self.env.structs);
            let (f, n) = s.pick(&c.fields).clone();
            self.i(Instr::StructField(f));
            let o = self.atom_place(s);
            T::Member(b(o), n)
        };
        let r = self.expr(s, 1);
        T::Assign(b(l), b(r))
    }

    /// The end of a function, with or without a value.
    pub fn ret(&mut self, s: &mut Src) -> T {
        self.i(Instr::Return);
        if s.chance(1, 4) {
            self.i(Instr::Nop);
            T::Return(None)
        } else {
            let v = if s.bool() { self.atom(s) } else { self.expr(s, 1) };
            T::Return(Some(b(v)))
        }
    }

    fn atom_place(&mut self, s: &mut Src) -> T {
        let c = s.pick(&self.env.classes);
        let (f, n) = s.pick(&c.fields).clone();
        let exit = self.label();
        self.i(Instr::Context(exit.clone()));
        self.i(Instr::This);
        self.i(Instr::ObjectField(f));
        self.place(&exit);
        T::Member(b(T::This), n)
    }

    fn condition(&mut self, s: &mut Src) -> T {
        if self.rich && s.chance(1, 2) {
            let depth = s.size(1, 4);
            self.expr(s, depth)
        } else {
            self.leaf_call("Test;Int32")
        }
    }

    fn noise(&mut self, s: &mut Src) {
        match s.below(24) {
            0 => self.i(Instr::Nop),
            1 => {
                let i = breakpoint(s);
                self.i(i);
            }
            2 => self.i(profiling()),
            3 => {
                let l = self.label();
                self.i(Instr::Jump(l.clone()));
                self.place(&l);
            }
            _ => {}
        }
    }

    /// `exit`: where break goes.
    pub fn block(&mut self, s: &mut Src, depth: usize, exit: Option<&Label>) -> Vec<T> {
        let n = if depth == 0 { 1 + s.len(8) } else { s.len(4) };
        let n = if self.wide > 0 && (depth == 0 || s.chance(1, 4)) { std::mem::take(&mut self.wide) } else { n };
        let spine = if self.deep > 0 && depth == 0 { s.idx(n) } else { usize::MAX };
        let mut out = vec![];
        for i in 0..n {
            self.noise(s);
            let t = if i == spine { self.structure(s, depth, exit) } else { self.stmt(s, depth, exit) };
            let ends = matches!(t, T::Break | T::Return(_) | T::Goto(_));
            out.push(t);
            // now and then, unreachable statements after a jump
            if ends && !s.chance(1, 12) {
                break;
            }
        }
        self.noise(s);
        out
    }

    pub fn stmt(&mut self, s: &mut Src, depth: usize, exit: Option<&Label>) -> T {
        if depth >= 5 || self.fuel == 0 || self.deep > 0 {
            if self.deep > 0 && s.chance(1, 8) {
                return self.leave(s, exit);
            }
            return self.leaf(s);
        }
        self.fuel -= 1;
        match s.weighted(&[9, 5, 3, 3, 3]) {
            0 => self.leaf(s),
            1 => self.if_(s, depth, exit),
            2 => self.while_(s, depth),
            3 => self.switch(s, depth),
            _ => self.leave(s, exit),
        }
    }

    /// A statement with blocks in it, one of which goes on nesting.
    fn structure(&mut self, s: &mut Src, depth: usize, exit: Option<&Label>) -> T {
        match s.below(5) {
            0..=2 => self.if_(s, depth, exit),
            3 => self.while_(s, depth),
            _ => self.switch(s, depth),
        }
    }

    /// A block inside a statement; `spine`: the one that goes on nesting in a deep program.
    fn child(&mut self, s: &mut Src, depth: usize, exit: Option<&Label>, spine: bool) -> Vec<T> {
        if self.deep == 0 {
            return self.block(s, depth, exit);
        }
        let mut out = vec![];
        for _ in 0..s.idx(2) {
            out.push(self.leaf(s));
        }
        if spine && depth < self.deep {
            out.push(self.structure(s, depth, exit));
        }
        for _ in 0..s.idx(2) {
            out.push(self.stmt(s, depth, exit));
        }
        out
    }

    fn if_(&mut self, s: &mut Src, depth: usize, exit: Option<&Label>) -> T {
        self.stats.ifs += 1;
        let no = self.label();
        self.i(Instr::JumpIfFalse(no.clone()));
        let c = self.condition(s);
        let side = s.below(2);
        let x = self.child(s, depth + 1, exit, side == 0);
        if side == 1 || s.bool() {
            let end = self.label();
            self.i(Instr::Jump(end.clone()));
            self.place(&no);
            let y = self.child(s, depth + 1, exit, side == 1);
            self.place(&end);
            T::If(b(c), x, Some(y))
        } else {
            self.place(&no);
            T::If(b(c), x, None)
        }
    }

    fn while_(&mut self, s: &mut Src, depth: usize) -> T {
        self.stats.loops += 1;
        let end = self.label();
        let top = self.label();
        self.place(&top);
        self.i(Instr::JumpIfFalse(end.clone()));
        let c = self.condition(s);
        self.tops.push(top.clone());
        let x = self.child(s, depth + 1, Some(&end), true);
        self.tops.pop();
        self.i(Instr::Jump(top));
        self.place(&end);
        T::While(b(c), x)
    }

    /// break or return, in some programs also a jump back to the head of the loop
    fn leave(&mut self, s: &mut Src, exit: Option<&Label>) -> T {
        if let (true, Some(top)) = (self.continues && s.bool(), self.tops.last().cloned()) {
            self.stats.continues += 1;
            self.i(Instr::Jump(top));
            return T::Goto(u16::MAX);
        }
        if let (Some(l), true) = (exit, s.bool()) {
            self.stats.breaks += 1;
            self.i(Instr::Jump(l.clone()));
            return T::Break;
        }
        self.stats.returns += 1;
        self.i(Instr::Return);
        if s.bool() {
            self.i(Instr::Nop);
            T::Return(None)
        } else {
            let v = self.condition(s);
            T::Return(Some(b(v)))
        }
    }

    /// Two fixed programs (known findings): a switch whose only break is in an else branch inside
    /// `default`, and a switch with an empty `default` and no break at the end of an if.
    pub fn lone_default(&mut self, empty: bool) -> Vec<T> {
        let after_if = self.label();
        let mut cond = None;
        if empty {
            self.i(Instr::JumpIfFalse(after_if.clone()));
            cond = Some(self.leaf_call("Test;Int32"));
        }
        let first = self.label();
        let exit = self.label();
        let next = self.label();
        let body = self.label();
        let ty = self.env.types[0].0;
        self.i(Instr::Switch(ty, first.clone()));
        let subject = self.leaf_call("Test;Int32");
        self.place(&first);
        self.i(Instr::SwitchLabel(next.clone(), body.clone()));
        let m = self.leaf_call("Test;Int32");
        self.place(&body);
        let x = self.leaf_call("Do;Int32");
        self.place(&next);
        self.i(Instr::SwitchDefault);
        let mut d = vec![];
        if !empty {
            let no = self.label();
            let end = self.label();
            self.i(Instr::JumpIfFalse(no.clone()));
            let c = self.leaf_call("Test;Int32");
            let y = self.leaf_call("Do;Int32");
            self.i(Instr::Jump(end.clone()));
            self.place(&no);
            self.i(Instr::Jump(exit.clone()));
            self.place(&end);
            d.push(T::If(b(c), vec![y], Some(vec![T::Break])));
            d.push(self.leaf_call("Do;Int32"));
        }
        self.place(&exit);
        self.place(&after_if);
        let after = self.leaf_call("Do;Int32");
        let switch = T::Switch(b(subject), vec![(m, vec![x])], Some(d));
        match cond {
            Some(c) => vec![T::If(b(c), vec![switch], None), after],
            None => vec![switch, after],
        }
    }

    fn switch(&mut self, s: &mut Src, depth: usize) -> T {
        self.stats.switches += 1;
        let first = self.label();
        let exit = self.label();
        let mut next = self.label();
        let ty = self.env.types[0].0;
        self.i(Instr::Switch(ty, first.clone()));
        let subject = self.condition(s);
        self.place(&first);
        let n = if self.wide > 0 && s.bool() { std::mem::take(&mut self.wide) } else { s.len(4) };
        let spine = s.idx(n + 1);
        let mut cases = vec![];
        let mut pending: Option<Label> = None;
        for case in 0..n {
            let body = match pending.take() {
                Some(l) => l,
                None => self.label(),
            };
            self.place(&next);
            next = self.label();
            self.i(Instr::SwitchLabel(next.clone(), body.clone()));
            let m = self.condition(s);
            if s.chance(1, 4) && !(self.deep > 0 && case == spine) {
                // no statements: shares the body of the next case
                pending = Some(body);
                cases.push((m, vec![]));
            } else {
                self.place(&body);
                let mut ts = self.child(s, depth + 1, Some(&exit), case == spine);
                if ts.last() != Some(&T::Break) && s.chance(3, 4) {
                    self.stats.breaks += 1;
                    self.i(Instr::Jump(exit.clone()));
                    ts.push(T::Break);
                }
                // A nested switch directly in front of the next label would share its label chain with
                // this one: such code has no meaning of its own, so a statement is put in between.
                if tail_switch(&ts) && case + 1 < n {
                    let t = self.leaf_call("Do;Int32");
                    ts.push(t);
                }
                cases.push((m, ts));
            }
        }
        self.place(&next);
        if let Some(l) = pending {
            self.place(&l);
        }
        let default = if s.bool() || (self.deep > 0 && spine == n) {
            self.i(Instr::SwitchDefault);
            // known finding (see known_findings.txt): breaks out of the default case are not understood
            // when no other case breaks, because nothing else tells where the switch ends
            let known_end = self.code.iter().any(|i| matches!(i, Instr::Jump(l) if l.index == exit.index));
            let ts = if s.chance(1, 4) && spine != n { vec![] } else { self.child(s, depth + 1, known_end.then_some(&exit), spine == n) };
            Some(ts)
        } else {
            None
        };
        self.place(&exit);
        T::Switch(b(subject), cases, default)
    }
}

fn tail_switch(ts: &[T]) -> bool {
    match ts.last() {
        Some(T::Switch(..)) => true,
        Some(T::If(_, x, y)) => tail_switch(x) || y.as_ref().map_or(false, |y| tail_switch(y)),
        _ => false,
    }
}

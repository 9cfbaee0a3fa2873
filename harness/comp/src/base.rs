//! The pool the generated programs are compiled against: primitive types, native operators (as the
//! game declares them, short-circuiting ones included), casts and probes.
use std::path::PathBuf;

use redscript::bundle::ConstantPool;
use redscript::bundle::PoolIndex;
use redscript::definition::{AnyDefinition, Class, ClassFlags, Definition, Type, Visibility};
use redscript::Ref;
use redscript_compiler::diagnostics::Diagnostic;
use redscript_compiler::error::Error;
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::{CompilationOutput, CompilationUnit};

pub const PRIMS: &[&str] = &[
    "Bool", "Uint64", "Float", "CName", "NodeRef", "Uint32", "String", "Int32", "TweakDBID", "Variant", "Int64", "Uint8",
    "Uint16", "Int8", "Int16", "Double", "ResRef",
];
pub const NUMS: &[&str] = &["Int32", "Int64", "Uint32", "Uint64", "Float", "Double"];

pub fn is_int(t: &str) -> bool {
    !matches!(t, "Float" | "Double")
}

pub fn prelude() -> String {
    let mut s = String::new();
    for t in NUMS {
        for op in ["Add", "Subtract", "Multiply", "Divide"] {
            s += &format!("public static native func Operator{op}(l: {t}, r: {t}) -> {t}\n");
            s += &format!("public static native func OperatorAssign{op}(out l: {t}, r: {t}) -> {t}\n");
        }
        for op in ["Less", "LessEqual", "Greater", "GreaterEqual", "Equal", "NotEqual"] {
            s += &format!("public static native func Operator{op}(l: {t}, r: {t}) -> Bool\n");
        }
        s += &format!("public static native func OperatorNeg(l: {t}) -> {t}\n");
        if is_int(t) {
            for op in ["Modulo", "And", "Or", "Xor"] {
                s += &format!("public static native func Operator{op}(l: {t}, r: {t}) -> {t}\n");
            }
            for op in ["And", "Or"] {
                s += &format!("public static native func OperatorAssign{op}(out l: {t}, r: {t}) -> {t}\n");
            }
            s += &format!("public static native func OperatorBitNot(l: {t}) -> {t}\n");
        }
        for to in NUMS {
            if to != t {
                s += &format!("public static native func Cast(a: {t}) -> {to}\n");
            }
        }
    }
    for op in ["LogicAnd", "LogicOr", "Equal", "NotEqual"] {
        s += &format!("public static native func Operator{op}(l: Bool, r: Bool) -> Bool\n");
    }
    s += "public static native func OperatorLogicNot(l: Bool) -> Bool\n";
    s += "public static native func OperatorAdd(l: script_ref<String>, r: script_ref<String>) -> String\n";
    s += "public static native func OperatorAssignAdd(out l: String, r: script_ref<String>) -> String\n";
    for op in ["Equal", "NotEqual"] {
        s += &format!("public static native func Operator{op}(l: script_ref<String>, r: script_ref<String>) -> Bool\n");
        s += &format!("public static native func Operator{op}(l: CName, r: CName) -> Bool\n");
        s += &format!("public static native func Operator{op}(l: ref<IScriptable>, r: ref<IScriptable>) -> Bool\n");
    }
    for t in ["Bool", "Int32", "Int64", "Uint32", "Uint64", "Float", "Double", "String", "CName", "TweakDBID", "ResRef"] {
        s += &format!("public static native func P_{t}(tag: Int32, v: {t}) -> {t}\n");
    }
    s += "public static native func P_Ref(tag: Int32, v: ref<IScriptable>) -> Void\n";
    s += "public static native func P_WRef(tag: Int32, v: wref<IScriptable>) -> Void\n";
    s += "public static native func P_Variant(tag: Int32, v: Variant) -> Void\n";
    s += "public static native func P_Ints(tag: Int32, v: array<Int32>) -> Void\n";
    s += "public static native func P_SRef(tag: Int32, v: script_ref<String>) -> Void\n";
    s += "public static native func P_Opt(tag: Int32, opt a: Int32, opt b: String) -> Void\n";
    s
}

pub fn files(sources: &[(String, String)]) -> Files {
    let mut f = Files::new();
    for (path, text) in sources {
        f.add(PathBuf::from(path), text.clone());
    }
    f
}

pub fn compile(pool: &mut ConstantPool, sources: &[(String, String)]) -> Result<CompilationOutput, Error> {
    CompilationUnit::new_with_defaults(pool)?.compile_files(&files(sources))
}

pub fn fatal(out: &CompilationOutput) -> Vec<String> {
    out.diagnostics().iter().filter(|d| d.is_fatal()).map(|d: &Diagnostic| format!("{d} at {:?}", d.span())).collect()
}

thread_local! {
    static POOL: ConstantPool = build();
}

pub fn base() -> ConstantPool {
    POOL.with(Clone::clone)
}

fn build() -> ConstantPool {
    let mut pool = ConstantPool::default();
    // index 0 is never a definition
    pool.add_definition::<Definition>(Definition::DEFAULT);
    // the name at index 0 stands for no name
    pool.names.add(Ref::from("<none>"));
    // locals without initialiser are set to the entry at index 0, which is the empty one in the game
    pool.strings.add(Ref::from(""));
    pool.tweakdb_ids.add(Ref::from(""));
    pool.resources.add(Ref::from(""));
    for t in PRIMS {
        let n = pool.names.add(Ref::from(*t));
        pool.add_definition::<Type>(Definition::type_(n, Type::Prim));
    }
    // the root class comes with the game; in source it would be given itself as its base
    let n = pool.names.add(Ref::from("IScriptable"));
    pool.add_definition::<Class>(Definition::class(
        n,
        Class {
            visibility: Visibility::Public,
            flags: ClassFlags::new().with_is_native(true),
            base: PoolIndex::UNDEFINED,
            functions: vec![],
            fields: vec![],
            overrides: vec![],
        },
    ));
    let out = compile(&mut pool, &[("prelude.reds".into(), prelude())]).expect("the prelude compiles");
    let f = fatal(&out);
    assert!(f.is_empty(), "the prelude compiles: {f:?}");
    finish(&mut pool);
    pool
}

/// What source cannot express: lazily evaluated operands and the game's names of string operators.
fn finish(pool: &mut ConstantPool) {
    let all: Vec<_> = pool.definitions().map(|(i, d)| (i, d.clone())).collect();
    for (i, mut d) in all {
        let AnyDefinition::Function(f) = &d.value else { continue };
        let name = pool.def_name(i).unwrap().to_string();
        if name.starts_with("OperatorLogicAnd") || name.starts_with("OperatorLogicOr") {
            let p = f.parameters[1];
            let mut pd = pool.definition(p).unwrap().clone();
            if let AnyDefinition::Parameter(par) = &mut pd.value {
                par.flags = par.flags.with_is_short_circuit(true);
            }
            pool.put_definition(p, pd);
        }
        if name.starts_with("OperatorAdd;") && name.contains("String") {
            d.name = pool.names.add(Ref::from("OperatorAdd;Script_RefStringScript_RefString;String"));
            pool.put_definition(i, d);
        }
    }
}

//! Values, heap-independent helpers and the behaviour of native operators, shared by the reference
//! interpreter (which runs the source tree) and the bytecode machine (which runs compiled code).

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Void,
    Null,
    WNull,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Str(String),
    Name(String),
    Tdb(String),
    Res(String),
    Enum(String, i64),
    Obj(usize),
    WObj(usize),
    Arr(Vec<V>),
    Struct(String, Vec<(String, V)>),
    Var(Box<V>),
    SRef(Box<V>),
}

#[derive(Debug)]
pub enum Stop {
    /// the program itself does something undefined (null receiver, index out of range, division by zero)
    Abort(&'static str),
    Fuel,
    /// the code is malformed
    Bad(String),
}

pub fn text(v: &V) -> String {
    match v {
        V::Bool(b) => b.to_string(),
        V::I8(x) => x.to_string(),
        V::I16(x) => x.to_string(),
        V::I32(x) => x.to_string(),
        V::I64(x) => x.to_string(),
        V::U8(x) => x.to_string(),
        V::U16(x) => x.to_string(),
        V::U32(x) => x.to_string(),
        V::U64(x) => x.to_string(),
        V::F32(x) => format!("{x:?}"),
        V::F64(x) => format!("{x:?}d"),
        V::Str(s) => s.clone(),
        V::Name(s) => format!("n'{s}"),
        V::Tdb(s) => format!("t'{s}"),
        V::Res(s) => format!("r'{s}"),
        V::Enum(n, m) => format!("{n}#{m}"),
        V::Null | V::WNull => "null".into(),
        V::Obj(_) | V::WObj(_) => "obj".into(),
        V::Arr(a) => format!("[{}]", a.iter().map(text).collect::<Vec<_>>().join(",")),
        V::Struct(n, f) => format!("{n}{{{}}}", f.iter().map(|(k, v)| format!("{k}={}", text(v))).collect::<Vec<_>>().join(",")),
        V::Var(v) => format!("var {}", text(v)),
        V::SRef(v) => text(v),
        V::Void => "void".into(),
    }
}

fn deref(v: &V) -> &V {
    match v {
        V::SRef(v) => deref(v),
        v => v,
    }
}

pub fn same(a: &V, b: &V) -> bool {
    match (deref(a), deref(b)) {
        (V::Null | V::WNull, V::Null | V::WNull) => true,
        (V::Obj(a) | V::WObj(a), V::Obj(b) | V::WObj(b)) => a == b,
        (a, b) => a == b,
    }
}

/// Behaviour of the native operators, keyed by the part of the name after `Operator`.
pub fn operator(op: &str, args: &[V], ret: &str) -> Option<Result<V, Stop>> {
    macro_rules! ints {
        ($k:ident, $a:expr, $b:expr) => {
            match op {
                "Add" | "AssignAdd" => V::$k($a.wrapping_add(*$b)),
                "Subtract" | "AssignSubtract" => V::$k($a.wrapping_sub(*$b)),
                "Multiply" | "AssignMultiply" => V::$k($a.wrapping_mul(*$b)),
                "Divide" | "AssignDivide" => {
                    if *$b == 0 {
                        return Some(Err(Stop::Abort("division by zero")));
                    }
                    V::$k($a.wrapping_div(*$b))
                }
                "Modulo" => {
                    if *$b == 0 {
                        return Some(Err(Stop::Abort("division by zero")));
                    }
                    V::$k($a.wrapping_rem(*$b))
                }
                "And" | "AssignAnd" => V::$k($a & $b),
                "Or" | "AssignOr" => V::$k($a | $b),
                "Xor" => V::$k($a ^ $b),
                "Less" => V::Bool($a < $b),
                "LessEqual" => V::Bool($a <= $b),
                "Greater" => V::Bool($a > $b),
                "GreaterEqual" => V::Bool($a >= $b),
                "Equal" => V::Bool($a == $b),
                "NotEqual" => V::Bool($a != $b),
                _ => return None,
            }
        };
    }
    macro_rules! floats {
        ($k:ident, $a:expr, $b:expr) => {
            match op {
                "Add" | "AssignAdd" => V::$k($a + $b),
                "Subtract" | "AssignSubtract" => V::$k($a - $b),
                "Multiply" | "AssignMultiply" => V::$k($a * $b),
                "Divide" | "AssignDivide" => V::$k($a / $b),
                "Less" => V::Bool($a < $b),
                "LessEqual" => V::Bool($a <= $b),
                "Greater" => V::Bool($a > $b),
                "GreaterEqual" => V::Bool($a >= $b),
                "Equal" => V::Bool($a == $b),
                "NotEqual" => V::Bool($a != $b),
                _ => return None,
            }
        };
    }
    let _ = ret;
    let r = match args {
        [V::I32(a), V::I32(b)] => ints!(I32, a, b),
        [V::I64(a), V::I64(b)] => ints!(I64, a, b),
        [V::U32(a), V::U32(b)] => ints!(U32, a, b),
        [V::U64(a), V::U64(b)] => ints!(U64, a, b),
        [V::F32(a), V::F32(b)] => floats!(F32, a, b),
        [V::F64(a), V::F64(b)] => floats!(F64, a, b),
        [V::Bool(a), V::Bool(b)] => match op {
            "LogicAnd" => V::Bool(*a && *b),
            "LogicOr" => V::Bool(*a || *b),
            "Equal" => V::Bool(a == b),
            "NotEqual" => V::Bool(a != b),
            _ => return None,
        },
        [V::Name(a), V::Name(b)] => match op {
            "Equal" => V::Bool(a == b),
            "NotEqual" => V::Bool(a != b),
            _ => return None,
        },
        [V::I32(a)] if op == "Neg" => V::I32(a.wrapping_neg()),
        [V::I64(a)] if op == "Neg" => V::I64(a.wrapping_neg()),
        [V::F32(a)] if op == "Neg" => V::F32(-a),
        [V::F64(a)] if op == "Neg" => V::F64(-a),
        [V::I32(a)] if op == "BitNot" => V::I32(!a),
        [V::I64(a)] if op == "BitNot" => V::I64(!a),
        [V::U32(a)] if op == "BitNot" => V::U32(!a),
        [V::U64(a)] if op == "BitNot" => V::U64(!a),
        [V::Bool(a)] if op == "LogicNot" => V::Bool(!a),
        [a, b] => match (deref(a), deref(b)) {
            (V::Str(x), V::Str(y)) => match op {
                "Add" | "AssignAdd" => V::Str(format!("{x}{y}")),
                "Equal" => V::Bool(x == y),
                "NotEqual" => V::Bool(x != y),
                _ => return None,
            },
            (V::Obj(_) | V::Null, V::Obj(_) | V::Null) => match op {
                "Equal" => V::Bool(same(a, b)),
                "NotEqual" => V::Bool(!same(a, b)),
                _ => return None,
            },
            _ => return None,
        },
        _ => return None,
    };
    Some(Ok(r))
}

pub fn cast(v: &V, to: &str) -> Option<V> {
    macro_rules! to {
        ($a:expr) => {
            match to {
                "Int32" => V::I32($a as i32),
                "Int64" => V::I64($a as i64),
                "Uint32" => V::U32($a as u32),
                "Uint64" => V::U64($a as u64),
                "Float" => V::F32($a as f32),
                "Double" => V::F64($a as f64),
                _ => return None,
            }
        };
    }
    Some(match v {
        V::I32(a) => to!(*a),
        V::I64(a) => to!(*a),
        V::U32(a) => to!(*a),
        V::U64(a) => to!(*a),
        V::F32(a) => to!(*a),
        V::F64(a) => to!(*a),
        _ => return None,
    })
}

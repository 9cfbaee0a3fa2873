//! The part of argh that redscript-cli uses.
use std::path::PathBuf;

pub use argh_derive::FromArgs;

/// One place of an option in the arguments: long name, short name, does it take a value.
pub type Spec = (&'static str, Option<char>, bool);

pub trait FromArgs: Sized {
    fn from_list(args: &[String]) -> Result<Self, String>;
}

/// The values given for each of the options, in order.
pub fn split(specs: &[Spec], args: &[String]) -> Result<Vec<Vec<String>>, String> {
    let mut out = vec![vec![]; specs.len()];
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let at = specs.iter().position(|(long, short, _)| {
            a.strip_prefix("--") == Some(long) || short.map_or(false, |c| *a == format!("-{c}"))
        });
        let Some(at) = at else { return Err(format!("Unrecognized argument: {a}")) };
        if specs[at].2 {
            let v = it.next().ok_or_else(|| format!("No value provided for option '{a}'."))?;
            out[at].push(v.clone());
        } else {
            out[at].push(String::new());
        }
    }
    Ok(out)
}

/// What an option holds.
pub trait Value: Sized {
    fn from_values(name: &str, values: Vec<String>, default: Option<&dyn Fn() -> Self>) -> Result<Self, String>;
}

fn one(name: &str, mut values: Vec<String>) -> Result<Option<String>, String> {
    match values.len() {
        0 | 1 => Ok(values.pop()),
        _ => Err(format!("duplicate values provided for --{name}")),
    }
}

macro_rules! single {
    ($t:ty) => {
        impl Value for $t {
            fn from_values(name: &str, values: Vec<String>, default: Option<&dyn Fn() -> Self>) -> Result<Self, String> {
                match (one(name, values)?, default) {
                    (Some(v), _) => Ok(v.into()),
                    (None, Some(d)) => Ok(d()),
                    _ => Err(format!("Required options not provided: --{name}")),
                }
            }
        }
        impl Value for Option<$t> {
            fn from_values(name: &str, values: Vec<String>, _: Option<&dyn Fn() -> Self>) -> Result<Self, String> {
                Ok(one(name, values)?.map(Into::into))
            }
        }
        impl Value for Vec<$t> {
            fn from_values(_: &str, values: Vec<String>, _: Option<&dyn Fn() -> Self>) -> Result<Self, String> {
                Ok(values.into_iter().map(Into::into).collect())
            }
        }
    };
}
single!(PathBuf);
single!(String);

impl Value for bool {
    fn from_values(_: &str, values: Vec<String>, _: Option<&dyn Fn() -> Self>) -> Result<Self, String> {
        Ok(!values.is_empty())
    }
}

pub fn from_env<T: FromArgs>() -> T {
    let args: Vec<String> = std::env::args().skip(1).collect();
    T::from_list(&args).unwrap_or_else(|e| {
        eprintln!("{e}");
        std::process::exit(1)
    })
}

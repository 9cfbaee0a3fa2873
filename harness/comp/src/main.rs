mod base;
mod gen;
mod interp;
mod lang;
mod p_diag;
mod p_mods;
mod p_pool;
mod p_round;
mod p_sem;
mod p_text;
mod val;
mod vm;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("run") {
        return run();
    }
    let mut props = p_sem::props();
    props.extend(p_mods::props());
    props.extend(p_text::props());
    props.extend(p_diag::props());
    props.extend(p_pool::props());
    props.extend(p_round::props());
    props.sort_by_key(|p| p.id);
    pbt::main(props);
}

/// `vcomp run FILE PREFIX`: compiles a file, lists the function whose name starts with PREFIX and runs it.
/// Parts of the file divided by //--- are compiled one after another; with `dump` for PREFIX all definitions are listed.
fn run() {
    let src = std::fs::read_to_string(std::env::args().nth(2).unwrap()).unwrap();
    let mut p = base::base();
    for part in src.split("//---") {
        match base::compile(&mut p, &[("a.reds".into(), part.into())]) {
            Ok(o) => {
                for d in o.diagnostics() {
                    println!("{} {:?} fatal={}", d, d.span(), d.is_fatal());
                }
            }
            Err(e) => {
                println!("ERR {e:?}");
                return;
            }
        }
    }
    if std::env::args().nth(3).as_deref() == Some("dump") {
        for (i, d) in p.definitions() {
            println!("{i} {} {d:?}", p.def_name(i).map(|n| n.to_string()).unwrap_or_default());
        }
        return;
    }
    let mut m = vm::Vm::new(&p);
    let Some(f) = m.find_prefix(&std::env::args().nth(3).unwrap_or("Main;".into())) else { return };
    if let Ok(fun) = p.function(f) {
        for (o, i) in fun.code.iter() {
            println!("{:4} {:?}", o.value, i);
        }
    }
    println!("{:?}", m.call(f, None, vec![]));
    println!("{:#?}", m.trace);
}

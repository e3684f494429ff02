// Reads a constraint file with the library's reader and prints all it returned, as text. Exit status: 0 read, 3 reported error.
use constraint_writers::r1cs_reader::{read_r1cs, R1CSData};

fn main() {
    let path = std::env::args().nth(1).expect("usage: vp_reader FILE");
    let d = match read_r1cs(&path) {
        Ok(d) => d,
        Err(e) => {
            println!("err {}", e);
            std::process::exit(3);
        }
    };
    show(&d);
}

// the hook that gives access to what was read may be missing: then only success and failure can be told apart
#[cfg(not(vp_hooks))]
fn show(_: &R1CSData) {
    println!("opaque\nend");
}

#[cfg(vp_hooks)]
fn show(d: &R1CSData) {
    use std::collections::BTreeMap;
    use std::io::Write;
    let (h, cons, signals, used, applied) = d.parts();
    let mut o = Vec::new();
    writeln!(o, "h {} {} {} {} {} {} {} {}", h.field, h.field_size, h.total_wires, h.public_outputs, h.public_inputs, h.private_inputs,
             h.number_of_labels, h.number_of_constraints).unwrap();
    for (a, b, c) in cons {
        write!(o, "c").unwrap();
        for l in [a, b, c] {
            write!(o, " |").unwrap();
            for (k, v) in l.iter().collect::<BTreeMap<_, _>>() {
                write!(o, " {}:{}", k, v).unwrap();
            }
        }
        writeln!(o).unwrap();
    }
    for s in signals {
        writeln!(o, "s {}", s).unwrap();
    }
    if let Some(u) = used {
        writeln!(o, "U {}", u.len()).unwrap();
        for (n, ps) in u {
            writeln!(o, "u {} {:?}", n, ps.iter().map(|p| p.to_string()).collect::<Vec<_>>()).unwrap();
        }
    }
    if let Some(a) = applied {
        writeln!(o, "A {}", a.len()).unwrap();
        for (g, ss) in a {
            writeln!(o, "a {} {:?}", g, ss).unwrap();
        }
    }
    println!("{}end", String::from_utf8(o).unwrap());
}

//! Harnesses for the solver-based checks.  See /verif/DESIGN.md.
#[macro_use]
mod sym;
pub mod forest;
pub mod multi;
pub mod util;
pub mod views;

/// A harness entry: name, number of reachability witnesses (`cover(0..n)`), bounds.
pub struct Entry {
    pub name: &'static str,
    pub f: extern "C-unwind" fn(),
    pub covers: u32,
    pub bounds: &'static str,
}

#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* $name:ident, covers = $c:expr, bounds = $b:expr, $body:block )*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C-unwind" fn $name() $body )*
        pub const ENTRIES: &[$crate::Entry] = &[ $( $crate::Entry { name: stringify!($name), f: $name, covers: $c, bounds: $b } ),* ];
    };
}

macro_rules! modules {
    ($($m:ident $f:literal),* $(,)?) => {
        $( #[cfg(feature = $f)] mod $m; )*
        const MODS: &[&[Entry]] = &[ $( #[cfg(feature = $f)] $m::ENTRIES ),* ];
    };
}
modules! {
    p01 "p01",
    p02 "p02",
    p03 "p03",
    p04 "p04",
    p05 "p05",
    p06 "p06",
    p07 "p07",
    p08 "p08",
    p09 "p09",
    p10 "p10",
    p12 "p12",
    p13 "p13",
    p14 "p14",
    p15 "p15",
    p16 "p16",
    p17 "p17",
    p18 "p18",
    p19 "p19",
    p20 "p20",
    p21 "p21",
    p22 "p22",
    p23 "p23",
    p24 "p24",
    p25 "p25",
    p26 "p26",
    p27 "p27",
    p28 "p28",
    p29 "p29",
    p30 "p30",
    p31 "p31",
    p32 "p32",
    p33 "p33",
    p34 "p34",
}

#[cfg(not(feature = "native"))]
fn main() {
    for m in MODS {
        for e in *m {
            std::hint::black_box(e.f)();
        }
    }
}

#[cfg(feature = "native")]
fn run(e: &Entry, inputs: Vec<u64>, verbose: bool) -> (&'static str, u32, u64, String) {
    use sym::imp::{Stop, CTX};
    CTX.with(|c| {
        *c.borrow_mut() = sym::imp::Ctx { inputs, pos: 0, hash: 0xcbf29ce484222325, expect: false, covers: vec![], verbose };
    });
    let r = std::panic::catch_unwind(|| (e.f)());
    let (hash, expect) = CTX.with(|c| {
        let c = c.borrow();
        (c.hash, c.expect)
    });
    match r {
        Ok(()) => ("ok", 0, hash, String::new()),
        Err(p) => match p.downcast_ref::<Stop>() {
            Some(Stop::Prune) => ("pruned", 0, hash, String::new()),
            Some(Stop::Inputs) => ("inputs", 0, hash, String::new()),
            Some(Stop::Check(l)) => ("check", *l, hash, String::new()),
            None => {
                let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                (if expect { "panic-expected" } else { "panic" }, 0, hash, msg)
            }
        },
    }
}

#[cfg(feature = "native")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let find = |n: &str| MODS.iter().flat_map(|m| m.iter()).find(|e| e.name == n).expect("entry");
    let parse = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    match a[1].as_str() {
        // list: name, covers, bounds (tab separated)
        "list" => {
            for m in MODS {
                for e in *m {
                    println!("{}\t{}\t{}", e.name, e.covers, e.bounds);
                }
            }
        }
        // replay ENTRY a,b,c
        "replay" => {
            sym::imp::STRESS.store(true, std::sync::atomic::Ordering::SeqCst);
            let (o, id, hash, msg) = run(find(&a[2]), parse(a.get(3).map(|s| s.as_str()).unwrap_or("")), a.len() > 4);
            println!("outcome={o} id={id} obs={hash:x} msg={msg}");
            std::process::exit(match o {
                "ok" | "panic-expected" => 0,
                "check" | "panic" => 1,
                _ => 4,
            });
        }
        // validate ENTRY RECORDS: every line `outcome hash inputs` must reproduce
        "validate" => {
            std::panic::set_hook(Box::new(|_| {}));
            let e = find(&a[2]);
            let text = std::fs::read_to_string(&a[3]).unwrap();
            let mut n = 0;
            let mut bad = 0;
            for l in text.lines() {
                let mut f = l.split(' ');
                let o = f.next().unwrap();
                let h = f.next().unwrap();
                let i = f.next().unwrap_or("");
                if o != "ok" && o != "panic-expected" {
                    continue;
                }
                let (o2, id, h2, msg) = run(e, parse(i), false);
                n += 1;
                if o2 != o || (o == "ok" && format!("{h2:x}") != h) {
                    bad += 1;
                    if bad <= 5 {
                        println!("MISMATCH {} inputs={i} engine={o}/{h} native={o2}/{h2:x} id={id} msg={msg}", e.name);
                    }
                }
            }
            println!("validated={n} mismatches={bad}");
            std::process::exit(if bad > 0 { 1 } else { 0 });
        }
        _ => std::process::exit(2),
    }
}

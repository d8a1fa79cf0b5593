//! Runs obligations on concrete inputs:
//!   native replay OBLIGATION HEXBYTES      (exit 3: the obligation fails on this input)
//!   native search SEED ITERATIONS SECONDS [OBLIGATION]  (exit 3: prints the failing input)
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    use harness::sym::{OutOfDomain, Source, SRC};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::sync::Mutex;
    static MSG: Mutex<String> = Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| {
        let p = i.payload();
        let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned());
        *MSG.lock().unwrap() = format!("{} ({})", m.unwrap_or_default(), i.location().map(|l| l.to_string()).unwrap_or_default());
    }));
    // Ok(true): holds, Ok(false): out of the domain, Err: fails
    fn run(f: fn()) -> Result<bool, ()> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(()) => Ok(true),
            Err(p) if p.is::<OutOfDomain>() => Ok(false),
            Err(_) => Err(()),
        }
    }
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    let a: Vec<String> = std::env::args().collect();
    let all = harness::all();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let f = all.iter().find(|(n, _)| *n == a[2]).expect("no such obligation").1;
            let h = a.get(3).cloned().unwrap_or_default();
            let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            SRC.with(|s| *s.borrow_mut() = Source::Bytes(b, 0));
            match run(f) {
                Ok(true) => println!("HOLDS {}", a[2]),
                Ok(false) => println!("OUT-OF-DOMAIN {}", a[2]),
                Err(()) => {
                    println!("FAILS {} : {}", a[2], MSG.lock().unwrap());
                    std::process::exit(3)
                }
            }
        }
        Some("search") => {
            let seed: u64 = a[2].parse().unwrap();
            let n: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let sel: Vec<_> = all.iter().filter(|(n, _)| a.get(5).map_or(true, |w| w == n)).collect();
            let share = secs / sel.len().max(1) as f64;
            let (mut tried, mut inside) = (0u64, 0u64);
            for (name, f) in &sel {
                let t0 = std::time::Instant::now();
                for i in 0..n {
                    if i % 64 == 0 && t0.elapsed().as_secs_f64() > share {
                        break;
                    }
                    let s = seed.wrapping_mul(0x1000_0000_01B3).wrapping_add(i).wrapping_mul(0x2545_F491_4F6C_DD1D);
                    SRC.with(|x| *x.borrow_mut() = Source::Rng(s, vec![]));
                    // progress marker for the watchdog of the caller
                    tried += 1;
                    match run(*f) {
                        Ok(true) => inside += 1,
                        Ok(false) => (),
                        Err(()) => {
                            let rec = SRC.with(|x| match &*x.borrow() {
                                Source::Rng(_, r) => hex(r),
                                Source::Bytes(b, _) => hex(b),
                            });
                            println!("FAILS {} {} : {}", name, if rec.is_empty() { "-" } else { &rec }, MSG.lock().unwrap());
                            std::process::exit(3)
                        }
                    }
                }
            }
            println!("SEARCHED {} inputs, {} in the domain", tried, inside);
        }
        _ => {
            for (n, _) in &all {
                println!("{n}");
            }
        }
    }
}

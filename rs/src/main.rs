//! Native interpreter of the contracts: replays failed obligations on the real
//! code and witnesses that every precondition is satisfiable.
#[cfg(not(kani))]
fn main() {
    use contracts::nd::*;
    use std::io::Write;
    use std::os::unix::fs::FileExt;
    use std::panic;
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
    };
    let num = |k: &str, d: u64| opt(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let mode = args.get(1).cloned().unwrap_or_default();
    let (prop, name) = (args.get(2).cloned().unwrap_or_default(), args.get(3).cloned().unwrap_or_default());
    if mode == "list" {
        for (p, t) in contracts::tables() {
            for (n, _) in t {
                println!("{} {}", p, n);
            }
        }
        for (p, t) in contracts::closed_tables() {
            for (n, _) in t {
                println!("{} {} closed", p, n);
            }
        }
        return;
    }
    let mut all = contracts::tables();
    all.extend(contracts::closed_tables());
    let f = all
        .iter()
        .filter(|(p, _)| *p == prop)
        .flat_map(|(_, t)| t.iter())
        .find(|(n, _)| *n == name)
        .expect("no such contract")
        .1;
    let pool: Vec<i64> = opt("--pool")
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|s| s.split_whitespace().filter_map(|x| x.parse().ok()).collect())
        .unwrap_or_default();
    panic::set_hook(Box::new(|_| {}));
    let seed = num("--seed", 1);
    let setup = |case: u64, verbose: bool| {
        GEN.with(|g| {
            let mut g = g.borrow_mut();
            g.s = seed.wrapping_mul(0x1000_0000_01B3) ^ case.wrapping_mul(0x9E37_79B9);
            g.pool = pool.clone();
            g.verbose = verbose;
            g.log.clear();
        })
    };
    let msg = |e: Box<dyn std::any::Any + Send>| -> Option<String> {
        if e.downcast_ref::<Skip>().is_some() {
            return None;
        }
        Some(if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        })
    };
    if mode == "run" {
        let n = num("--cases", 1000);
        let status = std::fs::OpenOptions::new().write(true).create(true).open(opt("--status").expect("--status")).unwrap();
        let limit = std::time::Duration::from_millis(num("--ms", 60000));
        let t0 = std::time::Instant::now();
        let mut skipped = 0;
        let mut done = 0;
        setup(0, false);
        let pool_len = pool.len();
        let _ = pool_len;
        let mut fail = None;
        for case in num("--from", 0)..n {
            if case % 16 == 0 && t0.elapsed() > limit {
                break;
            }
            let _ = status.write_all_at(format!("{:020}", case).as_bytes(), 0);
            GEN.with(|g| g.borrow_mut().s = seed.wrapping_mul(0x1000_0000_01B3) ^ case.wrapping_mul(0x9E37_79B9));
            done += 1;
            match panic::catch_unwind(f) {
                Ok(()) => {}
                Err(e) => match msg(e) {
                    None => skipped += 1,
                    Some(m) => {
                        fail = Some((case, m));
                        break;
                    }
                },
            }
        }
        let hits: u64 = HITS.with(|h| h.borrow().values().sum());
        println!("DONE cases={} skipped={} hits={}", done, skipped, hits);
        HITS.with(|h| {
            for (k, v) in h.borrow().iter() {
                println!("HIT {} {}", v, k);
            }
        });
        if let Some((c, m)) = fail {
            println!("FAIL case={} {}", c, m.replace('\n', " "));
            std::process::exit(1);
        }
        return;
    }
    // replay one case, verbosely
    setup(num("--case", 0), true);
    if let Some(v) = opt("--vals") {
        let s = std::fs::read_to_string(v).unwrap();
        let q = s
            .lines()
            .map(|l| l.split_whitespace().map(|b| b.parse::<u8>().unwrap()).collect())
            .collect();
        GEN.with(|g| g.borrow_mut().vals = Some(q));
    }
    let r = panic::catch_unwind(f);
    GEN.with(|g| println!("INPUTS {}", g.borrow().log.join(" ")));
    let _ = std::io::stdout().flush();
    match r {
        Ok(()) => println!("PASS"),
        Err(e) => match msg(e) {
            None => println!("SKIP"),
            Some(m) => {
                println!("FAIL {}", m);
                std::process::exit(1);
            }
        },
    }
}
#[cfg(kani)]
fn main() {}

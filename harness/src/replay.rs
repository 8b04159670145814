//! Runs harnesses natively: one input vector per line of stdin, one result line each.
//! in:  harness;p0,p1,..;name=hexbits,...
//! out: status;kind:id:ok:a:b ...   (status ok | skip | panic <message>)
use harness::native::{Skip, ST};
use std::io::{BufRead, Write};

fn main() {
    let out = std::io::stdout();
    let mut out = out.lock();
    std::panic::set_hook(Box::new(|_| {}));
    let table: Vec<(&str, fn())> = harness::all();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let parts: Vec<&str> = line.trim().split(';').collect();
        if parts.len() < 3 { continue; }
        let f = match table.iter().find(|(n, _)| *n == parts[0]) {
            Some((_, f)) => *f,
            None => { writeln!(out, "nofn").unwrap(); continue; }
        };
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.params = parts[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            s.vals = parts[2].split(',').filter(|x| !x.is_empty()).map(|kv| {
                let (k, v) = kv.split_once('=').unwrap();
                (k.to_string(), f64::from_bits(u64::from_str_radix(v, 16).unwrap()))
            }).collect();
            s.log.clear();
            s.missing = false;
        });
        let r = std::panic::catch_unwind(f);
        let status = match r {
            Ok(()) => "ok".to_string(),
            Err(e) => {
                if e.is::<Skip>() { "skip".to_string() }
                else {
                    let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
                    format!("panic {}", m.replace([';', '\n'], " "))
                }
            }
        };
        ST.with(|s| {
            let s = s.borrow();
            let l: Vec<String> = s.log.iter().map(|(k, i, ok, a, b)| format!("{k}:{i}:{}:{a:e}:{b:e}", *ok as u8)).collect();
            writeln!(out, "{status};{}", l.join(" ")).unwrap();
        });
    }
}

//! Runs the scripts for the parts outside of the tree itself: normal forms of tag
//! expressions, tag indexes, tag queries on real trees, block stores and block caches.
mod cli;
mod ipfs;
mod keys;
mod lin;
mod stores;
mod tags;
use serde_json::Value as J;
use std::io::{BufRead, BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let f = std::fs::File::open(&args[2]).unwrap();
    let mut out = BufWriter::new(std::fs::File::create(&args[3]).unwrap());
    let tick = Arc::new(AtomicU64::new(0));
    let t2 = tick.clone();
    std::thread::spawn(move || {
        let (mut last, mut n) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let cur = t2.load(Ordering::SeqCst);
            if cur == last {
                n += 1
            } else {
                n = 0;
                last = cur
            }
            if n > 120 {
                println!("HANG {}", cur);
                std::process::exit(3);
            }
        }
    });
    let mut n = 0;
    for line in std::io::BufReader::new(f).lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        n += 1;
        tick.store(n, Ordering::SeqCst);
        println!("EP {}", n);
        let ep: J = serde_json::from_str(&line).unwrap();
        let tr = match args[1].as_str() {
            "dnf" => tags::dnf(&ep),
            "index" => tags::index(&ep),
            "query" => tags::query(&ep),
            "store" => stores::run(&ep),
            "lin" => lin::run(&ep),
            "cli" => cli::run(&ep),
            "ipfs" => ipfs::run(&ep),
            "keys" => keys::run(&ep),
            _ => panic!("usage"),
        };
        serde_json::to_writer(&mut out, &tr).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
    println!("DONE {}", n);
}

pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

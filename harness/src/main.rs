mod decode;
mod exec;
mod seq;
mod store;
mod tt;
use serde_json::{json, Value as J};
use std::io::{BufRead, BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub fn run_episode(ep: &J) -> J {
    let (mut ex, mut b) = exec::Exec::new(&ep["cfg"]);
    let ops = ep["ops"].as_array().unwrap().clone();
    ex.run(&mut b, &ops);
    json!({"id":ep["id"],"cfg":exec::full_cfg(&ep["cfg"]),"blocks":ex.blocks,"ev":ex.events})
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|x| x.as_str()) {
        // bh run SCRIPTS.ndjson TRACE.ndjson
        Some(mode @ "run") | Some(mode @ "seq") => {
            std::panic::set_hook(Box::new(|_| {}));
            let f = std::fs::File::open(&args[2]).unwrap();
            let mut out = BufWriter::new(std::fs::File::create(&args[3]).unwrap());
            let tick = Arc::new(AtomicU64::new(0));
            let t2 = tick.clone();
            std::thread::spawn(move || {
                let mut last = 0;
                let mut n = 0;
                loop {
                    std::thread::sleep(std::time::Duration::from_millis(500));
                    let cur = t2.load(Ordering::SeqCst);
                    if cur == last {
                        n += 1
                    } else {
                        n = 0;
                        last = cur
                    }
                    if n > 120 {
                        println!("HANG {}", cur);
                        std::process::exit(3);
                    }
                }
            });
            let mut n = 0u64;
            for line in std::io::BufReader::new(f).lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                n += 1;
                tick.store(n, Ordering::SeqCst);
                println!("EP {}", n);
                let ep: J = serde_json::from_str(&line).unwrap();
                let tr = if mode == "seq" { seq::run(&ep) } else { run_episode(&ep) };
                serde_json::to_writer(&mut out, &tr).unwrap();
                out.write_all(b"\n").unwrap();
                out.flush().unwrap();
            }
            println!("DONE {}", n);
        }
        // bh dump SCRIPTS.ndjson DIR: the streams the scripts lead to, for fixtures
        Some("dump") => {
            let f = std::fs::File::open(&args[2]).unwrap();
            for line in std::io::BufReader::new(f).lines() {
                let ep: J = serde_json::from_str(&line.unwrap()).unwrap();
                let (mut ex, mut b) = exec::Exec::new(&ep["cfg"]);
                ex.run(&mut b, ep["ops"].as_array().unwrap());
                if b.link().is_some() {
                    let to = format!("{}/{}.json", args[3], ep["id"].as_str().unwrap());
                    std::fs::write(to, exec::dump(&ex, &b, &ep["cfg"]).to_string()).unwrap();
                }
            }
        }
        _ => panic!("usage"),
    }
}

//! Several threads use clones of the same store at the same time.
use crate::stores::{content, Below, S};
use banyan::store::{BlockWriter, MemCache, MemStore, ReadOnlyStore};
use banyan_utils::{sqlite::SqliteStore, tags::Sha256Digest};
use serde_json::{json, Value as J};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

fn clone(s: &S) -> S {
    match s {
        S::Mem(x) => S::Mem(x.clone()),
        S::Cache(x, b) => S::Cache(x.clone(), b.clone()),
        S::Sqlite(x) => S::Sqlite(x.clone()),
    }
}

/// {id, kind, limit, maxblk, cap, slow, sizes: [n], threads: [[op]]}
/// all contents are different; s and e of an event are the times of call and return
pub fn run(ep: &J) -> J {
    let kind = ep["kind"].as_str().unwrap().to_string();
    let g = |k: &str| ep[k].as_u64().unwrap_or(0) as usize;
    let sizes: Vec<u64> = ep["sizes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let datas: Arc<Vec<Vec<u8>>> = Arc::new((1..=sizes.len() as u64).map(|d| content(&kind, d, sizes[d as usize - 1])).collect());
    let links: Arc<Vec<Sha256Digest>> = Arc::new(datas.iter().map(|x| Sha256Digest::digest(x)).collect());
    // how long it takes to compute a digest
    let slow = g("slow") as u64;
    let known: Arc<Vec<(Vec<u8>, Sha256Digest)>> =
        Arc::new(datas.iter().map(|x| x[..x.len().min(16)].to_vec()).zip(links.iter().cloned()).collect());
    let digest = move |x: &[u8]| {
        if slow > 0 {
            std::thread::sleep(std::time::Duration::from_micros(slow));
        }
        known.iter().find(|k| k.0 == x[..x.len().min(16)]).map(|k| k.1).unwrap_or_else(|| Sha256Digest::digest(x))
    };
    let mut s = match kind.as_str() {
        "mem" => S::Mem(MemStore::new(g("limit"), digest)),
        "cache" => {
            let b = Below::default();
            S::Cache(MemCache::new(b.clone(), g("maxblk"), g("cap")), b)
        }
        _ => {
            S::Sqlite(SqliteStore::new(ipfs_sqlite_block_store::BlockStore::memory(ipfs_sqlite_block_store::Config::default()).unwrap()))
        }
    };
    let clock = Arc::new(AtomicU64::new(1));
    let th = ep["threads"].as_array().unwrap();
    let bar = Arc::new(Barrier::new(th.len()));
    let step = |s: &mut S, op: &J, datas: &[Vec<u8>], links: &[Sha256Digest], clock: &AtomicU64| {
        let d = op["d"].as_u64().unwrap() as usize;
        let put = op["op"] == "put";
        let data = if put { datas[d - 1].clone() } else { vec![] };
        let t0 = clock.fetch_add(1, SeqCst);
        let r = crate::caught(|| if put { s.put(data).map(|l| (Some(l), None)) } else { s.get(&links[d - 1]).map(|x| (None, Some(x))) });
        let t1 = clock.fetch_add(1, SeqCst);
        let (r, out, same) = match r {
            Ok(Ok((Some(l), _))) => ("ok", 0, l == links[d - 1]),
            Ok(Ok((_, Some(x)))) => ("ok", datas.iter().position(|y| y[..] == x[..]).map(|x| x as i64 + 1).unwrap_or(-1), true),
            Ok(Ok(_)) => unreachable!(),
            Ok(Err(_)) => ("err", 0, true),
            Err(_) => ("panic", 0, true),
        };
        json!({"op":op["op"],"d":d,"n":datas[d - 1].len(),"s":t0,"e":t1,"r":r,"out":out,"same":same})
    };
    let hs: Vec<_> = th
        .iter()
        .map(|ops| {
            let (mut s, ops, bar, datas, links, clock) = (clone(&s), ops.clone(), bar.clone(), datas.clone(), links.clone(), clock.clone());
            std::thread::spawn(move || {
                bar.wait();
                ops.as_array().unwrap().iter().map(|op| step(&mut s, op, &datas, &links, &clock)).collect::<Vec<_>>()
            })
        })
        .collect();
    let mut evs: Vec<J> = vec![];
    for h in hs {
        evs.extend(h.join().unwrap());
    }
    for d in 1..=sizes.len() {
        evs.push(step(&mut s, &json!({"op":"get","d":d}), &datas, &links, &clock));
    }
    let mut tr = json!({"id":ep["id"],"kind":kind,"limit":g("limit"),"maxblk":g("maxblk"),"cap":g("cap"),"held":0,"big":0,"ev":evs});
    match s {
        S::Mem(m) => {
            // all clones are gone, so this has to succeed
            tr["held"] = m.into_inner().map(|m| json!(m.values().map(|x| x.len()).sum::<usize>())).unwrap_or(json!(-1));
        }
        S::Cache(c, b) => {
            b.0.lock().0.clear();
            let x: Vec<usize> = links.iter().filter_map(|l| c.get(l).ok().map(|x| x.len())).collect();
            tr["held"] = json!(x.iter().sum::<usize>());
            tr["big"] = json!(x.iter().max().cloned().unwrap_or(0));
        }
        _ => {}
    }
    tr
}

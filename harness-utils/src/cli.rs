//! Runs the command line tool on databases of its own and parses what it prints.
use ipfs_sqlite_block_store::{BlockStore, Config};
use libipld::{Block, Cid, DefaultParams};
use parking_lot::Mutex;
use serde_json::{json, Value as J};
use std::io::{BufRead, BufReader};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::sync::Arc;
use std::time::Duration;

fn tool() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("banyan-cli")
}

/// numbers of links in the order in which they appear
#[derive(Default)]
struct Links(Vec<String>);
impl Links {
    fn id(&mut self, x: &str) -> usize {
        if x.is_empty() {
            return 0;
        }
        match self.0.iter().position(|y| y == x) {
            Some(p) => p + 1,
            None => {
                self.0.push(x.into());
                self.0.len()
            }
        }
    }
}

fn field<'a>(l: &'a str, n: &str) -> Option<&'a str> {
    let p = l.find(&format!("{}=", n))? + n.len() + 1;
    l[p..].split(|c| c == ',' || c == ')').next()
}

/// a line of the dump of a tree: (depth, node)
fn node(l: &str, links: &mut Links) -> Option<(usize, J)> {
    let body = l.trim_start_matches(' ');
    let t = match body.split('(').next()? {
        "Branch" => "B",
        "Leaf" => "L",
        "PurgedBranch" => "PB",
        "PurgedLeaf" => "PL",
        _ => return None,
    };
    let num = |n: &str| field(body, n).and_then(|x| x.parse::<i64>().ok());
    let lk = field(body, "link").unwrap_or("").to_string();
    Some((
        (l.len() - body.len()) / 2,
        json!({"t":t,"n":num("count")?,"s":field(body,"sealed")? == "true","lk":links.id(&lk),"k":num("children").unwrap_or(0),"ch":[]}),
    ))
}

/// the nodes from the given line on which are at this depth
fn nest(ls: &[(usize, J)], at: &mut usize, depth: usize) -> Vec<J> {
    let mut res = vec![];
    while *at < ls.len() && ls[*at].0 == depth {
        let mut x = ls[*at].1.clone();
        *at += 1;
        x["ch"] = json!(nest(ls, at, depth + 1));
        res.push(x);
        if depth == 0 {
            break;
        }
    }
    res
}

fn trees(out: &[String], links: &mut Links) -> (Vec<J>, bool) {
    let ls: Vec<(usize, J)> = out.iter().filter_map(|l| node(l, links)).collect();
    let mut res = vec![];
    let mut at = 0;
    while at < ls.len() {
        let before = at;
        res.extend(nest(&ls, &mut at, 0));
        if at == before {
            return (res, false);
        }
    }
    (res, true)
}

/// an event: `0 Key {..} "0"` or `(0, Key {..}, "0")`
fn event(l: &str) -> Option<J> {
    let p = l.find("Key {")?;
    let num = |n: &str| -> Option<i64> {
        let x = &l[l.find(&format!("{}: ", n))? + n.len() + 2..];
        x.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
    };
    let o: i64 = l[..p].trim_matches(|c: char| !c.is_ascii_digit()).parse().ok()?;
    let t0 = l.find("tags: {")? + 7;
    let t1 = t0 + l[t0..].find('}')?;
    let tags: Vec<&str> = l[t0..t1].split(',').map(|x| x.trim().trim_matches('"')).filter(|x| !x.is_empty()).collect();
    let rest = &l[t1..];
    let v = rest[rest.find('"')? + 1..rest.rfind('"')?].to_string();
    Some(json!({"o":o,"l":num("min_lamport")?,"lo":num("min_time")?,"hi":num("max_time")?,"tags":tags,"v":v}))
}

fn call(args: &[String]) -> (i64, Vec<String>) {
    match Command::new(tool()).args(args).stdin(Stdio::null()).stderr(Stdio::null()).output() {
        Ok(o) => (o.status.code().unwrap_or(-1) as i64, String::from_utf8_lossy(&o.stdout).lines().map(|x| x.to_string()).collect()),
        Err(_) => (-2, vec![]),
    }
}

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// copies the database without one block
fn lose(from: &Path, to: &Path, cid: &Cid) {
    let mut a: BlockStore<DefaultParams> = BlockStore::open(from, Config::default()).unwrap();
    let mut b: BlockStore<DefaultParams> = BlockStore::open(to, Config::default()).unwrap();
    let cids: Vec<Cid> = a.get_block_cids().unwrap();
    for c in cids.iter().filter(|c| *c != cid) {
        if let Some(d) = a.get_block(c).unwrap() {
            b.put_block(Block::new_unchecked(*c, d), None).unwrap();
        }
    }
}

/// {id, ops: [{op, ip, vp, ...}]}
pub fn run(ep: &J) -> J {
    let ops = ep["ops"].as_array().unwrap();
    if ops.iter().any(|o| o["op"] == "gossip") {
        return gossip(ep);
    }
    let dir = Dir(std::env::current_dir().unwrap().join(format!("cli-{}", std::process::id())));
    let _ = std::fs::remove_dir_all(&dir.0);
    std::fs::create_dir_all(&dir.0).unwrap();
    let mut dbs = 0;
    let mut db = dir.0.join("0.db");
    let mut links = Links::default();
    let mut evs: Vec<J> = vec![];
    // the roots that were printed as the results, by the number of the operation
    let mut results: Vec<String> = vec![];
    let mut ever: Vec<usize> = vec![];
    for op in ops {
        let name = op["op"].as_str().unwrap();
        let s = |k: &str| op[k].as_str().unwrap_or("").to_string();
        let u = |k: &str| op[k].as_u64().unwrap_or(0);
        // the root made by an earlier operation
        let from = u("from") as usize;
        let root = if from > 0 { results[from - 1].clone() } else { String::new() };
        let mut ev = json!({"op":name,"ip":s("ip"),"vp":s("vp"),"count":u("count"),"batches":u("batches"),"unb":op["unb"] == true,"before":u("before"),
            "tags":op["tags"].as_array().cloned().unwrap_or_default(),"root":links.id(&root),"from":from,"rc":0,"trees":[],"fine":true,"out":[],"nodes":[],"edges":[],
            "odd":false,"new":0,"lk":0,"lines":[],"skip":false});
        let mut result = String::new();
        if from > 0 && root.is_empty() {
            // there is nothing to work on
            ev["skip"] = json!(true);
            ev["lost"] = json!(ever);
            results.push(result);
            evs.push(ev);
            continue;
        }
        // a block of the tree that was last printed for this root
        let pick = |evs: &[J], kind: &str| -> Option<(usize, J)> {
            let id = ev["root"].clone();
            let t = evs.iter().rev().flat_map(|e| e["trees"].as_array().unwrap().iter().rev()).find(|t| t["lk"] == id)?.clone();
            let mut all = vec![];
            fn flat(t: &J, all: &mut Vec<J>) {
                all.push(t.clone());
                for c in t["ch"].as_array().unwrap() {
                    flat(c, all)
                }
            }
            flat(&t, &mut all);
            let ok: Vec<J> = all.into_iter().filter(|x| x["lk"] != 0 && (kind == "any" || x["t"] == kind)).collect();
            if ok.is_empty() {
                None
            } else {
                let x = ok[u("pick") as usize % ok.len()].clone();
                Some((x["lk"].as_u64().unwrap() as usize, x))
            }
        };
        if name == "lose" {
            if let Some((l, _)) = pick(&evs, "any") {
                dbs += 1;
                let to = dir.0.join(format!("{}.db", dbs));
                lose(&db, &to, &Cid::from_str(&links.0[l - 1]).unwrap());
                db = to;
                ev["lk"] = json!(l);
                ever.push(l);
            }
            ev["lost"] = json!(ever);
            results.push(result);
            evs.push(ev);
            continue;
        }
        let mut args: Vec<String> = vec!["--storage".into(), db.to_str().unwrap().into()];
        for (k, f) in &[("ip", "--index-pass"), ("vp", "--value-pass")] {
            if !s(k).is_empty() {
                args.extend(vec![f.to_string(), s(k)]);
            }
        }
        args.push(name.into());
        match name {
            "build" => {
                args.extend(vec!["--count".into(), u("count").to_string(), "--batches".into(), u("batches").to_string()]);
                if op["unb"] == true {
                    args.push("--unbalanced".into());
                }
                if from > 0 {
                    args.extend(vec!["--base".into(), root.clone()]);
                }
            }
            "bench" => args.extend(vec!["--count".into(), u("count").to_string()]),
            "dump-block" => {
                let (l, x) = pick(&evs, op["kind"].as_str().unwrap_or("any")).unwrap_or((ev["root"].as_u64().unwrap() as usize, json!({"t":"B"})));
                ev["lk"] = json!(l);
                ev["kind"] = x["t"].clone();
                args.extend(vec!["--hash".into(), links.0[l - 1].clone()]);
            }
            _ => args.extend(vec!["--root".into(), root.clone()]),
        }
        if name == "forget" {
            args.extend(vec!["--before".into(), u("before").to_string()]);
        }
        for t in op["tags"].as_array().cloned().unwrap_or_default() {
            args.extend(vec!["--tag".into(), t.as_str().unwrap().into()]);
        }
        let (rc, out) = call(&args);
        ev["rc"] = json!(rc);
        match name {
            "dump-block" => {
                // strings, or the counts of the children
                let ls: Vec<J> = out
                    .iter()
                    .skip(1)
                    .map(|l| match serde_json::from_str::<J>(l) {
                        Ok(J::String(x)) => json!(x),
                        Ok(x) if x["keys"]["max_time"].is_array() => json!(x["keys"]["max_time"].as_array().unwrap().len().to_string()),
                        Ok(x) => json!(x["count"].to_string()),
                        Err(_) => json!("?"),
                    })
                    .collect();
                ev["lines"] = json!(ls);
                ev["odd"] = json!(out.first().map(|x| x.as_str()) != Some("ZstdDagCborSeq"));
            }
            // the numbers of events found
            "bench" => ev["lines"] = json!(out.iter().filter(|l| l.parse::<u64>().is_ok()).collect::<Vec<_>>()),
            "graph" => {
                let (n, e, odd) = crate::keys::dot(&out.join("\n"));
                ev["nodes"] = json!(n);
                ev["edges"] = json!(e);
                ev["odd"] = json!(odd);
            }
            _ => {
                let (t, fine) = trees(&out, &mut links);
                ev["fine"] = json!(fine);
                ev["out"] = json!(out.iter().filter_map(|l| event(l)).collect::<Vec<_>>());
                if rc == 0 && ["build", "pack", "forget", "repair"].contains(&name) {
                    let lk = t.last().map(|t| t["lk"].as_u64().unwrap() as usize).unwrap_or(0);
                    ev["new"] = json!(lk);
                    if lk > 0 {
                        result = links.0[lk - 1].clone();
                    }
                    if name != "build" {
                        // the printed summary has the same link
                        let want = if lk > 0 { format!("Some({})", result) } else { "None".into() };
                        ev["odd"] = json!(!out.iter().any(|l| l.starts_with("Tree {") && l.contains(&want)));
                    }
                }
                ev["trees"] = json!(t);
            }
        }
        // the same block may have been written again
        if !ever.is_empty() {
            let mut a: BlockStore<DefaultParams> = BlockStore::open(&db, Config::default()).unwrap();
            ever.retain(|l| !a.has_block(&Cid::from_str(&links.0[l - 1]).unwrap()).unwrap());
        }
        ev["lost"] = json!(ever);
        results.push(result);
        evs.push(ev);
    }
    json!({"id":ep["id"],"gossip":false,"ev":evs})
}

/// one process sends a stream over the node, another one receives it
fn gossip(ep: &J) -> J {
    let op = &ep["ops"][0];
    let node = crate::ipfs::fresh();
    node.lock().flaky = op["flaky"].as_u64().unwrap_or(0);
    let start = |c: &str, t: &str| Command::new(tool()).args(&["--storage", "ipfs", c, "--topic", t]).stdin(Stdio::null()).stderr(Stdio::null()).stdout(Stdio::piped()).spawn().unwrap();
    let read = |p: &mut std::process::Child| {
        let out = p.stdout.take().unwrap();
        let seen = Arc::new(Mutex::new(Vec::<String>::new()));
        let seen2 = seen.clone();
        let h = std::thread::spawn(move || {
            for l in BufReader::new(out).lines().flatten() {
                seen2.lock().push(l);
            }
        });
        (h, seen)
    };
    let mut r = start("recv-stream", "t&x");
    let (rh, rs) = read(&mut r);
    let up = crate::ipfs::wait(|| node.lock().subscribed() > 0, 20000);
    let mut s = start("send-stream", "t&x");
    let (sh, ss) = read(&mut s);
    let n = op["n"].as_u64().unwrap() as usize;
    crate::ipfs::wait(|| node.lock().published() >= n, 30000);
    // from now on everything works, so the receiver has to catch up
    node.lock().flaky = 0;
    let m = node.lock().published();
    crate::ipfs::wait(|| node.lock().published() >= m + 2, 20000);
    let _ = s.kill();
    let _ = s.wait();
    let _ = sh.join();
    crate::ipfs::wait(|| rs.lock().len() >= m + 2, 10000);
    std::thread::sleep(Duration::from_millis(300));
    let _ = r.kill();
    let _ = r.wait();
    let _ = rh.join();
    let (ro, so) = (rs.lock().clone(), ss.lock().clone());
    let got: Vec<J> = ro.iter().map(|l| event(l).unwrap_or(json!({"o":-1,"l":0,"lo":0,"hi":0,"tags":[],"v":""}))).collect();
    let sent = so.iter().filter(|l| l.starts_with("publishing")).count();
    json!({"id":ep["id"],"gossip":true,"ev":[{"up":up,"sent":sent.max(node.lock().published()),"n":m + 2,"flaky":op["flaky"].as_u64().unwrap_or(0),"out":got}]})
}

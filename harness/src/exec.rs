//! Executes a script of operations against the real code and records a trace.
use crate::decode;
use crate::store::{quiet, RecStore};
use crate::tt::*;
use banyan::index::{CompactSeq, Index, NodeInfo};
use banyan::query::{AllQuery, Query};
use banyan::store::{BlockWriter, BranchCache, MemCache, MemWriter, ReadOnlyStore};
use banyan::{Config, FilteredChunk, Forest, Secrets, StreamBuilder, Transaction, Tree};
use futures::prelude::*;
use futures::task::{noop_waker, Context, Poll};
use serde_json::{json, Value as J};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

/// Store used by the forest: the recording store, optionally behind banyan's MemCache
#[derive(Clone)]
pub enum AnyStore {
    Rec(RecStore),
    Mem(MemCache<Link, RecStore>),
}
pub enum AnyWriter {
    Rec(RecStore),
    Mem(MemWriter<Link, RecStore>),
}
impl ReadOnlyStore<Link> for AnyStore {
    fn get(&self, link: &Link) -> anyhow::Result<Box<[u8]>> {
        match self {
            AnyStore::Rec(x) => x.get(link),
            AnyStore::Mem(x) => x.get(link),
        }
    }
}
impl BlockWriter<Link> for AnyWriter {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Link> {
        match self {
            AnyWriter::Rec(x) => x.put(data),
            AnyWriter::Mem(x) => x.put(data),
        }
    }
}

pub type F = Forest<TT, AnyStore>;
pub type X = Transaction<TT, AnyStore, AnyWriter>;
pub type B = StreamBuilder<TT, Val>;
pub type T = Tree<TT, Val>;

pub struct Exec {
    pub rec: RecStore,
    pub txn: X,
    pub bcache: BranchCache<TT>,
    pub cfg: Config,
    pub secrets: Secrets,
    pub raw: ([u8; 32], [u8; 32]),
    pub snaps: Vec<T>,
    pub events: Vec<J>,
    pub blocks: Vec<J>,
    pub nputs: usize,
    pub skip_reads: bool,
    others: Vec<(B, Secrets)>,
    foreign: bool,
}

fn g(j: &J, k: &str, d: u64) -> u64 {
    j[k].as_u64().unwrap_or(d)
}

pub fn config(j: &J) -> Config {
    Config {
        max_summary_branches: g(j, "sb", 4) as usize,
        max_key_branches: g(j, "kb", 4) as usize,
        max_leaf_count: g(j, "lc", 10) as usize,
        target_leaf_size: g(j, "tls", 1 << 20) as usize,
        max_uncompressed_leaf_size: g(j, "mus", 16 * 1024 * 1024) as usize,
        zstd_level: g(j, "zl", 1) as i32,
    }
}

/// index and value key, not taken from what the code makes of them
pub fn rawkeys(j: &J) -> ([u8; 32], [u8; 32]) {
    let key = |n: u64| -> [u8; 32] {
        let mut res = [n as u8; 32];
        if n >= 10 {
            // all kinds of bits
            let mut x = n;
            for b in res.iter_mut() {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                *b = (x >> 56) as u8;
            }
        }
        res
    };
    (key(g(j, "ik", 1)), key(g(j, "vk", 2)))
}

pub fn secrets(j: &J) -> Secrets {
    let (a, b) = rawkeys(j);
    Secrets::new(a.into(), b.into())
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// what is needed to go on with the stream in another process
pub fn dump(ex: &Exec, b: &B, cfg: &J) -> J {
    let blocks: Vec<String> = {
        let g = ex.rec.0.lock();
        g.blocks.iter().map(|(_, d)| d.iter().map(|x| format!("{:02x}", x)).collect()).collect()
    };
    let rr = ex.events.iter().any(|e| e["r"] == "ok" && (e["op"] == "retain" || e["op"] == "repair"));
    json!({"cfg":full_cfg(cfg),"blocks":blocks,"root":ex.root(b),"rr":rr})
}

const CAP: usize = 20_000;

pub fn index_json(rec: &RecStore, ix: &Index<TT>) -> J {
    let link = ix.link().map(|l| rec.id_of(&l)).unwrap_or(0);
    match ix {
        Index::Leaf(x) => json!({"t":"L","link":link,"sealed":x.sealed,"level":0,"count":x.keys.len(),
            "keys":x.keys.0.iter().map(|k| k.0).collect::<Vec<_>>(),"kl":[],"sums":[],"vb":x.value_bytes,"kb":0}),
        Index::Branch(x) => json!({"t":"B","link":link,"sealed":x.sealed,"level":x.level,"count":x.count,
            "keys":[],"kl":[],"sums":x.summaries.to_vec().iter().map(|r| vec![r.0,r.1]).collect::<Vec<_>>(),"vb":x.value_bytes,"kb":x.key_bytes}),
    }
}

pub fn no_index() -> J {
    json!({"t":"N","link":0,"sealed":false,"level":-1,"count":0,"keys":[],"kl":[],"sums":[],"vb":0,"kb":0})
}

fn brief(rec: &RecStore, ix: &Index<TT>) -> J {
    json!([
        if ix.level() == 0 && matches!(ix, Index::Leaf(_)) { 0 } else { 1 },
        ix.link().map(|l| rec.id_of(&l)).unwrap_or(0),
        ix.level(),
        ix.count(),
        if ix.sealed() { 1 } else { 0 }
    ])
}

pub type Extra = (u32, bool, u64);

/// extra data that needs the node itself
pub fn extra_loaded(info: &NodeInfo<TT, AnyStore>) -> Extra {
    let e = extra_of(info);
    let n = quiet(|| match info {
        NodeInfo::Branch(_, l) => l.load().and_then(|x| {
            let y = l.load_cached()?;
            let n = |x: &banyan::index::Branch<TT>| x.children.iter().map(|c| c.count()).sum::<u64>();
            Ok(if n(&x) == n(&y) { n(&x) } else { u64::MAX })
        }),
        NodeInfo::Leaf(_, l) => l.load().and_then(|x| Ok(x.as_ref().items::<Val>()?.len() as u64)),
        _ => Ok(e.2),
    });
    // what can not be loaded is judged by the read itself
    (e.0, e.1, n.unwrap_or(e.2).min(INF))
}

/// Items that are made while the call is running, from what is read from the stream as it was before the call.
/// Panics in place of the item with the given number.
struct Lazy {
    forest: F,
    tree: T,
    els: std::vec::IntoIter<(Key, Val)>,
    read: bool,
    panic: Option<u64>,
    rec: RecStore,
}

impl Iterator for Lazy {
    type Item = (Key, Val);
    fn next(&mut self) -> Option<(Key, Val)> {
        if let Some(n) = self.panic.as_mut() {
            if *n == 0 {
                self.rec.0.lock().faults += 1;
                panic!("planned panic");
            }
            *n -= 1;
        }
        if self.read {
            quiet(|| {
                let _ = self.forest.get::<Val>(&self.tree, self.tree.count() / 2);
                let _ = self.forest.collect::<Val>(&self.tree);
            });
        }
        self.els.next()
    }
}

pub fn extra_of(info: &NodeInfo<TT, AnyStore>) -> Extra {
    match info {
        NodeInfo::Branch(b, _) => (b.level, false, b.count),
        NodeInfo::PurgedBranch(b) => (b.level, true, b.count),
        NodeInfo::Leaf(l, _) => (0, false, l.keys.count()),
        NodeInfo::PurgedLeaf(l) => (0, true, l.keys.count()),
    }
}

type Chunk = FilteredChunk<(u64, Key, Val), Extra>;
fn chunk_json(c: &Chunk) -> J {
    json!({"lo":c.range.start.min(INF),"hi":c.range.end.min(INF),
        "d":c.data.iter().map(|(o,k,v)| json!([o,k.0,v.id])).collect::<Vec<_>>(),
        "x":[c.extra.0, if c.extra.1 {1} else {0}, c.extra.2]})
}

fn chunk_p(c: &Chunk, p: usize) -> J {
    let mut j = chunk_json(c);
    j["p"] = json!(p);
    j
}

/// a query as it appears in the trace: numbers are clamped to what TLC can represent
fn logq(q: &J) -> J {
    match q {
        J::Object(m) => J::Object(m.iter().map(|(k, v)| (k.clone(), logq(v))).collect()),
        J::Array(a) => J::Array(a.iter().map(logq).collect()),
        J::Number(n) => json!(n.as_u64().map(|x| x.min(INF)).unwrap_or(INF)),
        x => x.clone(),
    }
}

/// the configuration with all defaults filled in
pub fn full_cfg(j: &J) -> J {
    let c = config(j);
    json!({"lc":c.max_leaf_count,"kb":c.max_key_branches,"sb":c.max_summary_branches,
        "tls":c.target_leaf_size,"mus":c.max_uncompressed_leaf_size,"zl":c.zstd_level,
        "cache":g(j,"cache",1<<20),"memcache":g(j,"memcache",0),"mcblk":g(j,"mcblk",1<<20),
        "ik":g(j,"ik",1),"vk":g(j,"vk",2),"exact":j["exact"].as_bool().unwrap_or(false)})
}

impl Exec {
    pub fn new(cfgj: &J) -> (Self, B) {
        let rec = RecStore::default();
        let cache = BranchCache::new(g(cfgj, "cache", 1 << 20) as usize);
        let mc = g(cfgj, "memcache", 0) as usize;
        let (store, writer) = if mc > 0 {
            let m = MemCache::new(rec.clone(), g(cfgj, "mcblk", 1 << 20) as usize, mc);
            let r = rec.clone();
            let w = m.write(|_| Ok(r.clone())).unwrap();
            (AnyStore::Mem(m), AnyWriter::Mem(w))
        } else {
            (AnyStore::Rec(rec.clone()), AnyWriter::Rec(rec.clone()))
        };
        let bcache = cache.clone();
        let txn = Transaction::new(Forest::new(store, cache), writer);
        let cfg = config(cfgj);
        let secrets = secrets(cfgj);
        let b = StreamBuilder::new(cfg.clone(), secrets.clone());
        (
            Self {
                rec,
                txn,
                bcache,
                cfg,
                secrets,
                raw: rawkeys(cfgj),
                snaps: vec![],
                events: vec![],
                blocks: vec![],
                nputs: 0,
                skip_reads: false,
                others: vec![],
                foreign: false,
            },
            b,
        )
    }

    /// decode newly written blocks into self.blocks; returns ids put since the last call
    fn drain(&mut self) -> Vec<usize> {
        let at = self.events.len() + 1;
        let g = self.rec.0.lock();
        let puts = g.puts[self.nputs..].to_vec();
        let ctx = decode::Ctx {
            ids: &g.ids,
            index_key: self.raw.0.into(),
            value_key: self.raw.1.into(),
        };
        for i in self.blocks.len()..g.blocks.len() {
            let mut b = decode::block(&ctx, &g.blocks[i].1);
            if self.foreign && b["k"] == "X" {
                // a block of another stream
                b["k"] = json!("F");
                b["why"] = json!("");
            }
            b["at"] = json!(at);
            b["size"] = json!(g.blocks[i].1.len());
            let l = &g.blocks[i].0 .0;
            b["h"] = json!(u32::from_le_bytes([l[0], l[1], l[2], l[3] & 0x3f]));
            self.blocks.push(b);
        }
        drop(g);
        self.nputs += puts.len();
        puts
    }

    fn begin(&mut self) {
        let mut g = self.rec.0.lock();
        g.gets.clear();
        g.faults = 0;
    }

    fn finish(&mut self, mut ev: J) {
        let puts = self.drain();
        let (gets, faults) = {
            let g = self.rec.0.lock();
            (g.gets.clone(), g.faults)
        };
        ev["puts"] = json!(puts);
        let att: Vec<J> = {
            let mut g = self.rec.0.lock();
            let a = std::mem::take(&mut g.attempts);
            a.iter()
                .map(|d| {
                    let (off, len) = decode::position(d);
                    let l = Link::digest(d);
                    let h = u32::from_le_bytes([l.0[0], l.0[1], l.0[2], l.0[3] & 0x3f]);
                    json!([off.min(INF), len, g.ids.get(&l).cloned().unwrap_or(0), h])
                })
                .collect()
        };
        ev["att"] = json!(att);
        ev["gets"] = json!(gets);
        ev["flt"] = json!(faults);
        ev["nb"] = json!(self.blocks.len());
        for k in ["r", "msg"] {
            if ev[k].is_null() {
                ev[k] = json!("");
            }
        }
        self.events.push(ev);
    }

    fn root(&self, b: &B) -> J {
        b.index().map(|x| index_json(&self.rec, x)).unwrap_or_else(no_index)
    }
    fn troot(&self, t: &T) -> J {
        t.index().map(|x| index_json(&self.rec, x)).unwrap_or_else(no_index)
    }

    fn finish_mut(&mut self, b: &B, mut ev: J, r: Result<anyhow::Result<()>, String>) {
        match r {
            Ok(Ok(())) => ev["r"] = json!("ok"),
            Ok(Err(e)) => {
                ev["r"] = json!("err");
                ev["msg"] = json!(e.to_string());
            }
            Err(p) => {
                ev["r"] = json!("panic");
                ev["msg"] = json!(p);
            }
        }
        ev["root"] = self.root(b);
        ev["count"] = json!(b.count());
        ev["lvl"] = json!(b.level());
        ev["empty"] = json!(b.is_empty());
        self.finish(ev);
    }

    /// block ids reachable from the root index, depth first
    fn reachable(&self, b: &B, what: &str) -> Vec<usize> {
        // from the recorded, independently decoded blocks
        fn go(blocks: &[J], ix: &J, what: &str, out: &mut Vec<usize>) {
            let link = ix["link"].as_i64().unwrap_or(0);
            if link <= 0 {
                return;
            }
            let id = link as usize;
            let leaf = ix["t"] == "L";
            if what == "all" || (leaf && what == "leaf") || (!leaf && what == "branch")
                || (what == "sealed" && ix["sealed"] == true) {
                out.push(id);
            }
            for c in blocks[id - 1]["ch"].as_array().unwrap() {
                go(blocks, c, what, out);
            }
        }
        let mut out = vec![];
        go(&self.blocks, &self.root(b), what, &mut out);
        if what == "nonroot" {
            go(&self.blocks, &self.root(b), "all", &mut out);
            if !out.is_empty() {
                out.remove(0);
            }
        }
        out
    }

    pub fn run(&mut self, b: &mut B, ops: &[J]) {
        for op in ops {
            self.step(b, op);
        }
    }

    fn els(op: &J) -> Vec<(Key, Val)> {
        op["els"]
            .as_array()
            .unwrap()
            .iter()
            .map(|e| {
                let kl = g(e, "kl", 0);
                let links = e["l"]
                    .as_array()
                    .map(|x| x.iter().map(|l| l.as_u64().unwrap()).collect())
                    .unwrap_or_default();
                (
                    Key(g(e, "k", 0), if kl > 0 { Some(ext_cid(kl)) } else { None }),
                    Val::new(g(e, "v", 0), g(e, "s", 0) as usize, links),
                )
            })
            .collect()
    }

    fn step(&mut self, b: &mut B, op: &J) {
        let name = op["op"].as_str().unwrap().to_string();
        match name.as_str() {
            "extend" | "extend_unpacked" | "push" => {
                let els = Self::els(op);
                let logged: Vec<J> = els
                    .iter()
                    .map(|(k, v)| json!([k.0, v.id, v.encoded_len()]))
                    .collect();
                self.begin();
                let rec = self.rec.clone();
                let txn = &mut self.txn;
                let plain = op["lazy"] != true && op["panic"].is_null();
                let els = if name == "push" || plain {
                    Ok(els)
                } else {
                    Err(Lazy {
                        forest: (**txn).clone(),
                        tree: b.snapshot(),
                        els: els.into_iter(),
                        read: op["lazy"] == true,
                        panic: op["panic"].as_u64(),
                        rec,
                    })
                };
                let els = match els {
                    Ok(els) => els,
                    Err(lazy) => {
                        let r = catch_unwind(AssertUnwindSafe(|| match name.as_str() {
                            "extend" => txn.extend(b, lazy),
                            _ => txn.extend_unpacked(b, lazy),
                        }))
                        .map_err(panic_msg);
                        let r = match r {
                            Err(p) if p == "planned panic" => Ok(Err(anyhow::anyhow!(p))),
                            r => r,
                        };
                        self.finish_mut(b, json!({"op":name,"els":logged}), r);
                        return;
                    }
                };
                let r = catch_unwind(AssertUnwindSafe(|| match name.as_str() {
                    "extend" => txn.extend(b, els),
                    "extend_unpacked" => txn.extend_unpacked(b, els),
                    _ => {
                        for (k, v) in els {
                            txn.push(b, k, v)?;
                        }
                        Ok(())
                    }
                }))
                .map_err(panic_msg);
                self.finish_mut(b, json!({"op":name,"els":logged}), r);
            }
            "pack" => {
                self.begin();
                let txn = &mut self.txn;
                let r = catch_unwind(AssertUnwindSafe(|| txn.pack(b))).map_err(panic_msg);
                self.finish_mut(b, json!({"op":name}), r);
            }
            "retain" => {
                let q = mk_query(&op["q"]);
                self.begin();
                let txn = &mut self.txn;
                let r = catch_unwind(AssertUnwindSafe(|| txn.retain(b, &q))).map_err(panic_msg);
                self.finish_mut(b, json!({"op":name,"q":logq(&op["q"])}), r);
            }
            "repair" => {
                self.begin();
                let txn = &mut self.txn;
                let mut n = 0usize;
                let mut warn = 0usize;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let rep = txn.repair(b)?;
                    n = rep.iter().filter(|x| x.starts_with("forgetting")).count();
                    warn = rep.len() - n;
                    Ok(())
                }))
                .map_err(panic_msg);
                self.finish_mut(b, json!({"op":name,"rep":n,"warn":warn}), r);
            }
            "txn" => {
                let commit = op["commit"].as_bool().unwrap();
                self.begin();
                let ev = json!({"op":"txn_begin"});
                self.finish_mut(b, ev, Ok(Ok(())));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut t = b.transaction();
                    let ops = op["ops"].as_array().unwrap().clone();
                    self.run(&mut *t, &ops);
                    if op["unwind"] == true {
                        // the transaction is dropped because something else failed
                        panic!("planned panic");
                    }
                    if commit {
                        t.commit();
                    }
                }));
                match r.map_err(panic_msg) {
                    Err(p) if p != "planned panic" => panic!("{}", p),
                    _ => {}
                }
                self.begin();
                self.finish_mut(b, json!({"op":"txn_end","commit":commit}), Ok(Ok(())));
            }
            "snap" => {
                self.snaps.push(b.snapshot());
                self.begin();
                let s = self.snaps.len();
                let root = self.troot(&self.snaps[s - 1]);
                self.finish(json!({"op":"snap","s":s,"root":root,"r":"ok"}));
            }
            "reload" => {
                if let Some(link) = b.link() {
                    self.begin();
                    let forest: F = (*self.txn).clone();
                    let (s, c) = (self.secrets.clone(), self.cfg.clone());
                    let mut nb = None;
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        nb = Some(forest.load_stream_builder::<Val>(s, c, link)?);
                        Ok(())
                    }))
                    .map_err(panic_msg);
                    if let Some(nb) = nb {
                        *b = nb;
                    }
                    self.finish_mut(b, json!({"op":"reload"}), r);
                }
            }
            "load_fixture" => {
                // a stream written by an earlier build; its blocks are the first ones in the store
                let f: J = serde_json::from_str(&std::fs::read_to_string(op["file"].as_str().unwrap()).unwrap()).unwrap();
                {
                    let mut g = self.rec.0.lock();
                    assert!(g.blocks.is_empty());
                    for h in f["blocks"].as_array().unwrap() {
                        let data = unhex(h.as_str().unwrap());
                        let link = Link::digest(&data);
                        let id = g.blocks.len() + 1;
                        g.ids.insert(link, id);
                        g.blocks.push((link, data));
                    }
                }
                self.begin();
                let link = self.rec.link_of(g(&f["root"], "link", 1) as usize);
                let forest: F = (*self.txn).clone();
                let (s, c) = (self.secrets.clone(), self.cfg.clone());
                let mut nb = None;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    nb = Some(forest.load_stream_builder::<Val>(s, c, link)?);
                    Ok(())
                }))
                .map_err(panic_msg);
                if let Some(nb) = nb {
                    *b = nb;
                }
                self.finish_mut(b, json!({"op":"load_fixture","from":f["root"],"rr":f["rr"]}), r);
            }
            "load_tree" => {
                // load a snapshot's tree from its link, as a new snapshot
                let t = self.tree(b, op);
                if let Some(link) = t.link() {
                    self.begin();
                    let from = self.troot(&t);
                    let s = self.secrets.clone();
                    let forest: F = (*self.txn).clone();
                    let mut nt = None;
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        nt = Some(forest.load_tree::<Val>(s, link)?);
                        Ok(())
                    }))
                    .map_err(panic_msg);
                    let root = nt.as_ref().map(|t| self.troot(t)).unwrap_or_else(no_index);
                    if let Some(nt) = nt {
                        self.snaps.push(nt);
                    }
                    let mut ev = json!({"op":"load_tree","s":self.snaps.len(),"from":from,"root":root});
                    set_r(&mut ev, r);
                    self.finish(ev);
                }
            }
            "lose" => {
                let of = op["of"].as_str().unwrap_or("all");
                let cand = if of == "any" {
                    (1..=self.blocks.len()).collect()
                } else {
                    self.reachable(b, of)
                };
                let mut ids = HashSet::new();
                if !cand.is_empty() {
                    for p in op["pick"].as_array().unwrap() {
                        ids.insert(cand[p.as_u64().unwrap() as usize % cand.len()]);
                    }
                }
                let mut ids: Vec<usize> = ids.into_iter().collect();
                ids.sort_unstable();
                let garble = op["garble"].as_u64();
                {
                    let mut g = self.rec.0.lock();
                    for id in &ids {
                        match garble {
                            Some(h) => {
                                let bad = {
                                    let ctx = decode::Ctx {
                                        ids: &g.ids,
                                        index_key: self.raw.0.into(),
                                        value_key: self.raw.1.into(),
                                    };
                                    decode::garble(&ctx, &g.blocks[*id - 1].1, h)
                                };
                                g.garbled.insert(*id, bad);
                            }
                            None => {
                                g.lost.insert(*id);
                            }
                        }
                    }
                }
                self.begin();
                self.finish(json!({"op":"lose","ids":ids,"r":"ok"}));
            }
            "heal" => {
                let ids: Vec<usize> = {
                    let mut g = self.rec.0.lock();
                    let mut ids: Vec<usize> = g.lost.drain().collect();
                    ids.extend(g.garbled.drain().map(|x| x.0));
                    ids
                };
                self.begin();
                self.finish(json!({"op":"heal","ids":ids,"r":"ok"}));
            }
            "fail_put" => self.rec.arm_put(g(op, "n", 1), g(op, "c", 1)),
            "fail_get" => self.rec.arm_get(g(op, "n", 1), g(op, "c", 1)),
            "disarm" => self.rec.disarm(),
            "cache_reset" => {
                if let Some(n) = std::num::NonZeroUsize::new(g(op, "n", 1000) as usize) {
                    self.bcache.reset(n);
                }
            }
            "drop_cache" => {
                // a new forest over the same store, with cold caches
                let cap = g(op, "cache", 1 << 20) as usize;
                let rec = self.rec.clone();
                self.bcache = BranchCache::new(cap);
                self.txn = Transaction::new(
                    Forest::new(AnyStore::Rec(rec.clone()), self.bcache.clone()),
                    AnyWriter::Rec(rec),
                );
            }
            "stream" => self.stream_op(b, op),
            "other" => self.other_op(b, op),
            "threads" => self.threads_op(b, op),
            "wrongkey" => self.wrongkey_op(b, op),
            _ => {
                if !self.skip_reads {
                    self.read_op(b, op)
                }
            }
        }
    }

    fn tree(&self, b: &B, op: &J) -> T {
        let t = g(op, "t", 0) as usize;
        if t == 0 || self.snaps.is_empty() {
            b.snapshot()
        } else {
            self.snaps[(t - 1) % self.snaps.len()].clone()
        }
    }

    fn read_op(&mut self, b: &B, op: &J) {
        let tree = self.tree(b, op);
        let forest: F = (*self.txn).clone();
        self.begin();
        let mut ev = json!({"op":op["op"],"root":self.troot(&tree),"t":g(op,"t",0)});
        let r = catch_unwind(AssertUnwindSafe(|| do_read(&self.rec, &forest, &tree, b, op, &mut ev)))
            .map_err(panic_msg);
        set_r(&mut ev, r);
        self.finish(ev);
    }

    /// A step of another stream, with its own secrets, over the same forest, store and caches
    fn other_op(&mut self, b: &B, op: &J) {
        let j = g(op, "s", 1) as usize;
        while self.others.len() < j {
            self.others.push((StreamBuilder::new(self.cfg.clone(), self.secrets.clone()), self.secrets.clone()));
        }
        let what = op["do"].as_str().unwrap();
        let els = if op["els"].is_null() { vec![] } else { Self::els(op) };
        let logged: Vec<J> = els.iter().map(|(k, v)| json!([k.0, v.id, v.encoded_len()])).collect();
        self.begin();
        self.foreign = true;
        let q = mk_query(&op["q"]);
        let mut ev = json!({"op":"other","s":j,"do":what,"els2":logged,"q":logq(&op["q"]),"out":[],"flt2":[]});
        let main = self.secrets.clone();
        let cfg = self.cfg.clone();
        let txn = &mut self.txn;
        let (ob, osec) = &mut self.others[j - 1];
        let r = catch_unwind(AssertUnwindSafe(|| -> anyhow::Result<()> {
            let forest: F = (**txn).clone();
            match what {
                "new" => {
                    let ks = rawkeys(op);
                    *osec = Secrets::new(ks.0.into(), ks.1.into());
                    *ob = StreamBuilder::new(config(&op["cfg"]), osec.clone());
                }
                "fork" => {
                    *osec = main.clone();
                    *ob = match b.link() {
                        Some(l) => forest.load_stream_builder::<Val>(main, cfg, l)?,
                        None => {
                            // nothing to load: empty, or everything forgotten
                            ev["do"] = json!("new");
                            StreamBuilder::new(cfg, main)
                        }
                    };
                }
                "extend" => txn.extend(ob, els)?,
                "extend_unpacked" => txn.extend_unpacked(ob, els)?,
                "pack" => txn.pack(ob)?,
                "reload" => {
                    if let Some(l) = ob.link() {
                        *ob = forest.load_stream_builder::<Val>(osec.clone(), cfg, l)?;
                    }
                }
                _ => {}
            }
            let t = ob.snapshot();
            ev["out"] = json!(coll_json(forest.collect(&t)?));
            let xs = forest.iter_filtered(&t, q).collect::<anyhow::Result<Vec<(u64, Key, Val)>>>()?;
            ev["flt2"] = json!(xs.iter().map(|(o, k, v)| json!([o, k.0, v.id])).collect::<Vec<J>>());
            Ok(())
        }))
        .map_err(panic_msg);
        set_r(&mut ev, r);
        self.finish(ev);
        self.foreign = false;
    }

    fn wrongkey_op(&mut self, b: &B, op: &J) {
        // read the current tree with other keys: which = "index" | "value"
        let which = op["which"].as_str().unwrap().to_string();
        let (a, v) = self.raw;
        let mut wrong = if op["bit"].is_null() { [99u8; 32] } else if which == "index" { a } else { v };
        if let Some(bit) = op["bit"].as_u64() {
            // only a single bit is wrong
            wrong[bit as usize / 8 % 32] ^= 1 << (bit % 8);
        }
        let s = if which == "index" {
            Secrets::new(wrong.into(), v.into())
        } else {
            Secrets::new(a.into(), wrong.into())
        };
        if let Some(link) = b.link() {
            let rec = self.rec.clone();
            let mut forest: F = Forest::new(AnyStore::Rec(rec), BranchCache::new(0));
            if op["warm"] == true {
                // with everything in the caches that was read with the right keys
                forest = (*self.txn).clone();
                let t = b.snapshot();
                let _ = catch_unwind(AssertUnwindSafe(|| forest.load_tree::<Val>(self.secrets.clone(), link).is_ok()));
                let _ = catch_unwind(AssertUnwindSafe(|| forest.iter_filtered(&t, AllQuery).count()));
            }
            self.begin();
            let mut ev = json!({"op":"wrongkey","which":which,"root":self.root(b),"n":0,"load":"err","keys":[]});
            let r = catch_unwind(AssertUnwindSafe(|| -> anyhow::Result<()> {
                let t = forest.load_tree::<Val>(s, link)?;
                ev["load"] = json!("ok");
                // index data must be readable with the right index key even when the value key is wrong
                let mut ks = vec![];
                for ix in forest.iter_index(&t, AllQuery) {
                    if let Index::Leaf(l) = ix? {
                        ks.extend(l.keys().map(|k| k.0));
                    }
                }
                ev["keys"] = json!(ks);
                let mut n = 0;
                // garbage is slow to decompress, so not all of them
                for i in (0..t.count()).step_by(1 + t.count() as usize / 6) {
                    if let Ok(Some(_)) = forest.get(&t, i) {
                        n += 1;
                    }
                }
                for x in forest.iter_filtered(&t, AllQuery) {
                    if x.is_ok() {
                        n += 1;
                    }
                }
                ev["n"] = json!(n);
                Ok(())
            }))
            .map_err(panic_msg);
            set_r(&mut ev, r);
            self.finish(ev);
        }
    }

    /// Streaming over a sequence of growing trees with per-tree faults
    fn stream_op(&mut self, b: &B, op: &J) {
        let kind = op["kind"].as_str().unwrap().to_string();
        let trees: Vec<T> = op["trees"]
            .as_array()
            .unwrap()
            .iter()
            .map(|t| self.tree(b, &json!({ "t": t })))
            .collect();
        let faults: Vec<J> = op["faults"].as_array().cloned().unwrap_or_default();
        let forest: F = Forest::new(AnyStore::Rec(self.rec.clone()), BranchCache::new(0));
        let roots: Vec<J> = trees.iter().map(|t| self.troot(t)).collect();
        let lo = g(op, "lo", 0);
        let hi = op["hi"].as_u64().unwrap_or(u64::MAX);
        let q = mk_query(&op["q"]);
        self.begin();
        let polled = Arc::new(AtomicUsize::new(0));
        let fbase = Arc::new(parking_lot::Mutex::new(Vec::<u64>::new()));
        let rec = self.rec.clone();
        let p2 = polled.clone();
        let f2 = fbase.clone();
        let keep_open = kind != "threaded";
        let it = trees.into_iter().enumerate().map(move |(i, t)| {
            p2.fetch_add(1, Ordering::SeqCst);
            f2.lock().push(rec.0.lock().faults);
            rec.disarm();
            if let Some(f) = faults.get(i) {
                if let Some(n) = f["n"].as_u64() {
                    if n > 0 {
                        rec.arm_get(n, 1_000_000);
                    }
                }
            }
            t
        });
        let outer: stream::BoxStream<'static, T> = if keep_open {
            stream::iter(it).chain(stream::pending()).boxed()
        } else {
            stream::iter(it).boxed()
        };
        let mut out: Vec<J> = vec![];
        let mut flat: Vec<J> = vec![];
        let mut end = "cap";
        let mut errs = 0;
        let r = catch_unwind(AssertUnwindSafe(|| -> anyhow::Result<()> {
            if kind == "plain" {
                let mut s = forest.stream_trees(q, outer).boxed();
                let w = noop_waker();
                let mut cx = Context::from_waker(&w);
                for _ in 0..CAP {
                    match s.poll_next_unpin(&mut cx) {
                        Poll::Ready(Some(Ok((o, k, v)))) => {
                            flat.push(json!([o, k.0, Val::id(&v), polled.load(Ordering::SeqCst)]))
                        }
                        Poll::Ready(Some(Err(_))) => errs += 1,
                        Poll::Ready(None) => {
                            end = "done";
                            break;
                        }
                        Poll::Pending => {
                            end = "pending";
                            break;
                        }
                    }
                }
                return Ok(());
            }
            if kind == "threaded" {
                let pool = futures::executor::ThreadPool::builder().pool_size(2).create()?;
                let s = forest.stream_trees_chunked_threaded(q, outer, lo..=hi, &extra_of, pool);
                let items: Vec<anyhow::Result<Chunk>> =
                    futures::executor::block_on(s.take(CAP).collect::<Vec<_>>());
                for x in items {
                    match x {
                        Ok(c) => out.push(chunk_p(&c, polled.load(Ordering::SeqCst))),
                        Err(_) => errs += 1,
                    }
                }
                end = "pending";
                return Ok(());
            }
            let mut s: stream::BoxStream<'static, anyhow::Result<Chunk>> = if kind == "fwd" {
                forest.stream_trees_chunked(q, outer, lo..=hi, &extra_of).boxed()
            } else {
                forest.stream_trees_chunked_reverse(q, outer, lo..=hi, &extra_of).boxed()
            };
            let w = noop_waker();
            let mut cx = Context::from_waker(&w);
            for _ in 0..CAP {
                match s.poll_next_unpin(&mut cx) {
                    Poll::Ready(Some(Ok(c))) => out.push(chunk_p(&c, polled.load(Ordering::SeqCst))),
                    Poll::Ready(Some(Err(_))) => errs += 1,
                    Poll::Ready(None) => {
                        end = "done";
                        break;
                    }
                    Poll::Pending => {
                        end = "pending";
                        break;
                    }
                }
            }
            Ok(())
        }))
        .map_err(panic_msg);
        self.rec.disarm();
        // number of faults hit while reading each tree
        let fb = fbase.lock().clone();
        let total = self.rec.0.lock().faults;
        let hit: Vec<u64> = (0..fb.len())
            .map(|i| if i + 1 < fb.len() { fb[i + 1] - fb[i] } else { total - fb[i] })
            .collect();
        let mut ev = json!({"op":"stream","kind":kind,"q":logq(&op["q"]),"lo":lo.min(INF),"hi":hi.min(INF),"roots":roots,
            "out":out,"flat":flat,"end":end,"errs":errs,"hit":hit,"polled":polled.load(Ordering::SeqCst)});
        set_r(&mut ev, r);
        self.finish(ev);
    }

    /// Concurrent readers of existing trees while the builder is extended by this thread.
    fn threads_op(&mut self, b: &mut B, op: &J) {
        let n = g(op, "n", 3) as usize;
        let rounds = g(op, "rounds", 3) as usize;
        let trees: Vec<T> = (0..self.snaps.len()).map(|i| self.snaps[i].clone()).collect();
        let cur = b.snapshot();
        let forest: F = (*self.txn).clone();
        let mut all = trees;
        all.push(cur);
        let roots: Vec<J> = all.iter().map(|t| self.troot(t)).collect();
        self.begin();
        let handles: Vec<_> = (0..n)
            .map(|i| {
                let forest = forest.clone();
                let all = all.clone();
                let qj = op["q"].clone();
                std::thread::spawn(move || {
                    let mut res: Vec<J> = vec![];
                    for r in 0..rounds {
                        let ti = (i + r) % all.len();
                        let t = &all[ti];
                        let x = catch_unwind(AssertUnwindSafe(|| -> anyhow::Result<J> {
                            Ok(if (i + r) % 2 == 0 {
                                json!({"ti":ti+1,"k":"collect","out":coll_json(forest.collect(t)?)})
                            } else {
                                let xs = forest
                                    .iter_filtered(t, mk_query(&qj))
                                    .collect::<anyhow::Result<Vec<_>>>()?;
                                json!({"ti":ti+1,"k":"filter","out":xs.iter().map(|(o,k,v)| json!([o,k.0,v.id])).collect::<Vec<_>>()})
                            })
                        }));
                        res.push(match x {
                            Ok(Ok(j)) => j,
                            Ok(Err(e)) => json!({"ti":ti+1,"k":"err","out":[],"msg":e.to_string()}),
                            Err(_) => json!({"ti":ti+1,"k":"panic","out":[]}),
                        });
                    }
                    res
                })
            })
            .collect();
        // meanwhile, the writer goes on (its events are recorded as usual)
        let ops = op["ops"].as_array().cloned().unwrap_or_default();
        let mut sub = vec![];
        std::mem::swap(&mut sub, &mut self.events);
        let at = sub.len();
        self.events = sub;
        self.skip_reads = true;
        self.run(b, &ops);
        self.skip_reads = false;
        let _ = at;
        let mut obs = vec![];
        for h in handles {
            match h.join() {
                Ok(x) => obs.extend(x),
                Err(_) => obs.push(json!({"ti":1,"k":"panic","out":[]})),
            }
        }
        self.begin();
        let ev = json!({"op":"threads","roots":roots,"q":logq(&op["q"]),"obs":obs});
        self.finish_mut(b, ev, Ok(Ok(())));
    }
}

fn set_r(ev: &mut J, r: Result<anyhow::Result<()>, String>) {
    match r {
        Ok(Ok(())) => ev["r"] = json!("ok"),
        Ok(Err(e)) => {
            ev["r"] = json!("err");
            ev["msg"] = json!(e.to_string());
        }
        Err(p) => {
            ev["r"] = json!("panic");
            ev["msg"] = json!(p);
        }
    }
}

fn coll_json(xs: Vec<Option<(Key, Val)>>) -> Vec<J> {
    xs.iter()
        .map(|x| match x {
            Some((k, v)) => json!([k.0, v.id]),
            None => json!([-1, -1]),
        })
        .collect()
}

fn fmt_of(q: &J) -> Arc<dyn Query<TT>> {
    mk_query(q)
}

fn do_read(rec: &RecStore, forest: &F, tree: &T, b: &B, op: &J, ev: &mut J) -> anyhow::Result<()> {
    let name = op["op"].as_str().unwrap();
    ev["out"] = json!([]);
    match name {
        "get" => {
            let o = g(op, "off", 0);
            ev["off"] = json!(o.min(INF));
            let x = forest.get(tree, o)?;
            ev["out"] = json!(x.iter().map(|(k, v)| json!([k.0, v.id])).collect::<Vec<_>>());
        }
        "collect" => {
            let o = g(op, "off", 0);
            ev["off"] = json!(o.min(INF));
            let xs = if o == 0 && op["off"].is_null() {
                forest.collect(tree)?
            } else {
                forest.collect_from(tree, o)?
            };
            ev["out"] = json!(coll_json(xs));
        }
        "count" => {
            ev["out"] = json!([tree.count(), tree.level(), tree.is_empty() as u8,
                tree.link().map(|l| rec.id_of(&l)).unwrap_or(0)]);
        }
        "iter" => {
            // api: from | fwd | rev | stream
            let api = op["api"].as_str().unwrap().to_string();
            ev["api"] = json!(api);
            let qj = if api == "from" { q_all() } else { op["q"].clone() };
            ev["q"] = logq(&qj);
            let q = fmt_of(&qj);
            let it: Box<dyn Iterator<Item = anyhow::Result<(u64, Key, Val)>>> = match api.as_str() {
                "from" => Box::new(forest.iter_from(tree)),
                "fwd" => Box::new(forest.iter_filtered(tree, q)),
                "rev" => Box::new(forest.iter_filtered_reverse(tree, q)),
                "stream" => Box::new(futures::executor::block_on_stream(Box::pin(
                    forest.stream_filtered(tree, q),
                ))),
                x => panic!("api {}", x),
            };
            let (mut out, mut err, mut after) = (vec![], 0, 0);
            let mut end = "done";
            for (i, x) in it.enumerate() {
                if i > CAP {
                    end = "runaway";
                    break;
                }
                match x {
                    Ok((o, k, v)) => {
                        if err > 0 {
                            after += 1;
                        }
                        out.push(json!([o, k.0, v.id]))
                    }
                    Err(_) => err += 1,
                }
            }
            ev["out"] = json!(out);
            ev["errs"] = json!(err);
            ev["after"] = json!(after);
            ev["end"] = json!(end);
        }
        "chunk" => {
            let api = op["api"].as_str().unwrap().to_string();
            ev["api"] = json!(api);
            ev["q"] = logq(&op["q"]);
            let q = fmt_of(&op["q"]);
            static PLAIN: fn(&NodeInfo<TT, AnyStore>) -> Extra = extra_of;
            static LOADED: fn(&NodeInfo<TT, AnyStore>) -> Extra = extra_loaded;
            let mk: &'static fn(&NodeInfo<TT, AnyStore>) -> Extra = if op["xload"] == true { &LOADED } else { &PLAIN };
            let it: Box<dyn Iterator<Item = anyhow::Result<Chunk>>> = match api.as_str() {
                "fwd" => Box::new(forest.iter_filtered_chunked(tree, q, mk)),
                "rev" => Box::new(forest.iter_filtered_chunked_reverse(tree, q, mk)),
                "stream" => Box::new(futures::executor::block_on_stream(Box::pin(
                    forest.stream_filtered_chunked(tree, q, mk),
                ))),
                "stream_rev" => Box::new(futures::executor::block_on_stream(Box::pin(
                    forest.stream_filtered_chunked_reverse(tree, q, mk),
                ))),
                x => panic!("api {}", x),
            };
            let (mut out, mut err, mut after) = (vec![], 0, 0);
            let mut end = "done";
            for (i, x) in it.enumerate() {
                if i > CAP {
                    end = "runaway";
                    break;
                }
                match x {
                    Ok(c) => {
                        if err > 0 {
                            after += 1;
                        }
                        out.push(chunk_json(&c))
                    }
                    Err(_) => err += 1,
                }
            }
            ev["out"] = json!(out);
            ev["errs"] = json!(err);
            ev["after"] = json!(after);
            ev["end"] = json!(end);
        }
        "index" => {
            let api = op["api"].as_str().unwrap().to_string();
            ev["api"] = json!(api);
            ev["q"] = logq(&op["q"]);
            let q = fmt_of(&op["q"]);
            let it: Box<dyn Iterator<Item = anyhow::Result<Index<TT>>>> = match api.as_str() {
                "fwd" => Box::new(forest.iter_index(tree, q)),
                "rev" => Box::new(forest.iter_index_reverse(tree, q)),
                x => panic!("api {}", x),
            };
            let (mut out, mut err, mut after) = (vec![], 0, 0);
            let mut end = "done";
            for (i, x) in it.enumerate() {
                if i > 2000 {
                    end = "runaway";
                    break;
                }
                match x {
                    Ok(c) => {
                        if err > 0 {
                            after += 1;
                        }
                        out.push(brief(rec, &c))
                    }
                    Err(_) => err += 1,
                }
            }
            ev["out"] = json!(out);
            ev["errs"] = json!(err);
            ev["after"] = json!(after);
            ev["end"] = json!(end);
        }
        "roots" => {
            ev["root"] = b.index().map(|x| index_json(rec, x)).unwrap_or_else(no_index);
            let xs = forest.roots(b)?;
            ev["out"] = json!(xs.iter().map(|x| brief(rec, x)).collect::<Vec<_>>());
        }
        "left_roots" => {
            let xs = forest.left_roots(tree)?;
            ev["out"] = json!(xs.iter().map(|x| brief(rec, x.index().unwrap())).collect::<Vec<_>>());
        }
        "is_packed" => {
            ev["out"] = json!([if forest.is_packed(tree)? { 1 } else { 0 }]);
        }
        "check" => {
            ev["root"] = b.index().map(|x| index_json(rec, x)).unwrap_or_else(no_index);
            let xs = forest.check_invariants(b)?;
            ev["out"] = json!([xs.len()]);
            ev["msg"] = json!(xs.join(";"));
        }
        "graph" => {
            if tree.is_empty() {
                return Ok(());
            }
            let (edges, nodes) = forest.dump_graph(tree, |(id, n)| {
                let e = extra_of(n);
                json!([id, e.0, if e.1 { 1 } else { 0 }, e.2])
            })?;
            ev["out"] = json!(nodes.values().cloned().collect::<Vec<_>>());
            ev["edges"] = json!(edges);
        }
        x => panic!("unknown op {}", x),
    }
    Ok(())
}

impl Val {
    fn id(v: &Val) -> u64 {
        v.id
    }
}

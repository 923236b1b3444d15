//! Streams with the tag keys of banyan-utils: what is stored in each block, what is read back,
//! and what the dump functions print.
use crate::caught;
use banyan::{
    chacha20,
    query::{AllQuery, OffsetRangeQuery},
    store::{BlockWriter, BranchCache, ReadOnlyStore},
    Config, Forest, Secrets, StreamBuilder, Tree,
};
use banyan_utils::{
    dump,
    tag_index::TagSet,
    tags::{DnfQuery, Key, Sha256Digest, TT},
};
use chacha20::cipher::{NewCipher, StreamCipher, StreamCipherSeek};
use chacha20::{XChaCha20, XNonce};
use libipld::{cbor::DagCborCodec, codec::Codec, json::DagJsonCodec, Cid, Ipld};
use parking_lot::Mutex;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::sync::Arc;

/// small numbers stand for themselves, numbers from 1000 for those up to the largest
pub fn wide(c: u64) -> u64 {
    if c < 1000 {
        c
    } else {
        u64::MAX - 1060 + c
    }
}
/// order preserving, -1 if it is not one of these numbers
fn narrow(v: i128) -> i64 {
    if (0..1000).contains(&v) {
        v as i64
    } else if v >= u64::MAX as i128 - 60 && v <= u64::MAX as i128 {
        (v - (u64::MAX as i128 - 1060)) as i64
    } else {
        -1
    }
}

fn tagset(j: &J) -> TagSet {
    j.as_array().unwrap().iter().map(|x| long(x.as_str().unwrap()).as_str().into()).collect()
}

/// a tag with a tilde stands for a very long one
fn long(x: &str) -> String {
    format!("{}{}", x, if x.starts_with('~') { "x".repeat(900_000) } else { String::new() })
}
fn short(x: &str) -> String {
    if x.len() > 900_000 && long(&x[..x.len() - 900_000]) == x {
        x[..x.len() - 900_000].into()
    } else if x.len() > 1000 {
        format!("odd{}", x.len())
    } else {
        x.into()
    }
}

#[derive(Clone, Default)]
struct Rec(Arc<Mutex<(BTreeMap<Cid, Vec<u8>>, Vec<Cid>)>>);
impl ReadOnlyStore<Sha256Digest> for Rec {
    fn get(&self, link: &Sha256Digest) -> anyhow::Result<Box<[u8]>> {
        let cid: Cid = (*link).into();
        self.0.lock().0.get(&cid).map(|x| x.clone().into()).ok_or_else(|| anyhow::anyhow!("lost"))
    }
}
impl BlockWriter<Sha256Digest> for Rec {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Sha256Digest> {
        let l = Sha256Digest::digest(&data);
        let cid: Cid = l.into();
        let mut x = self.0.lock();
        if x.0.insert(cid, data).is_none() {
            x.1.push(cid);
        }
        Ok(l)
    }
}

struct Ctx {
    rec: Rec,
    vk: chacha20::Key,
    ik: chacha20::Key,
}

/// items of a block, using one of the keys: (which, items)
fn items(data: &[u8], key: &chacha20::Key) -> Option<Vec<Ipld>> {
    let node: Ipld = DagCborCodec.decode(data).ok()?;
    let v = match node {
        Ipld::List(v) if v.len() == 3 => v,
        _ => return None,
    };
    let (off, mut enc) = match (&v[0], &v[2]) {
        (Ipld::Integer(o), Ipld::Bytes(b)) => (u64::try_from(*o).ok()?, b.clone()),
        _ => return None,
    };
    let mut c = XChaCha20::new(key, &XNonce::from([0u8; 24]));
    c.try_seek(off).ok()?;
    c.try_apply_keystream(&mut enc).ok()?;
    let raw = zstd::stream::decode_all(std::io::Cursor::new(&enc)).ok()?;
    let mut r = std::io::Cursor::new(&raw[..]);
    let mut res = vec![];
    while (r.position() as usize) < raw.len() {
        res.push(<Ipld as libipld::codec::Decode<DagCborCodec>>::decode(DagCborCodec, &mut r).ok()?);
    }
    Some(res)
}

fn nums(x: Option<&Ipld>) -> Option<Vec<i64>> {
    match x? {
        Ipld::List(v) => v.iter().map(|x| if let Ipld::Integer(i) = x { Some(narrow(*i)) } else { None }).collect(),
        _ => None,
    }
}

/// a stored sequence of keys
fn keyseq(x: &Ipld) -> Option<Vec<J>> {
    let m = match x {
        Ipld::Map(m) => m,
        _ => return None,
    };
    let (l, a, b) = (nums(m.get("min_lamport"))?, nums(m.get("min_time"))?, nums(m.get("max_time"))?);
    let t = match m.get("tags")? {
        Ipld::List(t) if t.len() == 2 => t,
        _ => return None,
    };
    let table: Vec<String> = match &t[0] {
        Ipld::List(v) => v.iter().map(|x| if let Ipld::String(s) = x { Some(short(s)) } else { None }).collect::<Option<_>>()?,
        _ => return None,
    };
    let els = match &t[1] {
        Ipld::List(v) => v,
        _ => return None,
    };
    if a.len() != l.len() || b.len() != l.len() || els.len() != l.len() {
        return None;
    }
    let mut res = vec![];
    for i in 0..l.len() {
        let mut tags = vec![];
        match &els[i] {
            Ipld::List(v) => {
                for x in v {
                    match x {
                        Ipld::Integer(i) => tags.push(table.get(usize::try_from(*i).ok()?)?.clone()),
                        _ => return None,
                    }
                }
            }
            _ => return None,
        }
        res.push(json!({"l":l[i],"lo":a[i],"hi":b[i],"tags":tags}));
    }
    Some(res)
}

/// the tree below an index in its dag-cbor form
fn tree(c: &Ctx, x: &Ipld) -> Option<J> {
    let m = match x {
        Ipld::Map(m) => m,
        _ => return None,
    };
    let sealed = matches!(m.get("sealed")?, Ipld::Bool(true));
    let data = match m.get("link")? {
        Ipld::Link(cid) => Some(c.rec.0.lock().0.get(cid)?.clone()),
        _ => None,
    };
    if let Some(k) = m.get("keys") {
        let vals = match &data {
            Some(d) => items(d, &c.vk)?.iter().map(|x| if let Ipld::String(s) = x { Some(s.clone()) } else { None }).collect::<Option<Vec<_>>>()?,
            None => vec![],
        };
        let ks = keyseq(k)?;
        Some(json!({"t":"L","sealed":sealed,"gone":data.is_none(),"lv":0,"n":ks.len(),"keys":ks,"vals":vals,"ch":[]}))
    } else {
        let ch = match &data {
            Some(d) => items(d, &c.ik)?.iter().map(|x| tree(c, x)).collect::<Option<Vec<_>>>()?,
            None => vec![],
        };
        let n = match m.get("count")? {
            Ipld::Integer(n) => *n as u64,
            _ => return None,
        };
        let lv = match m.get("level")? {
            Ipld::Integer(n) => *n as u64,
            _ => return None,
        };
        Some(json!({"t":"B","sealed":sealed,"gone":data.is_none(),"lv":lv,"n":n,"keys":keyseq(m.get("summaries")?)?,"vals":[],"ch":ch}))
    }
}

fn tree_of(c: &Ctx, t: &Tree<TT, String>) -> anyhow::Result<J> {
    match t.index() {
        None => Ok(json!({"t":"N","sealed":false,"gone":false,"lv":0,"n":0,"keys":[],"vals":[],"ch":[]})),
        Some(ix) => {
            let raw = DagCborCodec.encode(ix)?;
            let ipld: Ipld = DagCborCodec.decode(&raw)?;
            Ok(tree(c, &ipld).unwrap_or_else(|| json!({"t":"X","sealed":false,"gone":false,"lv":0,"n":0,"keys":[],"vals":[],"ch":[]})))
        }
    }
}

fn key_json(k: &Key) -> J {
    let j = serde_json::to_value(k).unwrap();
    let f = |n: &str| j["time"][n].as_u64().map(|x| narrow(x as i128)).unwrap_or(-1);
    json!({"l":f("min_lamport"),"lo":f("min_time"),"hi":f("max_time"),"tags":j["tags"].as_array().unwrap().iter().map(|x| short(x.as_str().unwrap())).collect::<Vec<_>>()})
}

/// nodes and edges of the printed graph
pub fn dot(out: &str) -> (Vec<J>, Vec<J>, bool) {
    let (mut nodes, mut edges, mut odd) = (vec![], vec![], false);
    let id = |x: &str| x.trim().strip_prefix('N').and_then(|x| x.parse::<i64>().ok());
    let attr = |l: &str, n: &str| {
        l.split(&format!("[{}=", n)[..]).nth(1).and_then(|x| x.split(']').next()).map(|x| x.trim_matches('"').to_string()).unwrap_or_default()
    };
    for l in out.lines().map(|l| l.trim().trim_end_matches(';')) {
        if l.starts_with("digraph") || l == "}" || l.is_empty() {
            continue;
        }
        if l.contains("->") {
            let mut p = l.split("->");
            match (p.next().and_then(id), p.next().and_then(|x| id(x.split('[').next().unwrap()))) {
                (Some(a), Some(b)) => edges.push(json!([a, b])),
                _ => odd = true,
            }
        } else {
            match (id(l.split('[').next().unwrap()), attr(l, "label").parse::<i64>()) {
                (Some(i), Ok(lab)) => {
                    nodes.push(json!({"id":i,"label":lab,"shape":attr(l, "shape"),"grey":attr(l, "color") == "grey" && attr(l, "style") == "filled"}))
                }
                _ => odd = true,
            }
        }
    }
    (nodes, edges, odd)
}

/// what the dump functions print for a block
fn dumps(c: &Ctx, cid: &Cid, other: &chacha20::Key, with_other: bool) -> J {
    let data = c.rec.0.lock().0[cid].clone();
    let link = Sha256Digest::try_from(*cid).unwrap();
    let nonce = XNonce::from([0u8; 24]);
    let (v, i) = (items(&data, &c.vk), items(&data, &c.ik));
    let leaf = |x: &Option<Vec<Ipld>>| x.as_ref().map(|x| x.iter().all(|x| matches!(x, Ipld::String(_)))).unwrap_or(false);
    let (key, want) = if leaf(&v) { (&c.vk, v.unwrap()) } else { (&c.ik, i.or(v).unwrap_or_default()) };
    let strs = |x: &[Ipld]| -> Vec<J> { x.iter().map(|x| if let Ipld::String(s) = x { json!(s) } else { json!(format!("{:?}", x)) }).collect() };
    let json_lines = |key: &chacha20::Key| -> (String, Vec<J>) {
        let mut out = vec![];
        match caught(|| dump::dump_json(c.rec.clone(), link, key, &nonce, &mut out)) {
            Err(_) => ("panic".into(), vec![]),
            Ok(Err(_)) => ("err".into(), vec![]),
            Ok(Ok(())) => {
                let s = String::from_utf8_lossy(&out).to_string();
                let mut ls: Vec<&str> = s.lines().collect();
                let head = if ls.first() == Some(&"ZstdDagCborSeq") {
                    ls.remove(0);
                    "seq"
                } else {
                    "raw"
                };
                let xs: Vec<Ipld> = ls.iter().map(|l| DagJsonCodec.decode(l.as_bytes()).unwrap_or(Ipld::Null)).collect();
                (head.into(), strs(&xs))
            }
        }
    };
    let (h, o) = json_lines(key);
    // slow: the code reserves a lot of memory before it finds out
    let (h2, o2) = if with_other { json_lines(other) } else { ("err".into(), vec![]) };
    let mut out = vec![];
    let cb = match caught(|| dump::dump_cbor(c.rec.clone(), link, key, &nonce, &mut out)) {
        Err(_) => json!(["panic"]),
        Ok(Err(_)) => json!(["err"]),
        Ok(Ok(())) => json!(String::from_utf8_lossy(&out).lines().collect::<Vec<_>>()),
    };
    let raw: Ipld = DagCborCodec.decode(&data).unwrap_or(Ipld::Null);
    // the items in diagnostic notation, if they are simple strings
    let diag: Vec<J> = want
        .iter()
        .map(|x| match x {
            Ipld::String(s) if s.chars().all(|c| c.is_ascii_alphanumeric()) => json!(format!("{:?}", s)),
            _ => json!("?"),
        })
        .collect();
    let cb: Vec<J> = cb.as_array().unwrap().iter().enumerate().map(|(k, l)| if k > 0 && diag.get(k - 1) == Some(&json!("?")) { json!("?") } else { l.clone() }).collect();
    let lines = want.iter().all(|x| if let Ipld::String(s) = x { !s.contains('\n') } else { true });
    json!({"want":strs(&want),"head":h,"out":o,"diag":diag,"cbor":cb,"lines":lines,"raw":strs(&[raw]),"ohead":h2,"oout":o2})
}

pub fn run(ep: &J) -> J {
    let g = |k: &str, d: u64| ep["cfg"][k].as_u64().unwrap_or(d);
    let config = Config {
        max_leaf_count: g("lc", 4) as usize,
        max_key_branches: g("kb", 3) as usize,
        max_summary_branches: g("sb", 3) as usize,
        target_leaf_size: g("tls", 1 << 20) as usize,
        max_uncompressed_leaf_size: 1 << 24,
        zstd_level: 1,
    };
    let vk = chacha20::Key::from([if ep["onekey"] == true { 1u8 } else { 2u8 }; 32]);
    let c = Ctx { rec: Rec::default(), vk, ik: chacha20::Key::from([1u8; 32]) };
    let other = chacha20::Key::from([9u8; 32]);
    let secrets = Secrets::new(c.ik, c.vk);
    let mut forest: Forest<TT, Rec> = Forest::new(c.rec.clone(), BranchCache::new(g("cache", 0) as usize));
    let mut b: StreamBuilder<TT, String> = StreamBuilder::new(config.clone(), secrets.clone());
    let mut evs = vec![];
    for op in ep["ops"].as_array().unwrap() {
        let name = op["op"].as_str().unwrap();
        let mut ev = json!({ "op": name, "els": op["els"].as_array().cloned().unwrap_or_default() });
        let r = caught(|| -> anyhow::Result<()> {
            let mut txn = banyan::Transaction::new(forest.clone(), c.rec.clone());
            match name {
                "extend" | "extend_unpacked" => {
                    let xs: Vec<(Key, String)> = op["els"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|e| {
                            let l = wide(e["l"].as_u64().unwrap());
                            let t = wide(e["t"].as_u64().unwrap());
                            (Key::single(l, t, tagset(&e["tags"])), e["v"].as_str().unwrap().to_string())
                        })
                        .collect();
                    if name == "extend" {
                        txn.extend(&mut b, xs)?
                    } else {
                        txn.extend_unpacked(&mut b, xs)?
                    }
                }
                "pack" => txn.pack(&mut b)?,
                "forget" => txn.retain(&mut b, &OffsetRangeQuery::from(op["from"].as_u64().unwrap()..))?,
                "retain" => {
                    let q = op["q"].as_array().unwrap().iter().map(crate::tags::term).collect();
                    txn.retain(&mut b, &DnfQuery(q))?
                }
                "reload" => {
                    forest = Forest::new(c.rec.clone(), BranchCache::new(g("cache", 0) as usize));
                    if let Some(l) = b.link() {
                        b = forest.load_stream_builder(secrets.clone(), config.clone(), l)?;
                    }
                }
                "read" => {
                    let t = b.snapshot();
                    let mut out = vec![];
                    for ch in forest.iter_filtered_chunked(&t, AllQuery, &|_| ()) {
                        for (o, k, v) in ch?.data {
                            let mut j = key_json(&k);
                            j["o"] = json!(o);
                            j["v"] = json!(v);
                            out.push(j);
                        }
                    }
                    ev["out"] = json!(out);
                }
                "graph" => {
                    let mut out = vec![];
                    dump::graph(&forest, &b.snapshot(), &mut out)?;
                    let (n, e, odd) = dot(&String::from_utf8_lossy(&out));
                    ev["nodes"] = json!(n);
                    ev["edges"] = json!(e);
                    ev["odd"] = json!(odd);
                }
                "dump" => {
                    let cids = c.rec.0.lock().1.clone();
                    let from = cids.len().saturating_sub(12);
                    ev["blocks"] = json!(cids[from..].iter().enumerate().map(|(k, x)| dumps(&c, x, &other, k < 1)).collect::<Vec<_>>());
                }
                _ => panic!("op {}", name),
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => ev["r"] = json!("ok"),
            Ok(Err(e)) => {
                ev["r"] = json!("err");
                ev["msg"] = json!(e.to_string())
            }
            Err(p) => {
                ev["r"] = json!("panic");
                ev["msg"] = json!(p)
            }
        }
        ev["tree"] = tree_of(&c, &b.snapshot()).unwrap();
        evs.push(ev);
    }
    json!({"id":ep["id"],"big":ep["big"] == true,"ev":evs})
}

use crate::caught;
use banyan::store::{BlockWriter, MemCache, MemStore, ReadOnlyStore};
use banyan_utils::{sqlite::SqliteStore, tags::Sha256Digest};
use libipld::{cbor::DagCborCodec, codec::Codec, DefaultParams, Ipld};
use parking_lot::Mutex;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::sync::Arc;

/// content number d with about n bytes; all contents with n = 0 are the empty block
pub fn content(kind: &str, d: u64, n: u64) -> Vec<u8> {
    let raw: Vec<u8> = (0..n).map(|i| if i < 8 { (d >> (8 * i)) as u8 } else { (d * 31 + i * 7) as u8 }).collect();
    if kind.starts_with("sqlite") {
        DagCborCodec.encode(&Ipld::List(vec![Ipld::Integer(d as i128), Ipld::Bytes(raw)])).unwrap()
    } else {
        raw
    }
}

/// the store below the cache: blocks can fail to be written, and get lost
#[derive(Clone, Default)]
pub struct Below(pub Arc<Mutex<(BTreeMap<Vec<u8>, Vec<u8>>, bool)>>);
fn bytes(l: &Sha256Digest) -> Vec<u8> {
    l.to_string().into_bytes()
}
impl ReadOnlyStore<Sha256Digest> for Below {
    fn get(&self, link: &Sha256Digest) -> anyhow::Result<Box<[u8]>> {
        self.0.lock().0.get(&bytes(link)).map(|x| x.clone().into()).ok_or_else(|| anyhow::anyhow!("lost"))
    }
}
impl BlockWriter<Sha256Digest> for Below {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Sha256Digest> {
        let mut x = self.0.lock();
        if x.1 {
            x.1 = false;
            anyhow::bail!("write failed");
        }
        let l = Sha256Digest::digest(&data);
        x.0.insert(bytes(&l), data);
        Ok(l)
    }
}

pub enum S {
    Mem(MemStore<Sha256Digest>),
    Cache(MemCache<Sha256Digest, Below>, Below),
    Sqlite(SqliteStore<DefaultParams>),
}
impl S {
    pub fn get(&self, l: &Sha256Digest) -> anyhow::Result<Box<[u8]>> {
        match self {
            S::Mem(x) => x.get(l),
            S::Cache(x, _) => x.get(l),
            S::Sqlite(x) => x.get(l),
        }
    }
    pub fn put(&mut self, d: Vec<u8>) -> anyhow::Result<Sha256Digest> {
        match self {
            S::Mem(x) => x.put(d),
            S::Cache(x, _) => x.write(|i| Ok(i.clone()))?.put(d),
            S::Sqlite(x) => x.put(d),
        }
    }
}

/// {id, kind: mem|cache|sqlite|sqlitefile, limit, maxblk, cap, sizes: [n], ops}
/// contents are numbered from 1, sizes[d - 1] is the size of content d
pub fn run(ep: &J) -> J {
    let kind = ep["kind"].as_str().unwrap().to_string();
    let g = |k: &str| ep[k].as_u64().unwrap_or(0) as usize;
    let sizes: Vec<u64> = ep["sizes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let data = |d: u64| content(&kind, d, sizes[d as usize - 1]);
    let link = |d: u64| Sha256Digest::digest(&data(d));
    // the smallest number of a content with these bytes
    let number = |b: &[u8]| (1..=sizes.len() as u64).find(|d| &data(*d)[..] == b).map(|x| x as i64).unwrap_or(-1);
    let dir = std::env::current_dir().unwrap().join(format!("db-{}-{}", std::process::id(), ep["id"].as_str().unwrap()));
    let open = || -> SqliteStore<DefaultParams> {
        let c = ipfs_sqlite_block_store::Config::default();
        SqliteStore::new(if kind == "sqlitefile" {
            std::fs::create_dir_all(&dir).unwrap();
            ipfs_sqlite_block_store::BlockStore::open(dir.join("db"), c).unwrap()
        } else {
            ipfs_sqlite_block_store::BlockStore::memory(c).unwrap()
        })
    };
    let mut s = match kind.as_str() {
        "mem" => S::Mem(MemStore::new(g("limit"), Sha256Digest::digest)),
        "cache" => {
            let b = Below::default();
            S::Cache(MemCache::new(b.clone(), g("maxblk"), g("cap")), b)
        }
        _ => S::Sqlite(open()),
    };
    let mut evs = vec![];
    for op in ep["ops"].as_array().unwrap() {
        let name = op["op"].as_str().unwrap();
        let d = op["d"].as_u64().unwrap_or(1);
        let mut ev = json!({"op":name,"d":number(&data(d)),"n":data(d).len(),"out":0,"same":true});
        let r = caught(|| -> anyhow::Result<()> {
            match name {
                "put" => {
                    let l = s.put(data(d))?;
                    ev["same"] = json!(l == link(d));
                }
                "putfail" => {
                    if let S::Cache(_, b) = &s {
                        b.0.lock().1 = true;
                    }
                    let r = s.put(data(d));
                    if let S::Cache(_, b) = &s {
                        b.0.lock().1 = false;
                    }
                    r?;
                }
                "get" => {
                    let x = s.get(&link(d))?;
                    ev["out"] = json!(number(&x));
                }
                // data of content `as` offered for the link of content d
                "offer" => {
                    let a = op["as"].as_u64().unwrap_or(d);
                    ev["as"] = json!(number(&data(a)));
                    ev["n"] = json!(data(a).len());
                    if let S::Cache(c, _) = &s {
                        c.offer(&link(d), &data(a));
                    }
                }
                "lose" => {
                    if let S::Cache(_, b) = &s {
                        b.0.lock().0.remove(&bytes(&link(d)));
                    }
                }
                "reopen" => {
                    if kind == "sqlitefile" {
                        s = S::Mem(MemStore::new(0, Sha256Digest::digest));
                        s = S::Sqlite(open());
                    }
                }
                // what is there, for all contents, from the cache alone (cache) or at all
                "all" => {
                    if let S::Cache(_, b) = &s {
                        b.0.lock().0.clear();
                    }
                    let v: Vec<i64> = (1..=sizes.len() as u64).map(|d| s.get(&link(d)).map(|x| number(&x)).unwrap_or(0)).collect();
                    ev["all"] = json!(v);
                    ev["sizes"] = json!((1..=sizes.len() as u64).map(|d| data(d).len()).collect::<Vec<_>>());
                }
                "dump" => {
                    if let S::Mem(m) = std::mem::replace(&mut s, S::Mem(MemStore::new(g("limit"), Sha256Digest::digest))) {
                        let keep = m.clone();
                        ev["busy"] = json!(m.into_inner().is_err());
                        let map = keep.into_inner()?;
                        ev["total"] = json!(map.values().map(|x| x.len()).sum::<usize>());
                        let mut v: Vec<i64> =
                            map.iter().map(|(k, x)| if *k == Sha256Digest::digest(x) { number(x) } else { -1 }).collect();
                        v.sort_unstable();
                        ev["held"] = json!(v);
                    }
                }
                _ => panic!("op {}", name),
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => ev["r"] = json!("ok"),
            Ok(Err(e)) => {
                ev["r"] = json!("err");
                ev["msg"] = json!(e.to_string())
            }
            Err(p) => {
                ev["r"] = json!("panic");
                ev["msg"] = json!(p)
            }
        }
        evs.push(ev);
    }
    drop(s);
    if kind == "sqlitefile" {
        let _ = std::fs::remove_dir_all(&dir);
    }
    json!({"id":ep["id"],"kind":kind,"limit":g("limit"),"maxblk":g("maxblk"),"cap":g("cap"),"ev":evs})
}

//! Sequences of items on their own: how they are filled, and what they return.
use crate::tt::{ext_id, Link, Val};
use banyan::chacha20::{Key as ChaKey, XNonce};
use banyan::store::ZstdDagCborSeq;
use libipld::{cbor::DagCborCodec, codec::{Codec, Decode, Encode}, Cid, Ipld};
use serde_json::{json, Value as J};
use std::convert::TryFrom;
use std::io::Write;

struct IV(Val);
impl Encode<DagCborCodec> for IV {
    fn encode<W: Write>(&self, c: DagCborCodec, w: &mut W) -> anyhow::Result<()> {
        self.0.ipld().encode(c, w)
    }
}
#[derive(PartialEq)]
struct Both(Val);
impl Decode<DagCborCodec> for Both {
    fn decode<R: std::io::Read + std::io::Seek>(c: DagCborCodec, r: &mut R) -> anyhow::Result<Self> {
        Val::from_ipld(&Ipld::decode(c, r)?).map(Both).ok_or_else(|| anyhow::anyhow!("not a harness value"))
    }
}

fn val(j: &J) -> Val {
    Val::new(j["id"].as_u64().unwrap(), j["sz"].as_u64().unwrap() as usize, j["links"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect())
}
fn vals(j: &J) -> Vec<Val> {
    j.as_array().unwrap().iter().map(val).collect()
}
fn vjson(v: &Val) -> J {
    json!({"id":v.id,"sz":v.size,"links":v.links,"len":v.encoded_len()})
}
fn res<R>(f: impl FnOnce() -> anyhow::Result<R>) -> Result<R, &'static str> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(_)) => Err("err"),
        Err(_) => Err("panic"),
    }
}

/// independent view of a block: position, cleartext links
fn raw(data: &[u8]) -> Option<(u64, Vec<i64>)> {
    let node: Ipld = DagCborCodec.decode(data).ok()?;
    match node {
        Ipld::List(v) if v.len() == 3 => match (&v[0], &v[1]) {
            (Ipld::Integer(o), Ipld::List(l)) => Some((
                u64::try_from(*o).ok()?,
                l.iter().map(|x| if let Ipld::Link(c) = x { linkno(c) } else { -1 }).collect(),
            )),
            _ => None,
        },
        _ => None,
    }
}
fn linkno(c: &Cid) -> i64 {
    if Link::try_from(*c).is_ok() && ext_id(c).is_none() {
        return -1;
    }
    ext_id(c).map(|x| x as i64).unwrap_or(-1)
}

fn observe(s: &ZstdDagCborSeq, op: &J) -> J {
    let list = |x: Result<Vec<Val>, &str>| x.map(|x| json!(x.iter().map(vjson).collect::<Vec<_>>())).unwrap_or_else(|e| json!([{"id":0,"sz":0,"links":[],"len":0,"fail":e}]));
    let items = res(|| s.items::<Val>());
    let n = items.as_ref().map(|x| x.len()).unwrap_or(0);
    let ipld = res(|| Ok(s.items_ipld::<Both>()?.into_iter().map(|x| x.0).collect::<Vec<_>>()));
    let count = res(|| s.count()).map(|x| x as i64).unwrap_or(-1);
    let get: Vec<J> = (0..n + 2)
        .map(|i| match res(|| s.get::<Val>(i as u64)) {
            Ok(Some(v)) => json!(v.id),
            Ok(None) => json!(-1),
            Err(_) => json!(-2),
        })
        .collect();
    let sel: Vec<J> = op["sel"]
        .as_array()
        .unwrap()
        .iter()
        .map(|m| {
            let mask: Vec<bool> = m.as_array().unwrap().iter().map(|x| x == 1).collect();
            let r = res(|| s.select::<Val>(&mask));
            json!({"mask":m,"out":r.map(|x| x.iter().map(|v| v.id as i64).collect()).unwrap_or_else(|_| vec![-2])})
        })
        .collect();
    let nonce = XNonce::from([op["nonce"].as_u64().unwrap() as u8; 24]);
    let crypt: Vec<J> = op["offs"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(k, o)| {
            let mut off = o.as_u64().unwrap();
            let len = s.compressed().len() as u64;
            // relative to where the number of the block in the keystream takes more than 32 bits, or to the end of the keystream
            if off >= 2_000_000 {
                off = u64::MAX - (off - 2_000_000)
            } else if off >= 1_000_000 {
                off = (1u64 << 38) + 1000 - (off - 1_000_000)
            }
            let fits = off.checked_add(len).is_some();
            let key = ChaKey::from([7u8; 32]);
            let enc = match res(|| s.encrypt(&key, &nonce, off)) {
                Ok(x) => x,
                Err(e) => return json!({"fits":fits,"r":e,"pos":false,"links":[],"range":false,"same":false,"other":false,"clear":false}),
            };
            let (pos, links) = raw(&enc).map(|(p, l)| (p == off, l)).unwrap_or((false, vec![-1]));
            let (range, same) = match res(|| ZstdDagCborSeq::decrypt(&enc, &key, &nonce)) {
                Ok((d, r)) => (r == (off..off + len), d == *s),
                Err(_) => (false, false),
            };
            // with another key, or another nonce
            let bad = |k: ChaKey, n: XNonce| match res(|| ZstdDagCborSeq::decrypt(&enc, &k, &n)) {
                Ok((d, _)) => d == *s || res(|| d.items::<Val>()).is_ok(),
                Err(_) => false,
            };
            // slow: the code reserves a lot of memory before it finds out
            let other = match (k + s.compressed().len()) % 8 {
                0 => bad(ChaKey::from([8u8; 32]), nonce),
                1 => bad(key, XNonce::from([99u8; 24])),
                _ => false,
            };
            let clear = len > 12 && enc.windows(len as usize).any(|w| w == s.compressed());
            json!({"fits":fits,"r":"ok","pos":pos,"links":links,"range":range,"same":same,"other":other,"clear":clear})
        })
        .collect();
    json!({"items":list(items),"ipld":list(ipld),"count":count,"get":get,"sel":sel,"crypt":crypt,"clen":s.compressed().len()})
}

pub fn run(ep: &J) -> J {
    let mut cur: Option<ZstdDagCborSeq> = None;
    let mut evs = vec![];
    for op in ep["ops"].as_array().unwrap() {
        let g = |k: &str| op[k].as_u64().unwrap_or(0) as usize;
        let vs = vals(&op["vals"]);
        let ipld = op["ipld"] == true;
        let zl = op["zl"].as_i64().unwrap_or(1) as i32;
        let mut us = g("us");
        if !op["usk"].is_null() {
            // the base and the first items fit exactly, up to usd
            let have: usize = match &cur {
                Some(c) if op["base"] == "cur" => c.items::<Val>().unwrap_or_default().iter().map(|v| v.encoded_len() as usize).sum(),
                _ => 0,
            };
            let more: usize = vs.iter().take(g("usk")).map(|v| v.encoded_len() as usize).sum();
            us = (have + more).saturating_add_signed(op["usd"].as_i64().unwrap_or(0) as isize);
        }
        let mut ev = json!({"op":op["op"],"vals":vs.iter().map(vjson).collect::<Vec<_>>(),"base":op["base"],"held":g("held"),
                            "cs":g("cs"),"us":us,"max":g("max"),"keys":[],"rest":[],"full":false});
        let r = match op["op"].as_str().unwrap() {
            "make" => res(|| match (ipld, vs.len()) {
                (false, 1) => ZstdDagCborSeq::single(&vs[0], zl),
                (true, 1) => ZstdDagCborSeq::single_ipld(&IV(vs[0].clone()), zl),
                (false, _) => ZstdDagCborSeq::from_iter(vs.iter(), zl),
                (true, _) => {
                    let iv: Vec<IV> = vs.iter().map(|v| IV(v.clone())).collect();
                    ZstdDagCborSeq::from_iter_ipld(iv.iter(), zl)
                }
            }),
            _ => {
                let base = if op["base"] == "cur" { cur.as_ref().map(|x| x.compressed().to_vec()).unwrap_or_default() } else { vec![] };
                let mut keys: Vec<u64> = (0..g("held") as u64).map(|x| 900_000 + x).collect();
                let r;
                let rest: Vec<u64>;
                if ipld {
                    let mut it = vs.iter().map(|v| (v.id, IV(v.clone()))).peekable();
                    r = res(|| ZstdDagCborSeq::fill_ipld(&base, &mut it, &mut keys, zl, g("cs"), us, g("max")));
                    rest = it.map(|x| x.0).collect();
                } else {
                    let mut it = vs.iter().map(|v| (v.id, v.clone())).peekable();
                    r = res(|| ZstdDagCborSeq::fill(&base, &mut it, &mut keys, zl, g("cs"), us, g("max")));
                    rest = it.map(|x| x.0).collect();
                }
                ev["keys"] = json!(keys);
                ev["rest"] = json!(rest);
                r.map(|(s, full)| {
                    ev["full"] = json!(full);
                    s
                })
            }
        };
        match r {
            Ok(s) => {
                ev["r"] = json!("ok");
                ev["obs"] = observe(&s, op);
                cur = Some(s);
            }
            Err(e) => ev["r"] = json!(e),
        }
        evs.push(ev);
    }
    json!({"id":ep["id"],"ev":evs})
}

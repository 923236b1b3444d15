//! Independent decoder of banyan blocks (does not use banyan's code).
use crate::tt::{ext_id, Link, Val, EXT, EXT_HIDDEN};
use chacha20::cipher::{NewCipher, StreamCipher, StreamCipherSeek};
use chacha20::{Key as ChaKey, XChaCha20, XNonce};
use libipld::{cbor::DagCborCodec, codec::Codec, Cid, Ipld};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::convert::TryFrom;
use std::io::Cursor;

pub struct Ctx<'a> {
    pub ids: &'a HashMap<Link, usize>,
    pub index_key: ChaKey,
    pub value_key: ChaKey,
}

impl<'a> Ctx<'a> {
    fn cid_id(&self, cid: &Cid) -> i64 {
        if let Ok(l) = Link::try_from(*cid) {
            if let Some(id) = self.ids.get(&l) {
                return *id as i64;
            }
        }
        ext_id(cid).map(|n| EXT + n as i64).unwrap_or(-1)
    }
}

/// keystream position and length of the encrypted part
pub fn position(data: &[u8]) -> (u64, usize) {
    let node: Result<Ipld, _> = DagCborCodec.decode(data);
    if let Ok(Ipld::List(v)) = &node {
        if let [Ipld::Integer(o), _, Ipld::Bytes(b)] = &v[..] {
            return (u64::try_from(*o).unwrap_or(u64::MAX), b.len());
        }
    }
    (0, 0)
}

fn try_items(enc: &[u8], key: &ChaKey, offset: u64) -> Option<(Vec<Ipld>, usize)> {
    let mut data = enc.to_vec();
    let nonce = XNonce::from(crate::tt::NONCE);
    let mut c = XChaCha20::new(key, &nonce);
    c.seek(offset);
    c.apply_keystream(&mut data);
    let raw = zstd::stream::decode_all(Cursor::new(&data)).ok()?;
    let mut r = Cursor::new(&raw[..]);
    let mut res = vec![];
    while (r.position() as usize) < raw.len() {
        res.push(<Ipld as libipld::codec::Decode<DagCborCodec>>::decode(DagCborCodec, &mut r).ok()?);
    }
    Some((res, raw.len()))
}

/// a damaged version of a block that can not be decoded
pub fn garble(ctx: &Ctx, data: &[u8], how: u64) -> Vec<u8> {
    let mut data = data.to_vec();
    let node: Result<Ipld, _> = DagCborCodec.decode(&data);
    let parts = match node {
        Ok(Ipld::List(v)) if v.len() == 3 => v,
        _ => vec![],
    };
    let (offset, enc) = match (parts.get(0), parts.get(2)) {
        (Some(Ipld::Integer(o)), Some(Ipld::Bytes(b))) => (*o as u64, b.clone()),
        _ => (0, vec![]),
    };
    let rebuild = |o: u64, enc: Vec<u8>| {
        DagCborCodec
            .encode(&Ipld::List(vec![Ipld::Integer(o as i128), parts[1].clone(), Ipld::Bytes(enc)]))
            .unwrap()
    };
    match how {
        0 => {
            let n = data.len() / 2;
            data.truncate(n);
            data
        }
        1 => vec![],
        2 => data.iter().map(|b| !*b).collect(),
        // the rest is well formed outside
        3 => {
            // the sequence of items ends within its first item
            for key in [&ctx.value_key, &ctx.index_key] {
                if try_items(&enc, key, offset).is_some() {
                    let crypt = |mut data: Vec<u8>| {
                        let mut c = XChaCha20::new(key, &XNonce::from(crate::tt::NONCE));
                        c.seek(offset);
                        c.apply_keystream(&mut data);
                        data
                    };
                    let mut raw = zstd::stream::decode_all(Cursor::new(crypt(enc.clone()))).unwrap();
                    raw.truncate(2);
                    return rebuild(offset, crypt(zstd::stream::encode_all(Cursor::new(raw), 1).unwrap()));
                }
            }
            vec![]
        }
        // the encrypted data is cut off
        4 => rebuild(offset, enc[..enc.len() / 2].to_vec()),
        5 => rebuild(offset, enc.iter().map(|b| !*b).collect()),
        // wrong keystream position
        6 => rebuild(offset ^ 1, enc),
        7 => rebuild(1 << 45, enc),
        8 => rebuild(u64::MAX, enc),
        9 => rebuild(offset, vec![]),
        // not a block at all
        10 => DagCborCodec.encode(&Ipld::List(vec![])).unwrap(),
        11 => vec![0xff; 16],
        // a branch without children; as for a leaf, just junk
        _ => {
            let data = zstd::stream::encode_all(Cursor::new(vec![]), 1).unwrap();
            if try_items(&enc, &ctx.value_key, offset).is_some() {
                return vec![0xff; 16];
            }
            let mut data = data;
            let mut c = XChaCha20::new(&ctx.index_key, &XNonce::from(crate::tt::NONCE));
            c.seek(offset);
            c.apply_keystream(&mut data);
            rebuild(offset, data)
        }
    }
}

fn int(x: Option<&Ipld>) -> i64 {
    match x {
        Some(Ipld::Integer(i)) => i64::try_from(*i).unwrap_or(-2).min(2_000_000_000),
        _ => -2,
    }
}

/// Index record from its dag-cbor form. None if it is not one
pub fn index_of(ctx: &Ctx, x: &Ipld) -> Option<J> {
    let m = match x {
        Ipld::Map(m) => m,
        _ => return None,
    };
    let sealed = match m.get("sealed")? {
        Ipld::Bool(b) => *b,
        _ => return None,
    };
    let link = match m.get("link")? {
        Ipld::Link(c) => ctx.cid_id(c),
        Ipld::Null => 0,
        _ => return None,
    };
    let vb = int(m.get("value_bytes"));
    if let Some(keys) = m.get("keys") {
        let mut ks = vec![];
        let mut kl = vec![];
        for k in list(keys)? {
            let (a, l) = key_of(ctx, k)?;
            ks.push(a);
            if l != 0 {
                kl.push(l);
            }
        }
        Some(json!({"t":"L","link":link,"sealed":sealed,"level":0,"count":ks.len(),"keys":ks,"kl":kl,"sums":[],"vb":vb,"kb":0}))
    } else {
        let mut ss = vec![];
        for s in list(m.get("summaries")?)? {
            ss.push(json!([int(list(s)?.get(0)), int(list(s)?.get(1))]));
        }
        Some(json!({"t":"B","link":link,"sealed":sealed,"level":int(m.get("level")),"count":int(m.get("count")),"keys":[],"kl":[],"sums":ss,"vb":vb,"kb":int(m.get("key_bytes"))}))
    }
}

fn list(x: &Ipld) -> Option<&Vec<Ipld>> {
    match x {
        // newtype structs are encoded as a list of one
        Ipld::List(v) => {
            if let [Ipld::List(inner)] = &v[..] {
                if matches!(inner.get(0), Some(Ipld::List(_))) {
                    return Some(inner);
                }
            }
            Some(v)
        }
        _ => None,
    }
}

fn key_of(ctx: &Ctx, x: &Ipld) -> Option<(i64, i64)> {
    match x {
        Ipld::List(v) => {
            let k = int(v.get(0));
            let l = match v.get(1) {
                Some(Ipld::Link(c)) => ctx.cid_id(c),
                _ => 0,
            };
            Some((k, l))
        }
        _ => None,
    }
}

/// Decode a block into the trace form
pub fn block(ctx: &Ctx, data: &[u8]) -> J {
    let bad = |why: &str| json!({"k":"X","off":0,"len":0,"ro":"none","links":[],"vals":[],"vl":[],"ch":[],"ul":0,"why":why});
    let node: Ipld = match DagCborCodec.decode(data) {
        Ok(x) => x,
        Err(_) => return bad("cbor"),
    };
    let v = match &node {
        Ipld::List(v) if v.len() == 3 => v,
        _ => return bad("shape"),
    };
    let (off, links, enc) = match (&v[0], &v[1], &v[2]) {
        (Ipld::Integer(o), Ipld::List(l), Ipld::Bytes(b)) => (u64::try_from(*o).unwrap_or(u64::MAX), l, b),
        _ => return bad("types"),
    };
    let links: Vec<i64> = links
        .iter()
        .map(|l| match l {
            Ipld::Link(c) => ctx.cid_id(c),
            _ => -1,
        })
        .collect();
    let iv = try_items(enc, &ctx.value_key, off);
    let ii = try_items(enc, &ctx.index_key, off);
    let same = ctx.value_key == ctx.index_key;
    let ro = match (&iv, &ii) {
        (Some(_), Some(_)) if same => "same",
        (Some(_), Some(_)) => "both",
        (Some(_), None) => "v",
        (None, Some(_)) => "i",
        (None, None) => "none",
    };
    let (items, ul) = match iv.or(ii) {
        Some(x) => x,
        None => return json!({"k":"X","off":off.min(2_000_000_000),"len":enc.len(),"ro":ro,"links":links,"vals":[],"vl":[],"ch":[],"ul":0,"why":"crypt"}),
    };
    // leaf?
    let vals: Option<Vec<Val>> = items.iter().map(Val::from_ipld).collect();
    let (k, vals, vl, ch) = match vals {
        Some(vals) => {
            let mut vl: Vec<i64> = vals.iter().flat_map(|v| v.links.iter().filter(|l| **l < EXT_HIDDEN).map(|l| EXT + *l as i64)).collect();
            vl.sort_unstable();
            vl.dedup();
            ("L", vals.iter().map(|v| v.id).collect::<Vec<_>>(), vl, vec![])
        }
        None => match items.iter().map(|x| index_of(ctx, x)).collect::<Option<Vec<_>>>() {
            Some(ch) => ("B", vec![], vec![], ch),
            None => ("X", vec![], vec![], vec![]),
        },
    };
    json!({"k":k,"off":off.min(2_000_000_000),"len":enc.len(),"ro":ro,"links":links,"vals":vals,"vl":vl,"ch":ch,"ul":ul,"why":""})
}

//! Tree types, values and queries used to drive banyan.
use banyan::index::{BranchIndex, CompactSeq, LeafIndex, Summarizable, VecSeq};
use banyan::query::{AllQuery, AndQuery, EmptyQuery, OffsetRangeQuery, OrQuery, Query};
use banyan::TreeTypes;
use cbor_data::codec::{CodecError, ReadCbor, WriteCbor};
use libipld::{
    cbor::DagCborCodec,
    codec::{Codec, Decode, Encode},
    Cid, DagCbor, Ipld,
};
use multihash::MultihashDigest;
use serde_json::{json, Value as J};
use std::{
    convert::{TryFrom, TryInto},
    fmt,
    io::{Cursor, Read, Seek, Write},
    iter::FromIterator,
    sync::Arc,
};

#[derive(Debug, Clone)]
pub struct TT;

#[derive(Debug, Clone, PartialEq, Eq, DagCbor)]
pub struct Key(pub u64, pub Option<Cid>);

#[derive(Debug, Clone, Copy, PartialEq, Eq, DagCbor)]
pub struct KeyRange(pub u64, pub u64);

#[derive(Debug, Clone, DagCbor)]
pub struct KeySeq(pub Vec<Key>);

impl CompactSeq for KeySeq {
    type Item = Key;
    fn get(&self, index: usize) -> Option<Key> {
        self.0.get(index).cloned()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}

impl FromIterator<Key> for KeySeq {
    fn from_iter<T: IntoIterator<Item = Key>>(iter: T) -> Self {
        KeySeq(iter.into_iter().collect())
    }
}

impl Summarizable<KeyRange> for KeySeq {
    fn summarize(&self) -> KeyRange {
        let min = self.0.iter().map(|x| x.0).min().unwrap();
        let max = self.0.iter().map(|x| x.0).max().unwrap();
        KeyRange(min, max)
    }
}

impl Summarizable<KeyRange> for VecSeq<KeyRange> {
    fn summarize(&self) -> KeyRange {
        let min = self.as_ref().iter().map(|x| x.0).min().unwrap();
        let max = self.as_ref().iter().map(|x| x.1).max().unwrap();
        KeyRange(min, max)
    }
}

impl TreeTypes for TT {
    type Key = Key;
    type KeySeq = KeySeq;
    type Summary = KeyRange;
    type SummarySeq = VecSeq<KeyRange>;
    type Link = Link;
    const NONCE: &'static [u8; 24] = &NONCE;
}

/// not the default one (which the types of banyan-utils have)
pub const NONCE: [u8; 24] = *b"\x01\xf7nonce of the tests\x00\x00\x80\xff";

#[derive(Copy, Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct Link(pub [u8; 32]);

impl Link {
    pub fn digest(data: &[u8]) -> Self {
        use sha2::{Digest, Sha256};
        let mut hasher = Sha256::new();
        hasher.update(data);
        Link(hasher.finalize().try_into().unwrap())
    }
}
impl fmt::Display for Link {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:02x}{:02x}{:02x}", self.0[0], self.0[1], self.0[2])
    }
}
impl fmt::Debug for Link {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl Decode<DagCborCodec> for Link {
    fn decode<R: Read + Seek>(c: DagCborCodec, r: &mut R) -> anyhow::Result<Self> {
        Self::try_from(Cid::decode(c, r)?)
    }
}
impl Encode<DagCborCodec> for Link {
    fn encode<W: Write>(&self, c: DagCborCodec, w: &mut W) -> anyhow::Result<()> {
        Cid::encode(&Cid::from(*self), c, w)
    }
}
impl From<Link> for Cid {
    fn from(value: Link) -> Self {
        let mh = multihash::Multihash::wrap(0x12, &value.0).unwrap();
        Cid::new_v1(0x71, mh)
    }
}
impl TryFrom<Cid> for Link {
    type Error = anyhow::Error;
    fn try_from(value: Cid) -> Result<Self, Self::Error> {
        anyhow::ensure!(value.codec() == 0x71, "Unexpected codec");
        anyhow::ensure!(value.hash().code() == 0x12, "Unexpected hash algorithm");
        let digest: [u8; 32] = value.hash().digest().try_into()?;
        Ok(Self(digest))
    }
}

/// External (application) links are identified by small numbers; EXT + n in the traces.
pub const EXT: i64 = 1_000_000;
/// all external links are below this
pub const EXTS: u64 = 120;
/// links from here on are inside of a map in the value, and
pub const EXT_NESTED: u64 = 96;
/// from here on do not have the tag that makes them a link
pub const EXT_HIDDEN: u64 = 112;
fn mk_ext_cid(n: u64) -> Cid {
    let text = format!("ext-link-{}", n);
    let mh = multihash::Code::Sha2_256.digest(text.as_bytes());
    match n {
        // short and very short
        64..=71 => Cid::new_v1(0x55, multihash::Multihash::wrap(0, &text.as_bytes()[9..]).unwrap()),
        72..=79 => Cid::new_v0(mh).unwrap(),
        // like the links of the tree, but not one of them
        80..=87 => Cid::new_v1(0x71, mh),
        88..=95 => Cid::new_v1(0x70, multihash::Code::Sha2_512.digest(text.as_bytes())),
        _ => Cid::new_v1(0x55, mh),
    }
}
pub fn ext_cid(n: u64) -> Cid {
    thread_local!(static ALL: Vec<Cid> = (0..EXTS).map(mk_ext_cid).collect());
    ALL.with(|x| x[n as usize])
}
/// number of an external link
pub fn ext_id(cid: &Cid) -> Option<u64> {
    (0..EXTS).find(|n| ext_cid(*n) == *cid)
}
fn ext_ipld(n: u64) -> Ipld {
    let cid = ext_cid(n);
    if n >= EXT_HIDDEN {
        let mut b = vec![0u8];
        b.extend(cid.to_bytes());
        Ipld::Bytes(b)
    } else if n >= EXT_NESTED {
        let mut m = std::collections::BTreeMap::new();
        m.insert("x".to_string(), Ipld::List(vec![Ipld::List(vec![]), Ipld::Link(cid)]));
        m.insert("y".to_string(), Ipld::Null);
        Ipld::Map(m)
    } else {
        Ipld::Link(cid)
    }
}

/// A value: an id, an incompressible or compressible padding derived from (id, size), and links.
#[derive(Debug, Clone, PartialEq)]
pub struct Val {
    pub id: u64,
    pub size: usize,
    pub links: Vec<u64>,
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn pad(id: u64, size: usize) -> Vec<u8> {
    // even ids: incompressible, odd ids: compressible
    if id % 2 == 1 {
        vec![(id % 251) as u8; size]
    } else {
        let mut v = Vec::with_capacity(size + 8);
        let mut s = mix(id ^ 0xabcdef);
        while v.len() < size {
            s = mix(s);
            v.extend_from_slice(&s.to_le_bytes());
        }
        v.truncate(size);
        v
    }
}

impl Val {
    pub fn new(id: u64, size: usize, links: Vec<u64>) -> Self {
        Self { id, size, links }
    }
    pub fn ipld(&self) -> Ipld {
        Ipld::List(vec![
            Ipld::Integer(self.id as i128),
            Ipld::Bytes(pad(self.id, self.size)),
            Ipld::List(self.links.iter().map(|l| ext_ipld(*l)).collect()),
        ])
    }
    pub fn encoded_len(&self) -> usize {
        DagCborCodec.encode(&self.ipld()).unwrap().len()
    }
    /// None if the ipld is not one of our values
    pub fn from_ipld(x: &Ipld) -> Option<Val> {
        if let Ipld::List(v) = x {
            if let [Ipld::Integer(id), Ipld::Bytes(b), Ipld::List(ls)] = &v[..] {
                let id = u64::try_from(*id).ok()?;
                if pad(id, b.len()) != *b {
                    return None;
                }
                let mut links = vec![];
                for l in ls {
                    let n = match l {
                        Ipld::Link(c) => ext_id(c),
                        Ipld::Bytes(b) => Cid::read_bytes(&b[1..]).ok().and_then(|c| ext_id(&c)),
                        Ipld::Map(m) => match m.get("x") {
                            Some(Ipld::List(x)) => match x.get(1) {
                                Some(Ipld::Link(c)) => ext_id(c),
                                _ => None,
                            },
                            _ => None,
                        },
                        _ => None,
                    }?;
                    if ext_ipld(n) != *l {
                        return None;
                    }
                    links.push(n);
                }
                return Some(Val::new(id, b.len(), links));
            }
        }
        None
    }
}

impl WriteCbor for Val {
    fn write_cbor<W: cbor_data::Writer>(&self, w: W) -> W::Output {
        let bytes = DagCborCodec.encode(&self.ipld()).unwrap();
        w.write_trusting(&bytes)
    }
}

impl ReadCbor for Val {
    fn fmt(f: &mut impl std::fmt::Write) -> std::fmt::Result {
        write!(f, "Val")
    }
    fn read_cbor(cbor: &cbor_data::Cbor) -> cbor_data::codec::Result<Self>
    where
        Self: Sized,
    {
        let ipld = Ipld::decode(DagCborCodec, &mut Cursor::new(cbor.as_slice()))
            .map_err(|e| CodecError::str(e.to_string()))?;
        Val::from_ipld(&ipld).ok_or_else(|| CodecError::str("not a harness value"))
    }
}

#[derive(Debug, Clone)]
pub struct KeyQuery(pub Vec<(u64, u64)>);

impl Query<TT> for KeyQuery {
    fn containing(&self, _: u64, index: &LeafIndex<TT>, res: &mut [bool]) {
        for (res, key) in res.iter_mut().zip(index.keys()) {
            *res = *res && self.0.iter().any(|(a, b)| *a <= key.0 && key.0 <= *b);
        }
    }
    fn intersecting(&self, _: u64, index: &BranchIndex<TT>, res: &mut [bool]) {
        for (res, r) in res.iter_mut().zip(index.summaries()) {
            *res = *res && self.0.iter().any(|(a, b)| *a <= r.1 && r.0 <= *b);
        }
    }
}

pub type DynQuery = Arc<dyn Query<TT>>;

pub const INF: u64 = 2_000_000_000;

fn u(j: &J) -> u64 {
    j.as_u64().expect("u64")
}

/// Build a query out of the *library's* combinators from its JSON description.
pub fn mk_query(j: &J) -> DynQuery {
    match j["q"].as_str().unwrap() {
        "all" => Arc::new(AllQuery),
        "empty" => Arc::new(EmptyQuery),
        "keys" => Arc::new(KeyQuery(
            j["rs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|r| (u(&r[0]), u(&r[1])))
                .collect(),
        )),
        // [lo, hi) in different syntactic forms
        "range" => {
            let lo = u(&j["lo"]);
            let hi = u(&j["hi"]);
            match j["form"].as_str().unwrap_or("ex") {
                "ex" => Arc::new(OffsetRangeQuery::from(lo..hi)),
                "in" => {
                    if hi == 0 {
                        // an empty inclusive range
                        Arc::new(OffsetRangeQuery::from(1..=0))
                    } else {
                        Arc::new(OffsetRangeQuery::from(lo..=hi - 1))
                    }
                }
                "from" => Arc::new(OffsetRangeQuery::from(lo..)),
                "to" => Arc::new(OffsetRangeQuery::from(..hi)),
                "toin" => Arc::new(OffsetRangeQuery::from(..=hi - 1)),
                "full" => Arc::new(OffsetRangeQuery::from(..)),
                "bounds" => Arc::new(OffsetRangeQuery::from((
                    std::ops::Bound::Excluded(lo - 1),
                    std::ops::Bound::Excluded(hi),
                ))),
                x => panic!("unknown range form {}", x),
            }
        }
        "and" => Arc::new(AndQuery(mk_query(&j["a"]), mk_query(&j["b"]))),
        "or" => Arc::new(OrQuery(mk_query(&j["a"]), mk_query(&j["b"]))),
        x => panic!("unknown query {}", x),
    }
}

pub fn q_all() -> J {
    json!({"q":"all"})
}

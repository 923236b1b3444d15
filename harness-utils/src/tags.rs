use crate::{caught, keys::wide};
use banyan::{
    chacha20,
    query::AllQuery,
    store::{BranchCache, MemStore},
    Config, Forest, Secrets, StreamBuilder, Tree,
};
use banyan_utils::{
    sqlite::SqliteStore,
    tag_index::{Dnf, Expression, TagIndex, TagSet},
    tags::{DnfQuery, Key, Sha256Digest, TT},
};
use libipld::{cbor::DagCborCodec, codec::Codec, DefaultParams};
use serde_json::{json, Value as J};
use std::collections::BTreeSet;

fn strs(j: &J) -> Vec<String> {
    j.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
fn tagset(j: &J) -> TagSet {
    strs(j).into_iter().map(|x| x.into()).collect()
}
fn tagjson(t: &TagSet) -> J {
    json!(t.iter().map(|x| x.to_string()).collect::<Vec<_>>())
}

// ---------------------------------------------------------------- expressions
/// as written: no flattening
fn raw(j: &J) -> Expression {
    let c = || j["c"].as_array().unwrap().iter().map(raw).collect::<Vec<_>>();
    match j["t"].as_str().unwrap() {
        "l" => Expression::Literal(j["x"].as_str().unwrap().into()),
        "and" => Expression::And(c()),
        "or" => Expression::Or(c()),
        _ => panic!(),
    }
}
/// with the constructors
fn built(j: &J) -> Expression {
    let c = || j["c"].as_array().unwrap().iter().map(built).collect::<Vec<_>>();
    match j["t"].as_str().unwrap() {
        "l" => Expression::literal(j["x"].as_str().unwrap().into()),
        "and" => Expression::and(c()),
        "or" => Expression::or(c()),
        _ => panic!(),
    }
}
/// with the operators
fn ops(j: &J) -> Expression {
    let c = || j["c"].as_array().unwrap().iter().map(ops);
    match j["t"].as_str().unwrap() {
        "l" => Expression::literal(j["x"].as_str().unwrap().into()),
        "and" => c().reduce(|a, b| a & b).unwrap(),
        "or" => c().reduce(|a, b| a | b).unwrap(),
        _ => panic!(),
    }
}
fn ejson(e: &Expression) -> J {
    match e {
        Expression::Literal(x) => json!({"t":"l","x":x.to_string(),"c":[]}),
        Expression::And(c) => json!({"t":"and","x":"","c":c.iter().map(ejson).collect::<Vec<_>>()}),
        Expression::Or(c) => json!({"t":"or","x":"","c":c.iter().map(ejson).collect::<Vec<_>>()}),
    }
}
fn djson(d: &Dnf) -> J {
    json!(d.0.iter().map(tagjson).collect::<Vec<_>>())
}

/// reads the printed form: & binds stronger than |
struct Parser(Vec<char>, usize);
impl Parser {
    fn ws(&mut self) {
        while self.1 < self.0.len() && self.0[self.1] == ' ' {
            self.1 += 1
        }
    }
    fn eat(&mut self, c: char) -> bool {
        self.ws();
        if self.0.get(self.1) == Some(&c) {
            self.1 += 1;
            true
        } else {
            false
        }
    }
    fn or(&mut self) -> Option<J> {
        let mut v = vec![self.and()?];
        while self.eat('|') {
            v.push(self.and()?)
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { json!({"t":"or","x":"","c":v}) })
    }
    fn and(&mut self) -> Option<J> {
        let mut v = vec![self.atom()?];
        while self.eat('&') {
            v.push(self.atom()?)
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { json!({"t":"and","x":"","c":v}) })
    }
    fn atom(&mut self) -> Option<J> {
        if self.eat('(') {
            let e = self.or()?;
            return if self.eat(')') { Some(e) } else { None };
        }
        if !self.eat('\'') {
            return None;
        }
        let mut s = String::new();
        loop {
            let c = *self.0.get(self.1)?;
            self.1 += 1;
            if c == '\'' {
                if self.0.get(self.1) == Some(&'\'') {
                    self.1 += 1;
                } else {
                    break;
                }
            }
            s.push(c);
        }
        Some(json!({"t":"l","x":s,"c":[]}))
    }
}
fn parse(s: &str) -> J {
    let mut p = Parser(s.chars().collect(), 0);
    let e = p.or();
    p.ws();
    match e {
        Some(e) if p.1 == p.0.len() => e,
        _ => json!({"t":"bad","x":"","c":[]}),
    }
}

/// {id, es: [expr]}: normal forms and back
pub fn dnf(ep: &J) -> J {
    let mut evs = vec![];
    let es = ep["es"].as_array().unwrap();
    for e in es {
        for (how, x) in [("raw", raw(e)), ("built", built(e)), ("ops", ops(e))] {
            let r = caught(|| {
                let d = x.clone().dnf();
                let d1: Dnf = x.clone().into();
                let back = d.clone().expression();
                let back1: Expression = d1.into();
                let s = x.simplify();
                json!({"r":"ok","dnf":djson(&d),"back":ejson(&back),"back1":ejson(&back1),
                    "again":djson(&back.clone().dnf()),
                    "simp":ejson(&s),"shown":parse(&x.to_string()),
                    "shownback":parse(&back.to_string()),"built":ejson(&x)})
            });
            let mut ev = r.unwrap_or_else(|p| json!({"r":"panic","msg":p}));
            ev["e"] = e.clone();
            ev["how"] = json!(how);
            evs.push(ev);
        }
    }
    // which normal forms are equal
    let ds: Vec<Option<Dnf>> = es.iter().map(|e| caught(|| raw(e).dnf()).ok()).collect();
    let eq: Vec<Vec<bool>> = ds.iter().map(|a| ds.iter().map(|b| a.is_some() && a == b).collect()).collect();
    json!({"id":ep["id"],"es":es,"ev":evs,"eq":eq})
}

// ---------------------------------------------------------------- tag index
/// {id, els: [[tag]], qs: [[[tag]]]}
pub fn index(ep: &J) -> J {
    let els: Vec<TagSet> = ep["els"].as_array().unwrap().iter().map(tagset).collect();
    let qs = ep["qs"].as_array().unwrap();
    let mut evs = vec![];
    let base = caught(|| TagIndex::from_elements(&els));
    let variants: Vec<(&str, Result<TagIndex, String>)> = match base {
        Err(e) => vec![("new", Err(e))],
        Ok(ix) => {
            let js = caught(|| -> TagIndex { serde_json::from_str(&serde_json::to_string(&ix).unwrap()).unwrap() });
            let cb = caught(|| -> TagIndex { DagCborCodec.decode(&DagCborCodec.encode(&ix).unwrap()).unwrap() });
            let re = caught(|| TagIndex::from_elements(&ix.as_elements()));
            vec![("new", Ok(ix)), ("json", js), ("cbor", cb), ("rebuilt", re)]
        }
    };
    for (how, ix) in variants {
        let r = ix.and_then(|ix| {
            caught(|| {
                let all: Vec<J> = ix.as_elements().iter().map(tagjson).collect();
                let got: Vec<J> = (0..els.len()).map(|i| ix.get(i).map(|x| tagjson(&x)).unwrap_or(json!(["?none"]))).collect();
                let over = ix.get(els.len()).is_none();
                let m: Vec<Vec<usize>> = qs
                    .iter()
                    .map(|q| {
                        let terms: BTreeSet<TagSet> = q.as_array().unwrap().iter().map(tagset).collect();
                        ix.matching(Dnf(terms))
                    })
                    .collect();
                json!({"r":"ok","all":all,"got":got,"over":over,"m":m})
            })
        });
        let mut ev = r.unwrap_or_else(|p| json!({"r":"panic","msg":p}));
        ev["how"] = json!(how);
        evs.push(ev);
    }
    json!({"id":ep["id"],"els":ep["els"],"qs":ep["qs"],"ev":evs})
}

// ---------------------------------------------------------------- tag queries on trees
pub fn term(j: &J) -> Key {
    let tags = tagset(&j["tags"]);
    match j["form"].as_str().unwrap() {
        "tags" => Key::filter_tags(tags),
        _ => Key::range(wide(j["lo"].as_u64().unwrap()), wide(j["hi"].as_u64().unwrap()), tags),
    }
}
type Store = SqliteStore<DefaultParams>;

fn reads<S: banyan::store::ReadOnlyStore<Sha256Digest>>(
    forest: &Forest<TT, S>,
    tree: &Tree<TT, u64>,
    q: &J,
    how: &str,
) -> anyhow::Result<Vec<(u64, u64)>> {
    let q = banyan::query::QueryExt::boxed(DnfQuery(q.as_array().unwrap().iter().map(term).collect()));
    let mut out = vec![];
    match how {
        "fwd" => {
            for x in forest.iter_filtered(tree, q) {
                let (o, _, v) = x?;
                out.push((o, v));
            }
        }
        "rev" => {
            for x in forest.iter_filtered_reverse(tree, q) {
                let (o, _, v) = x?;
                out.push((o, v));
            }
            out.sort_unstable();
        }
        "chunk" => {
            for c in forest.iter_filtered_chunked(tree, q, &|_| ()) {
                for (o, _, v) in c?.data {
                    out.push((o, v));
                }
            }
        }
        _ => {
            for x in futures::executor::block_on_stream(Box::pin(forest.stream_filtered(tree, q))) {
                let (o, _, v) = x?;
                out.push((o, v));
            }
        }
    }
    Ok(out)
}

fn with_store<S>(ep: &J, store: S) -> J
where
    S: banyan::store::ReadOnlyStore<Sha256Digest> + banyan::store::BlockWriter<Sha256Digest> + Clone,
{
    let g = |k: &str, d: u64| ep["cfg"][k].as_u64().unwrap_or(d);
    let config = Config {
        max_leaf_count: g("lc", 4) as usize,
        max_key_branches: g("kb", 3) as usize,
        max_summary_branches: g("sb", 3) as usize,
        target_leaf_size: g("tls", 1 << 20) as usize,
        max_uncompressed_leaf_size: 1 << 24,
        zstd_level: 1,
    };
    let secrets = Secrets::new(chacha20::Key::from([1u8; 32]), chacha20::Key::from([2u8; 32]));
    let forest: Forest<TT, S> = Forest::new(store.clone(), BranchCache::new(g("cache", 0) as usize));
    let mut b: StreamBuilder<TT, u64> = StreamBuilder::new(config, secrets.clone());
    let mut n = 0u64;
    let mut evs = vec![];
    for op in ep["ops"].as_array().unwrap() {
        let name = op["op"].as_str().unwrap();
        let mut ev = json!({ "op": name });
        let r = caught(|| -> anyhow::Result<()> {
            let mut txn = banyan::Transaction::new(forest.clone(), store.clone());
            match name {
                "extend" | "extend_unpacked" => {
                    let mut xs = vec![];
                    for e in op["els"].as_array().unwrap() {
                        xs.push((
                            Key::single(wide(e["l"].as_u64().unwrap()), wide(e["t"].as_u64().unwrap()), tagset(&e["tags"])),
                            n,
                        ));
                        n += 1;
                    }
                    ev["els"] = op["els"].clone();
                    if name == "extend" {
                        txn.extend(&mut b, xs)?;
                    } else {
                        txn.extend_unpacked(&mut b, xs)?;
                    }
                }
                "pack" => txn.pack(&mut b)?,
                "query" => {
                    let tree = if op["load"].as_bool().unwrap_or(false) && b.link().is_some() {
                        forest.load_tree(secrets.clone(), b.link().unwrap())?
                    } else {
                        b.snapshot()
                    };
                    ev["q"] = op["q"].clone();
                    ev["how"] = op["how"].clone();
                    let out = reads(&forest, &tree, &op["q"], op["how"].as_str().unwrap())?;
                    ev["out"] = json!(out);
                    // everything, with keys
                    let all: Vec<u64> = forest.iter_filtered(&tree, AllQuery).map(|x| x.unwrap().2).collect();
                    ev["n"] = json!(all.len());
                }
                _ => panic!("op {}", name),
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => ev["r"] = json!("ok"),
            Ok(Err(e)) => {
                ev["r"] = json!("err");
                ev["msg"] = json!(e.to_string())
            }
            Err(p) => {
                ev["r"] = json!("panic");
                ev["msg"] = json!(p)
            }
        }
        evs.push(ev);
    }
    json!({"id":ep["id"],"ev":evs})
}

/// {id, cfg, store: mem|sqlite, ops}
pub fn query(ep: &J) -> J {
    if ep["store"] == "sqlite" {
        let s: Store = SqliteStore::new(
            ipfs_sqlite_block_store::BlockStore::memory(ipfs_sqlite_block_store::Config::default()).unwrap(),
        );
        with_store(ep, s)
    } else {
        with_store(ep, MemStore::new(1 << 30, Sha256Digest::digest))
    }
}

//! The client for ipfs nodes, with a small node of our own on the loopback interface whose
//! behaviour (failures, how replies are cut into pieces) is given by the script.
use crate::caught;
use banyan::store::{BlockWriter, ReadOnlyStore};
use banyan_utils::{ipfs, tags::Sha256Digest};
use futures::StreamExt;
use libipld::{
    cbor::DagCborCodec,
    codec::Codec,
    multihash::{Code, Multihash, MultihashDigest},
    Cid, Ipld,
};
use parking_lot::Mutex;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::str::FromStr;
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Node {
    /// block by the digest of its link
    blocks: BTreeMap<Vec<u8>, Vec<u8>>,
    /// how to deal with the next request
    mode: String,
    /// (topic, connection)
    subs: Vec<(String, mpsc::Sender<Piece>)>,
    /// what was asked for
    reqs: Vec<J>,
    subscribed: usize,
    stored: Vec<Vec<u8>>,
    cut: usize,
    /// every so many block reads fail
    pub flaky: u64,
    reads: u64,
    all: usize,
}
impl Node {
    pub fn subscribed(&self) -> usize {
        self.subscribed
    }
    pub fn published(&self) -> usize {
        self.all
    }
}
/// an event, or the end, and how to hand it out
type Piece = (Option<Vec<u8>>, String, usize);
pub type Shared = Arc<Mutex<Node>>;

fn percent(x: &str, plus: bool) -> Vec<u8> {
    let b = x.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            r.push(u8::from_str_radix(&x[i + 1..i + 3], 16).unwrap_or(b'?'));
            i += 3;
        } else {
            r.push(if plus && b[i] == b'+' { b' ' } else { b[i] });
            i += 1;
        }
    }
    r
}

fn find(x: &[u8], y: &[u8]) -> Option<usize> {
    x.windows(y.len()).position(|w| w == y)
}

/// method, path, arguments, headers (lower case), body
struct Req {
    path: String,
    post: bool,
    args: Vec<(String, Vec<u8>)>,
    ctype: String,
    body: Vec<u8>,
}

fn read(s: &mut TcpStream) -> Option<Req> {
    let mut buf = vec![];
    let mut tmp = [0u8; 65536];
    let head = loop {
        if let Some(p) = find(&buf, b"\r\n\r\n") {
            break p;
        }
        let n = s.read(&mut tmp).ok()?;
        if n == 0 {
            return None;
        }
        buf.extend_from_slice(&tmp[..n]);
    };
    let text = String::from_utf8_lossy(&buf[..head]).to_string();
    let mut body = buf[head + 4..].to_vec();
    let mut ls = text.lines();
    let first: Vec<&str> = ls.next()?.split(' ').collect();
    let h: BTreeMap<String, String> = ls.filter_map(|l| l.find(':').map(|p| (l[..p].to_lowercase(), l[p + 1..].trim().to_string()))).collect();
    if let Some(n) = h.get("content-length") {
        let n: usize = n.parse().ok()?;
        while body.len() < n {
            let k = s.read(&mut tmp).ok()?;
            if k == 0 {
                return None;
            }
            body.extend_from_slice(&tmp[..k]);
        }
    } else if h.get("transfer-encoding").map(|x| x == "chunked").unwrap_or(false) {
        let mut raw = body;
        body = vec![];
        loop {
            let (n, at) = loop {
                if let Some(p) = find(&raw, b"\r\n") {
                    let n = usize::from_str_radix(std::str::from_utf8(&raw[..p]).ok()?.split(';').next()?.trim(), 16).ok()?;
                    if raw.len() >= p + 2 + n + 2 {
                        break (n, p + 2);
                    }
                }
                let k = s.read(&mut tmp).ok()?;
                if k == 0 {
                    return None;
                }
                raw.extend_from_slice(&tmp[..k]);
            };
            body.extend_from_slice(&raw[at..at + n]);
            raw.drain(..at + n + 2);
            if n == 0 {
                break;
            }
        }
    }
    let mut pq = first.get(1)?.splitn(2, '?');
    let path = pq.next()?.to_string();
    let args = pq
        .next()
        .unwrap_or("")
        .split('&')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let mut kv = x.splitn(2, '=');
            (kv.next().unwrap().to_string(), percent(kv.next().unwrap_or(""), true))
        })
        .collect();
    Some(Req { path, post: first[0] == "POST", args, ctype: h.get("content-type").cloned().unwrap_or_default(), body })
}

fn reply(s: &mut TcpStream, mode: &str, cut: usize, status: &str, body: &[u8]) {
    let _ = (|| -> std::io::Result<()> {
        if mode == "chunks" || mode == "cutchunks" {
            write!(s, "HTTP/1.1 {}\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n", status)?;
            for c in body.chunks((body.len() / 3).max(1)) {
                write!(s, "{:x}\r\n", c.len())?;
                s.write_all(c)?;
                s.write_all(b"\r\n")?;
                s.flush()?;
                if mode == "cutchunks" {
                    return Ok(());
                }
            }
            s.write_all(b"0\r\n\r\n")?;
        } else {
            write!(s, "HTTP/1.1 {}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", status, body.len() + if mode == "cut" { 10 } else { 0 })?;
            let at = cut.min(body.len());
            s.write_all(&body[..at])?;
            s.flush()?;
            s.write_all(&body[at..])?;
        }
        s.flush()
    })();
}

const FAIL: &[u8] = br#"{"Message":"merkledag: not found","Code":0,"Type":"error"}"#;

fn serve(mut s: TcpStream, node: Shared) {
    let _ = s.set_nodelay(true);
    let req = match read(&mut s) {
        Some(r) => r,
        None => return,
    };
    let arg = |k: &str| req.args.iter().filter(|a| a.0 == k).map(|a| a.1.clone()).collect::<Vec<_>>();
    let text = |k: &str| arg(k).first().map(|x| String::from_utf8_lossy(x).to_string()).unwrap_or_default();
    let (mode, cut) = {
        let mut n = node.lock();
        n.reqs.push(json!([if req.post { req.path.trim_start_matches("/api/v0/") } else { "not a post" }, text("format"), text("pin")]));
        (n.mode.clone(), n.cut)
    };
    match mode.as_str() {
        "drop" => return,
        "404" => return reply(&mut s, "", cut, "404 Not Found", b"404 page not found"),
        "500" => return reply(&mut s, "", cut, "500 Internal Server Error", FAIL),
        "key500" => return reply(&mut s, "", cut, "500 Internal Server Error", format!("{{\"Key\":\"{}\"}}", Cid::from(Sha256Digest::digest(b"odd"))).as_bytes()),
        _ => {}
    }
    match req.path.as_str() {
        "/api/v0/block/get" => {
            {
                let mut n = node.lock();
                n.reads += 1;
                if n.flaky > 0 && n.reads % n.flaky == 0 {
                    return reply(&mut s, "", cut, "500 Internal Server Error", FAIL);
                }
            }
            let data = Cid::from_str(&text("arg")).ok().filter(|c| c.codec() == 0x71 && c.hash().code() == 0x12).and_then(|c| node.lock().blocks.get(c.hash().digest()).cloned());
            match data {
                Some(d) => reply(&mut s, &mode, cut, "200 OK", &d),
                None => reply(&mut s, "", cut, "500 Internal Server Error", FAIL),
            }
        }
        "/api/v0/block/put" => {
            let bd = req.ctype.split("boundary=").nth(1).unwrap_or("").trim_matches('"').to_string();
            let bound = format!("--{}", bd).into_bytes();
            // one part, called file
            let part = (|| {
                let a = find(&req.body, &bound)? + bound.len() + 2;
                let h = a + find(&req.body[a..], b"\r\n\r\n")?;
                let head = String::from_utf8_lossy(&req.body[a..h]).to_string();
                let mut end = b"\r\n".to_vec();
                end.extend_from_slice(&bound);
                let e = h + 4 + find(&req.body[h + 2..], &end)? - 2;
                if head.contains("name=\"file\"") { Some(req.body[h + 4..e.max(h + 4)].to_vec()) } else { None }
            })();
            let codec = match text("format").as_str() {
                "cbor" => 0x71,
                "protobuf" => 0x70,
                "raw" => 0x55,
                _ => 0,
            };
            match part {
                Some(d) if codec != 0 => {
                    let mh = Code::Sha2_256.digest(&d);
                    let cid = Cid::new_v1(codec, mh);
                    let mut n = node.lock();
                    n.stored.push(d.clone());
                    n.blocks.insert(mh.digest().to_vec(), d.clone());
                    drop(n);
                    let body = match mode.as_str() {
                        "badkey" => "{\"Key\":\"Qmnonsense\",\"Size\":1}\n".to_string(),
                        "nokey" => String::from_utf8_lossy(FAIL).to_string(),
                        _ => format!("{{\"Key\":\"{}\",\"Size\":{}}}\n", cid, d.len()),
                    };
                    reply(&mut s, &mode, cut, "200 OK", body.as_bytes())
                }
                _ => reply(&mut s, "", cut, "400 Bad Request", FAIL),
            }
        }
        "/api/v0/pubsub/pub" => {
            let a = arg("arg");
            if a.len() != 2 {
                return reply(&mut s, "", cut, "400 Bad Request", FAIL);
            }
            let topic = String::from_utf8_lossy(&a[0]).to_string();
            let mut n = node.lock();
            n.stored.push(a[1].clone());
            n.all += 1;
            let ev = json!({"from":base64(&[1, 2, 3]),"data":base64(&a[1]),"seqno":base64(&[0, 7]),"topicIDs":[topic]}).to_string() + "\n";
            for (t, c) in n.subs.iter() {
                if *t == topic {
                    let _ = c.send((Some(ev.clone().into_bytes()), mode.clone(), cut));
                }
            }
            drop(n);
            reply(&mut s, &mode, cut, "200 OK", b"")
        }
        "/api/v0/pubsub/sub" => {
            let (tx, rx) = mpsc::channel();
            if write!(s, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n").and_then(|_| s.flush()).is_err() {
                return;
            }
            {
                let mut n = node.lock();
                n.subs.push((text("arg"), tx));
                n.subscribed += 1;
            }
            let mut held: Vec<u8> = vec![];
            loop {
                // "merge": hand out what arrived together as one piece, "split": in several
                let (ev, mode, cut) = match rx.recv() {
                    Ok(x) => x,
                    Err(_) => return,
                };
                let last = ev.is_none();
                held.extend_from_slice(&ev.unwrap_or_default());
                if mode == "merge" && !last {
                    continue;
                }
                let size = if mode == "split" { cut.max(1) } else { held.len().max(1) };
                for c in held.chunks(size) {
                    let ok = write!(s, "{:x}\r\n", c.len()).and_then(|_| s.write_all(c)).and_then(|_| s.write_all(b"\r\n")).and_then(|_| s.flush());
                    if ok.is_err() {
                        return;
                    }
                    if size < held.len() {
                        std::thread::sleep(Duration::from_millis(2));
                    }
                }
                held.clear();
                if last {
                    if mode != "abort" {
                        let _ = s.write_all(b"0\r\n\r\n");
                    }
                    return;
                }
            }
        }
        _ => reply(&mut s, "", cut, "404 Not Found", b"404 page not found"),
    }
}

fn base64(x: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut r = String::new();
    for c in x.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            r.push(if k <= c.len() { A[(n >> (18 - 6 * k)) as usize & 63] as char } else { '=' });
        }
    }
    r
}

lazy_static::lazy_static! {
    static ref NODE: Shared = start();
    static ref RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
}

fn start() -> Shared {
    let node: Shared = Default::default();
    // another check may use the port
    let until = Instant::now() + Duration::from_secs(50);
    let mut ls = vec![];
    for a in &["127.0.0.1:5001", "[::1]:5001"] {
        loop {
            match TcpListener::bind(a) {
                Ok(l) => {
                    ls.push(l);
                    break;
                }
                Err(e) if e.kind() == std::io::ErrorKind::AddrInUse && Instant::now() < until => std::thread::sleep(Duration::from_millis(200)),
                Err(_) => break,
            }
        }
    }
    if ls.is_empty() {
        println!("NO PORT");
        std::process::exit(4);
    }
    for l in ls {
        let node = node.clone();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let node = node.clone();
                std::thread::spawn(move || serve(s, node));
            }
        });
    }
    node
}

pub fn fresh() -> Shared {
    let node = NODE.clone();
    *node.lock() = Node { cut: 1 << 30, ..Node::default() };
    node
}

/// content number d
fn content(d: u64, size: usize) -> Vec<u8> {
    let mut x = d * 7919 + 13;
    let mut r: Vec<u8> = (0..size)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 33) as u8
        })
        .collect();
    if d % 3 == 0 && size > 12 {
        r[5..9].copy_from_slice(b"\r\n--");
        let n = r.len();
        r[n - 2..].copy_from_slice(b"\r\n");
    }
    r
}

static LATE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn wait(mut f: impl FnMut() -> bool, ms: u64) -> bool {
    use std::sync::atomic::Ordering::SeqCst;
    // patient, but not for ever if nothing comes
    let ms = if LATE.load(SeqCst) < 6 { ms } else { ms.min(300) };
    let until = Instant::now() + Duration::from_millis(ms);
    while !f() {
        if Instant::now() > until {
            LATE.fetch_add(1, SeqCst);
            return false;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    true
}

type Inbox = Arc<Mutex<(Vec<Vec<u8>>, String)>>;

/// {id, sizes: [n], ops}; messages and blocks are given by the numbers of their contents
pub fn run(ep: &J) -> J {
    let node = fresh();
    let sizes: Vec<usize> = ep["sizes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let datas: Vec<Vec<u8>> = sizes.iter().enumerate().map(|(k, n)| content(k as u64 + 1, *n)).collect();
    let number = |x: &[u8]| datas.iter().position(|y| y[..] == *x).map(|x| x as i64 + 1).unwrap_or(-1);
    let mut store = ipfs::IpfsStore::default();
    let mut inbox: Vec<Inbox> = vec![];
    let mut evs = vec![];
    for op in ep["ops"].as_array().unwrap() {
        let name = op["op"].as_str().unwrap();
        let mode = op["mode"].as_str().unwrap_or("ok").to_string();
        {
            let mut n = node.lock();
            n.mode = mode.clone();
            n.cut = op["cut"].as_u64().unwrap_or(1 << 30) as usize;
            n.reqs.clear();
            n.stored.clear();
        }
        let d = op["d"].as_u64().unwrap_or(0) as usize;
        let u = |k: &str| op[k].as_u64().unwrap_or(0);
        let topic = op["topic"].as_str().unwrap_or("").to_string();
        let mut ev = json!({"op":name,"mode":mode,"d":d,"topic":topic,"sub":u("sub"),"n":u("n"),"codec":u("codec"),"pin":op["pin"] == true,
            "out":0,"same":true,"msgs":[],"end":"","good":true});
        let r = caught(|| -> anyhow::Result<()> {
            match name {
                "put" => {
                    let l = store.put(datas[d - 1].clone())?;
                    ev["same"] = json!(l == Sha256Digest::digest(&datas[d - 1]));
                }
                "get" => {
                    let x = store.get(&Sha256Digest::digest(&datas[d - 1]))?;
                    ev["out"] = json!(number(&x));
                }
                "bput" => {
                    let c = ipfs::block_put(&datas[d - 1], u("codec"), op["pin"] == true)?;
                    ev["same"] = json!(c == Cid::new_v1(u("codec"), Code::Sha2_256.digest(&datas[d - 1])));
                }
                "pub" => RT.block_on(ipfs::pubsub_pub(&topic, &datas[d - 1]))?,
                "sub" => {
                    let b: Inbox = Default::default();
                    inbox.push(b.clone());
                    let before = node.lock().subscribed;
                    RT.spawn(async move {
                        let fin = Fin(b.clone());
                        match ipfs::pubsub_sub(&topic) {
                            Err(_) => b.lock().1 = "err".into(),
                            Ok(s) => {
                                let mut s = s.boxed();
                                while let Some(x) = s.next().await {
                                    match x {
                                        Ok(m) => b.lock().0.push(m),
                                        Err(_) => {
                                            b.lock().1 = "err".into();
                                            break;
                                        }
                                    }
                                }
                                let mut b = b.lock();
                                if b.1.is_empty() {
                                    b.1 = "end".into();
                                }
                            }
                        }
                        drop(fin);
                    });
                    let b = inbox.last().unwrap();
                    wait(|| node.lock().subscribed > before || !b.lock().1.is_empty(), 20000);
                    ev["end"] = json!(b.lock().1);
                    if node.lock().subscribed == before {
                        inbox.pop();
                        anyhow::bail!("not subscribed");
                    }
                }
                // wait for n messages
                "recv" => {
                    let b = &inbox[u("sub") as usize - 1];
                    wait(|| b.lock().0.len() >= u("n") as usize || !b.lock().1.is_empty(), 20000);
                    let b = b.lock();
                    ev["msgs"] = json!(b.0.iter().map(|x| number(x)).collect::<Vec<_>>());
                    ev["end"] = json!(b.1);
                }
                // the node ends a subscription
                "close" => {
                    let s = u("sub") as usize - 1;
                    let c = node.lock().subs[s].1.clone();
                    let _ = c.send((None, mode.clone(), 0));
                    let b = &inbox[s];
                    wait(|| !b.lock().1.is_empty(), 20000);
                    let b = b.lock();
                    ev["msgs"] = json!(b.0.iter().map(|x| number(x)).collect::<Vec<_>>());
                    ev["end"] = json!(b.1);
                }
                "link" => ev["good"] = json!(links(&datas[d - 1])),
                _ => panic!("op {}", name),
            }
            Ok(())
        });
        ev["r"] = json!(match &r {
            Ok(Ok(())) => "ok",
            Ok(Err(_)) => "err",
            Err(_) => "panic",
        });
        if let Err(p) = r {
            ev["msg"] = json!(p);
        }
        let n = node.lock();
        ev["reqs"] = json!(n.reqs);
        ev["stored"] = json!(n.stored.iter().map(|x| number(x)).collect::<Vec<_>>());
        drop(n);
        evs.push(ev);
    }
    // end the subscriptions which are still open
    let subs = std::mem::take(&mut node.lock().subs);
    drop(subs);
    json!({"id":ep["id"],"ev":evs})
}

/// records that a subscription ended by a panic
struct Fin(Inbox);
impl Drop for Fin {
    fn drop(&mut self) {
        let mut b = self.0.lock();
        if b.1.is_empty() {
            b.1 = "panic".into();
        }
    }
}

/// a link in all its forms, and things that are not links of this kind
fn links(data: &[u8]) -> bool {
    let l = Sha256Digest::new(data);
    let mh = Code::Sha2_256.digest(data);
    let cid = Cid::new_v1(0x71, mh);
    let dec = |c: &Cid| -> anyhow::Result<Sha256Digest> { DagCborCodec.decode(&DagCborCodec.encode(&Ipld::Link(*c))?) };
    let ok = Cid::from(l) == cid
        && Sha256Digest::try_from(cid).ok() == Some(l)
        && Sha256Digest::from_str(&cid.to_string()).ok() == Some(l)
        && l.to_string() == cid.to_string()
        && format!("{:?}", l) == cid.to_string()
        && DagCborCodec.encode(&l).ok() == DagCborCodec.encode(&Ipld::Link(cid)).ok()
        && dec(&cid).ok() == Some(l);
    let w = |code: u64, d: &[u8]| Multihash::wrap(code, d).unwrap();
    let dg = mh.digest();
    let mut longer = dg.to_vec();
    longer.push(0);
    let others = vec![
        Cid::new_v1(0x55, mh),
        Cid::new_v1(0x70, mh),
        Cid::new_v1(0x71, w(0x13, dg)),
        Cid::new_v1(0x71, w(0x1b, dg)),
        Cid::new_v1(0x71, w(0, dg)),
        Cid::new_v1(0x71, w(0x12, &dg[..31])),
        Cid::new_v1(0x71, w(0x12, &dg[1..])),
        Cid::new_v1(0x71, w(0x12, &[])),
        Cid::new_v1(0x71, w(0x12, &longer)),
        Cid::new_v0(mh).unwrap(),
    ];
    let refused = others.iter().all(|c| Sha256Digest::try_from(*c).is_err() && Sha256Digest::from_str(&c.to_string()).is_err() && dec(c).is_err());
    ok && refused && Sha256Digest::from_str("").is_err() && Sha256Digest::from_str(&cid.to_string()[1..]).is_err()
}

//! A recording, fault-injecting, content addressed in-memory block store.
use crate::tt::Link;
use banyan::store::{BlockWriter, ReadOnlyStore};
use parking_lot::Mutex;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

thread_local!(static QUIET: std::cell::Cell<u32> = std::cell::Cell::new(0));

/// reads by user code which runs within a call (iterators of items, queries, extra data): not part of what the
/// call itself does, so neither recorded nor failed on purpose
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            QUIET.with(|q| q.set(q.get() - 1));
        }
    }
    QUIET.with(|q| q.set(q.get() + 1));
    let _d = D;
    f()
}

#[derive(Default)]
pub struct Inner {
    pub ids: HashMap<Link, usize>,
    /// (link, data) in put order; block id = position + 1
    pub blocks: Vec<(Link, Vec<u8>)>,
    /// every put, in order: id of block (repeats possible)
    pub puts: Vec<usize>,
    pub lost: HashSet<usize>,
    /// blocks which are there but garbled
    pub garbled: HashMap<usize, Vec<u8>>,
    pub gets: Vec<i64>,
    /// data of failed puts since the last event
    pub attempts: Vec<Vec<u8>>,
    /// fail the puts with these sequence numbers (counted from arming)
    pub fail_put: Option<(u64, u64)>,
    pub fail_get: Option<(u64, u64)>,
    pub put_n: u64,
    pub get_n: u64,
    pub faults: u64,
}

#[derive(Clone, Default)]
pub struct RecStore(pub Arc<Mutex<Inner>>);

impl RecStore {
    pub fn id_of(&self, link: &Link) -> i64 {
        self.0.lock().ids.get(link).map(|x| *x as i64).unwrap_or(-1)
    }
    pub fn link_of(&self, id: usize) -> Link {
        self.0.lock().blocks[id - 1].0
    }
    pub fn arm_put(&self, from: u64, n: u64) {
        let mut g = self.0.lock();
        g.put_n = 0;
        g.fail_put = Some((from, n));
    }
    pub fn arm_get(&self, from: u64, n: u64) {
        let mut g = self.0.lock();
        g.get_n = 0;
        g.fail_get = Some((from, n));
    }
    pub fn disarm(&self) {
        let mut g = self.0.lock();
        g.fail_put = None;
        g.fail_get = None;
    }
}

impl ReadOnlyStore<Link> for RecStore {
    fn get(&self, link: &Link) -> anyhow::Result<Box<[u8]>> {
        let mut g = self.0.lock();
        let id = g.ids.get(link).cloned();
        if QUIET.with(|q| q.get()) > 0 {
            return match id {
                Some(id) if !g.lost.contains(&id) => Ok(g.garbled.get(&id).unwrap_or(&g.blocks[id - 1].1).clone().into()),
                _ => anyhow::bail!("block {} is not there", link),
            };
        }
        g.get_n += 1;
        if let Some((from, n)) = g.fail_get {
            if g.get_n >= from && g.get_n < from + n {
                g.faults += 1;
                g.gets.push(-(id.map(|x| x as i64).unwrap_or(0)));
                anyhow::bail!("injected get failure");
            }
        }
        match id {
            Some(id) if !g.lost.contains(&id) => {
                g.gets.push(id as i64);
                let mut data = g.blocks[id - 1].1.clone();
                if let Some(bad) = g.garbled.get(&id) {
                    data = bad.clone();
                    g.faults += 1;
                }
                Ok(data.into())
            }
            Some(id) => {
                g.faults += 1;
                g.gets.push(-(id as i64));
                anyhow::bail!("block {} is not there", link)
            }
            None => {
                g.faults += 1;
                anyhow::bail!("unknown block {}", link)
            }
        }
    }
}

impl BlockWriter<Link> for RecStore {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Link> {
        let mut g = self.0.lock();
        g.put_n += 1;
        if let Some((from, n)) = g.fail_put {
            if g.put_n >= from && g.put_n < from + n {
                g.faults += 1;
                g.attempts.push(data);
                anyhow::bail!("injected put failure");
            }
        }
        let link = Link::digest(&data);
        if let Some(id) = g.ids.get(&link).cloned() {
            g.puts.push(id);
            g.lost.remove(&id);
        } else {
            let id = g.blocks.len() + 1;
            g.ids.insert(link, id);
            g.blocks.push((link, data));
            g.puts.push(id);
        }
        Ok(link)
    }
}

//! Driver for the header and filter-header stores (C04): appends, rollbacks, reopening, and writes cut
//! short at any byte.
use crate::small::args;
use crate::util::*;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::consensus::encode::{serialize, Decodable, Encodable};
use nakamoto_common::bitcoin::{BlockHeader, TxMerkleNode};
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::filter::{FilterHash, FilterHeader, Filters};
use nakamoto_common::block::store::{Genesis, Store};
use nakamoto_common::block::BlockHash;
use nakamoto_common::network::Network;
use nakamoto_chain::store::{File, Memory};

type R = fastrand::Rng;

trait Entry: 'static + Copy + Encodable + Decodable + Genesis {
    const SIZE: usize;
    fn fresh(rng: &R, prev: &Self) -> Self;
}
fn arr(rng: &R) -> [u8; 32] {
    let mut b = [0u8; 32];
    b.iter_mut().for_each(|x| *x = rng.u8(..));
    b
}
impl Entry for BlockHeader {
    const SIZE: usize = 80;
    fn fresh(rng: &R, prev: &Self) -> Self {
        BlockHeader { version: rng.i32(..), prev_blockhash: prev.block_hash(), merkle_root: TxMerkleNode::from_inner(arr(rng)), time: rng.u32(..), bits: rng.u32(..), nonce: rng.u32(..) }
    }
}
impl Entry for StoredHeader {
    const SIZE: usize = 64;
    fn fresh(rng: &R, prev: &Self) -> Self {
        let hash = FilterHash::from_inner(arr(rng));
        StoredHeader { hash, header: hash.filter_header(&prev.header) }
    }
}

/// Run `f` with the largest file the process may write limited to `limit` bytes.
fn with_file_limit<T>(limit: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        let mut old = std::mem::zeroed::<libc::rlimit>();
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let new = libc::rlimit { rlim_cur: limit, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &new);
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        r
    }
}

struct Ids<H>(Vec<(Vec<u8>, H)>);
impl<H: Entry> Ids<H> {
    fn id(&self, h: &H) -> i64 {
        let b = serialize(h);
        self.0.iter().position(|(x, _)| *x == b).map(|i| i as i64).unwrap_or(-1)
    }
    fn add(&mut self, h: H) -> i64 {
        self.0.push((serialize(&h), h));
        self.0.len() as i64 - 1
    }
}

fn look<H: Entry, S: Store<Header = H>>(s: &S, ids: &Ids<H>, rng: &R) -> Vec<(&'static str, J)> {
    let mut iter: Vec<J> = vec![];
    for r in s.iter() {
        match r {
            Ok((h, x)) => iter.push(J::from((h, ids.id(&x)))),
            Err(_) => {
                iter.push(J::from((-1i64, -1i64)));
                break;
            }
        }
    }
    let gets: Vec<J> = (0..4)
        .map(|_| {
            let h = rng.u64(..iter.len() as u64 + 2);
            J::from((h, s.get(h).map(|x| ids.id(&x)).unwrap_or(-1)))
        })
        .collect();
    vec![
        ("iter", iter.into()),
        ("gets", gets.into()),
        ("len", s.len().map(|n| n as i64).unwrap_or(-1).into()),
        ("height", s.height().map(|n| n as i64).unwrap_or(-1).into()),
        ("check", s.check().is_ok().into()),
        ("gen", ids.id(&s.genesis()).into()),
    ]
}

fn history<H: Entry>(rng: &R, log: &mut Log, path: &std::path::Path, big: bool) {
    let gen = H::genesis(Network::Regtest);
    let mut ids = Ids(vec![]);
    ids.add(gen);
    let mut store = File::create(path, gen).expect("create store");
    let mut prev = vec![gen];
    let mut ev: Vec<(&'static str, J)> = vec![("op", "reset".into()), ("size", H::SIZE.into())];
    ev.extend(look(&store, &ids, rng));
    log.put(J::O(ev));
    let mut torn = false;
    for _ in 0..(4 + rng.u32(..24)) {
        let mut ev: Vec<(&'static str, J)> = vec![];
        let act = rng.u32(..20);
        if torn && act < 13 {
            continue;
        }
        match act {
            0..=5 => {
                let n = if big && rng.bool() { 10 + rng.usize(..30) } else { rng.usize(..5) };
                let mut hs = vec![];
                for _ in 0..n {
                    let h = H::fresh(rng, prev.last().unwrap());
                    prev.push(h);
                    hs.push(h);
                }
                let jids: Vec<i64> = hs.iter().map(|h| ids.add(*h)).collect();
                let r = store.put(hs.into_iter());
                ev.push(("op", "put".into()));
                ev.push(("ids", jids.into()));
                ev.push(("res", r.map(|h| h as i64).unwrap_or(-1).into()));
            }
            6..=8 => {
                let h = if chance(rng, 10) { prev.len() - 1 } else { rng.usize(..prev.len()) };
                let r = store.rollback(h as u64);
                prev.truncate(h + 1);
                ev.push(("op", "rollback".into()));
                ev.push(("h", h.into()));
                ev.push(("res", r.is_ok().into()));
            }
            9 => {
                ev.push(("op", "sync".into()));
                ev.push(("res", store.sync().is_ok().into()));
            }
            10..=12 => {
                // The write is cut short after some bytes: the process dies or the disk is full.
                let n = 1 + rng.usize(..4);
                let mut hs: Vec<H> = vec![];
                for _ in 0..n {
                    let p = *hs.last().unwrap_or(prev.last().unwrap());
                    hs.push(H::fresh(rng, &p));
                }
                let jids: Vec<i64> = hs.iter().map(|h| ids.add(*h)).collect();
                let at = std::fs::metadata(path).expect("meta").len();
                let cut = rng.u64(..(n * H::SIZE) as u64);
                let hs2 = hs.clone();
                let r = with_file_limit(at + cut, || store.put(hs2.into_iter()));
                let len = std::fs::metadata(path).expect("meta").len();
                let whole = ((len - at.min(len)) as usize / H::SIZE).min(n);
                prev.extend(hs[..whole].iter());
                torn = len % H::SIZE as u64 != 0;
                ev.push(("op", "cut".into()));
                ev.push(("ids", jids.into()));
                ev.push(("bytes", (len as i64 - at as i64).into()));
                ev.push(("res", r.is_ok().into()));
            }
            13..=15 => {
                drop(store);
                store = File::open(path, gen).expect("open store");
                ev.push(("op", "reopen".into()));
            }
            16 if !torn => {
                ev.push(("op", "create".into()));
                ev.push(("res", File::create(path, gen).is_ok().into()));
            }
            _ => {
                let r = store.heal();
                torn = false;
                ev.push(("op", "heal".into()));
                ev.push(("res", r.is_ok().into()));
            }
        }
        ev.extend(look(&store, &ids, rng));
        log.put(J::O(ev));
    }
    drop(store);
    let _ = std::fs::remove_file(path);
}

/// The same history on a memory store.
fn memory(rng: &R, log: &mut Log) {
    let gen = BlockHeader::genesis(Network::Regtest);
    let mut ids = Ids(vec![]);
    ids.add(gen);
    let mut store: Memory<BlockHeader> = Memory::genesis(Network::Regtest);
    let mut prev = vec![gen];
    let mut ev: Vec<(&'static str, J)> = vec![("op", "reset".into()), ("size", 80.into())];
    ev.extend(look(&store, &ids, rng));
    log.put(J::O(ev));
    for _ in 0..(3 + rng.u32(..12)) {
        let mut ev: Vec<(&'static str, J)> = vec![];
        if rng.u32(..3) > 0 {
            let mut hs = vec![];
            for _ in 0..rng.usize(..5) {
                let h = BlockHeader::fresh(rng, prev.last().unwrap());
                prev.push(h);
                hs.push(h);
            }
            let jids: Vec<i64> = hs.iter().map(|h| ids.add(*h)).collect();
            let r = store.put(hs.into_iter());
            ev.push(("op", "put".into()));
            ev.push(("ids", jids.into()));
            ev.push(("res", r.map(|h| h as i64).unwrap_or(-1).into()));
        } else {
            let h = rng.usize(..prev.len());
            let r = store.rollback(h as u64);
            prev.truncate(h + 1);
            ev.push(("op", "rollback".into()));
            ev.push(("h", h.into()));
            ev.push(("res", r.is_ok().into()));
        }
        ev.extend(look(&store, &ids, rng));
        log.put(J::O(ev));
    }
}

/// The filter-header cache over a file store: import, rollback, clear, reload, verify.
fn filters(rng: &R, log: &mut Log, path: &std::path::Path) {
    let gen = StoredHeader::genesis(Network::Regtest);
    let mut ids = Ids(vec![]);
    ids.add(gen);
    let mut fc = FilterCache::load(File::create(path, gen).expect("create")).expect("load");
    let mut prev = vec![gen];
    let view = |fc: &FilterCache<File<StoredHeader>>, ids: &Ids<StoredHeader>, rng: &R| -> Vec<(&'static str, J)> {
        let top = fc.height();
        let id = |p: (FilterHash, FilterHeader)| ids.id(&StoredHeader { hash: p.0, header: p.1 });
        let iter: Vec<J> = (0..=top).map(|h| J::from((h, fc.get_header(h).map(id).unwrap_or(-1)))).collect();
        let tip = fc.tip();
        let (a, b) = {
            let a = rng.u64(..=top);
            (a, a + rng.u64(..top + 3 - a))
        };
        let range: Vec<i64> = fc.get_headers(a..=b).into_iter().map(id).collect();
        let p = rng.u64(..=top + 1);
        let ph = fc.get_prev_header(p).map(|h| if h == FilterHeader::all_zeros() { -2 } else { ids.0.iter().position(|(_, s)| s.header == h).map(|i| i as i64).unwrap_or(-1) }).unwrap_or(-3);
        vec![
            ("iter", iter.into()),
            ("height", top.into()),
            ("tip", id((*tip.0, *tip.1)).into()),
            ("past", fc.get_header(top + 1).is_some().into()),
            ("range", J::from(vec![J::from(a), J::from(b), J::from(range)])),
            ("prev", J::from((p, ph))),
            ("ver", fc.verify(Network::Regtest).is_ok().into()),
        ]
    };
    let mut ev: Vec<(&'static str, J)> = vec![("op", "freset".into())];
    ev.extend(view(&fc, &ids, rng));
    log.put(J::O(ev));
    let mut linked = true;
    for _ in 0..(3 + rng.u32(..14)) {
        let mut ev: Vec<(&'static str, J)> = vec![];
        match rng.u32(..8) {
            0..=3 => {
                let mut hs = vec![];
                for _ in 0..rng.usize(..6) {
                    let mut h = StoredHeader::fresh(rng, prev.last().unwrap());
                    if chance(rng, 2) {
                        h.header = FilterHeader::from_inner(arr(rng));
                        linked = false;
                    }
                    prev.push(h);
                    hs.push(h);
                }
                let jids: Vec<i64> = hs.iter().map(|h| ids.add(*h)).collect();
                let r = fc.import_headers(hs.iter().map(|h| (h.hash, h.header)).collect());
                ev.push(("op", "fimport".into()));
                ev.push(("ids", jids.into()));
                ev.push(("res", r.map(|h| h as i64).unwrap_or(-1).into()));
            }
            4..=5 => {
                let h = rng.usize(..prev.len());
                let r = fc.rollback(h as u64);
                prev.truncate(h + 1);
                ev.push(("op", "frollback".into()));
                ev.push(("h", h.into()));
                ev.push(("res", r.is_ok().into()));
            }
            6 if chance(rng, 30) => {
                let r = fc.clear();
                prev.truncate(1);
                ev.push(("op", "frollback".into()));
                ev.push(("h", 0.into()));
                ev.push(("res", r.is_ok().into()));
            }
            _ => {
                drop(fc);
                fc = FilterCache::load(File::open(path, gen).expect("open")).expect("load");
                ev.push(("op", "freload".into()));
            }
        }
        let _ = linked;
        ev.push(("linked", (1..prev.len()).all(|i| prev[i].header == prev[i].hash.filter_header(&prev[i - 1].header)).into()));
        ev.extend(view(&fc, &ids, rng));
        log.put(J::O(ev));
    }
    // A store for another network is refused.
    let other = StoredHeader::genesis(Network::Mainnet);
    drop(fc);
    if prev.len() > 1 {
        let fc = FilterCache::load(File::open(path, other).expect("open")).expect("load");
        log.put(obj! {"op":"fother","ver":fc.verify(Network::Regtest).is_ok() || fc.verify(Network::Mainnet).is_ok()});
    }
    let _ = std::fs::remove_file(path);
}

/// A header store whose headers do not follow the network's genesis is refused at load.
fn mismatch(rng: &R, log: &mut Log, path: &std::path::Path) {
    use nakamoto_chain::block::cache::BlockCache;
    let nets = [Network::Mainnet, Network::Testnet, Network::Regtest, Network::Signet];
    let (a, b) = (*pick(rng, &nets), *pick(rng, &nets));
    let n = rng.usize(..4);
    {
        let mut s = File::create(path, a.genesis()).expect("create");
        let mut p = a.genesis();
        for _ in 0..n {
            p = BlockHeader::fresh(rng, &p);
            p.bits = 0x207fffff;
            s.put(std::iter::once(p)).expect("put");
        }
    }
    let r = BlockCache::from(File::open(path, b.genesis()).expect("open"), b.params(), &[]);
    log.put(obj! {"op":"mismatch","same":a.genesis_hash() == b.genesis_hash(),"n":n,"ok":r.is_ok()});
    let _ = BlockHash::all_zeros();
    let _ = std::fs::remove_file(path);
}

pub fn main(a: &[String]) {
    let (rng, runs, mut log) = args(a);
    let dir = Scratch::new("store");
    for run in 0..runs {
        let path = dir.0.join(format!("s{}.db", run));
        match rng.u32(..10) {
            0..=3 => history::<BlockHeader>(&rng, &mut log, &path, chance(&rng, 30)),
            4..=5 => history::<StoredHeader>(&rng, &mut log, &path, chance(&rng, 30)),
            6 => memory(&rng, &mut log),
            7..=8 => filters(&rng, &mut log, &path),
            _ => mismatch(&rng, &mut log, &path),
        }
    }
    log.finish();
}

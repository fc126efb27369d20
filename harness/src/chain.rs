//! Driver for the block-header tree (BlockCache): C01, C02, C03 (cache level), C13 (cache level), C04 (restart).
use std::collections::{BTreeMap, HashMap};

use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::{self as bstore, Memory};
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{Network as BtcNet, TxMerkleNode};
use nakamoto_common::block::store::Store;
use nakamoto_common::block::time::{AdjustedTime, Clock, LocalTime};
use nakamoto_common::block::tree::{BlockReader, BlockTree, Error, ImportResult};
use nakamoto_common::block::{BlockHash, BlockHeader};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;

use crate::obj;
use crate::util::*;

pub const GENESIS_TIME: u32 = 1_300_000_000;
pub const LIMIT_REGTEST: u32 = 0x207fffff;

/// Target in units of 2^224 (exact for the exponents 0x1f and 0x20 used here).
pub fn units(bits: u32) -> i64 {
    let m = (bits & 0xffffff) as i64;
    match bits >> 24 {
        0x20 => m * 256,
        0x1f => m,
        _ => m / 256,
    }
}
pub fn bits_of_units(u: i64) -> u32 {
    if u > 0x7fffff {
        0x20000000 | (u / 256) as u32
    } else {
        0x1f000000 | u as u32
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kind: u32,
    pub main: bool,
    pub mindiff: bool,
    pub noret: bool,
    pub spacing: u32,
    pub interval: u32,
    pub limit: u32, // compact
    pub gbits: u32,
}
impl Cfg {
    pub fn params(&self) -> Params {
        let mut p = Params::new(if self.main { BtcNet::Bitcoin } else { BtcNet::Regtest });
        p.allow_min_difficulty_blocks = self.mindiff;
        p.no_pow_retargeting = self.noret;
        p.pow_target_spacing = self.spacing as u64;
        p.pow_target_timespan = (self.spacing * self.interval) as u64;
        p.pow_limit = BlockHeader::u256_from_compact_target(self.limit);
        p
    }
    /// 0: mainnet rules, retarget; 1: plain regtest; 2: regtest, min-diff, custom genesis bits;
    /// 3: regtest, min-diff and retarget; 4: like 0 with regtest tie-break.
    pub fn new(kind: u32, rng: &fastrand::Rng) -> Cfg {
        let interval = *pick(rng, &[2u32, 3, 4, 4]);
        match kind {
            0 | 4 => Cfg { kind, main: kind == 0, mindiff: false, noret: false, spacing: 10, interval, limit: 0x1f7fffff, gbits: 0x1f3fffff },
            1 => Cfg { kind, main: false, mindiff: true, noret: true, spacing: 600, interval: 2016, limit: LIMIT_REGTEST, gbits: LIMIT_REGTEST },
            2 => Cfg { kind, main: false, mindiff: true, noret: true, spacing: 10, interval: *pick(rng, &[2u32, 3, 4, 5, 40]), limit: LIMIT_REGTEST, gbits: 0x1f3fffff },
            3 => Cfg { kind, main: false, mindiff: true, noret: false, spacing: 10, interval, limit: LIMIT_REGTEST, gbits: 0x1f3fffff },
            5 => Cfg { kind, main: true, mindiff: false, noret: true, spacing: 10, interval: 2016, limit: LIMIT_REGTEST, gbits: LIMIT_REGTEST },
            _ => unreachable!(),
        }
    }
}

pub struct Node {
    pub header: BlockHeader,
    pub parent: i64, // 0 genesis, -1 unknown
    pub height: i64,
    pub good: bool,
}
pub struct World {
    pub cfg: Cfg,
    pub genesis: BlockHeader,
    pub nodes: Vec<Node>, // id = index + 1
    pub ids: HashMap<BlockHash, i64>,
    pub cps: BTreeMap<u64, BlockHash>,
}

pub fn mine(mut h: BlockHeader, good: bool, rng: &fastrand::Rng) -> BlockHeader {
    h.nonce = rng.u32(..);
    let target = BlockHeader::u256_from_compact_target(h.bits);
    loop {
        let ok = Uint256::from_be_bytes({
            let mut b = h.block_hash().into_inner();
            b.reverse();
            b
        }) <= target;
        if ok == good {
            return h;
        }
        h.nonce = h.nonce.wrapping_add(1);
    }
}
pub fn root(rng: &fastrand::Rng) -> TxMerkleNode {
    let mut b = [0u8; 32];
    for x in b.iter_mut() {
        *x = rng.u8(..);
    }
    TxMerkleNode::from_inner(b)
}

impl World {
    pub fn new(cfg: Cfg, rng: &fastrand::Rng) -> World {
        let genesis = if cfg.kind == 1 {
            Network::Regtest.genesis()
        } else {
            mine(
                BlockHeader { version: 1, prev_blockhash: BlockHash::all_zeros(), merkle_root: root(rng), time: GENESIS_TIME, bits: cfg.gbits, nonce: 0 },
                true,
                rng,
            )
        };
        let mut ids = HashMap::new();
        ids.insert(genesis.block_hash(), 0);
        World { cfg, genesis, nodes: vec![], ids, cps: BTreeMap::new() }
    }
    pub fn hdr(&self, id: i64) -> &BlockHeader {
        if id == 0 {
            &self.genesis
        } else {
            &self.nodes[id as usize - 1].header
        }
    }
    pub fn height(&self, id: i64) -> i64 {
        if id == 0 {
            0
        } else {
            self.nodes[id as usize - 1].height
        }
    }
    pub fn par(&self, id: i64) -> i64 {
        if id == 0 {
            -1
        } else {
            self.nodes[id as usize - 1].parent
        }
    }
    /// Ancestors of `id` including itself, newest first.
    pub fn path(&self, id: i64) -> Vec<i64> {
        let mut v = vec![id];
        let mut c = id;
        while c > 0 {
            c = self.par(c);
            if c < 0 {
                break;
            }
            v.push(c);
        }
        v
    }
    pub fn mtp(&self, parent: i64) -> u32 {
        let mut t: Vec<u32> = self.path(parent).iter().take(11).map(|i| self.hdr(*i).time).collect();
        t.sort();
        t[t.len() / 2]
    }
    /// The generator's own idea of the next target (only used to aim; the specification judges).
    pub fn expected_bits(&self, parent: i64, time: u32) -> Option<u32> {
        let c = &self.cfg;
        let h = self.height(parent) as u32;
        let p = self.hdr(parent);
        let path = self.path(parent);
        if c.mindiff && (h + 1) % c.interval != 0 {
            if time > p.time + 2 * c.spacing {
                return Some(LIMIT_REGTEST);
            }
            for i in path {
                let b = self.hdr(i).bits;
                if b != LIMIT_REGTEST || self.height(i) as u32 % c.interval == 0 {
                    return Some(b);
                }
            }
            return Some(LIMIT_REGTEST);
        }
        if (h + 1) % c.interval != 0 {
            return Some(p.bits);
        }
        let first = self.hdr(*path.get(c.interval as usize - 1).unwrap_or(&0));
        if c.noret {
            return Some(first.bits);
        }
        let span = (c.spacing * c.interval) as i64;
        let actual = (p.time as i64 - first.time as i64).clamp(span / 4, span * 4);
        let u = units(p.bits);
        if u > 0x7fffff {
            return None; // would overflow 256 bits in the real arithmetic
        }
        let n = (u * actual / span).min(units(c.limit));
        if n < 0x80000 {
            return None;
        }
        Some(bits_of_units(if n > 0x7fffff { n / 256 * 256 } else { n }))
    }
    pub fn add(&mut self, parent: i64, header: BlockHeader, good: bool) -> i64 {
        let id = self.nodes.len() as i64 + 1;
        let height = if parent < 0 { 0 } else { self.height(parent) + 1 };
        self.ids.insert(header.block_hash(), id);
        self.nodes.push(Node { header, parent, height, good });
        id
    }
    pub fn id(&self, h: &BlockHash) -> i64 {
        self.ids.get(h).copied().unwrap_or(-2)
    }
    pub fn rel(&self, t: u32) -> i64 {
        t as i64 - self.genesis.time as i64
    }
    pub fn to_json(&self) -> J {
        let n = self.nodes.len();
        let mut order: Vec<i64> = (0..=n as i64).collect();
        order.sort_by_key(|i| self.hdr(*i).block_hash());
        let mut rank = vec![0i64; n + 1];
        for (r, i) in order.iter().enumerate() {
            rank[*i as usize] = r as i64;
        }
        let c = &self.cfg;
        let powok = |h: &BlockHeader| h.validate_pow(&h.target()).is_ok();
        let work = |h: &BlockHeader| h.work().low_u64() as i64;
        obj! {
            "op": "world", "main": c.main, "mindiff": c.mindiff, "noret": c.noret,
            "spacing": c.spacing, "interval": c.interval, "limit": units(c.limit), "limbits": units(if c.main { c.limit } else { LIMIT_REGTEST }),
            "n": n, "gbits": units(self.genesis.bits), "gwork": work(&self.genesis), "grank": rank[0],
            "par": self.nodes.iter().map(|x| x.parent).collect::<Vec<_>>(),
            "tm": self.nodes.iter().map(|x| self.rel(x.header.time)).collect::<Vec<_>>(),
            "bits": self.nodes.iter().map(|x| units(x.header.bits)).collect::<Vec<_>>(),
            "pow": self.nodes.iter().map(|x| powok(&x.header)).collect::<Vec<_>>(),
            "work": self.nodes.iter().map(|x| work(&x.header)).collect::<Vec<_>>(),
            "rank": rank[1..].to_vec(),
            "cp": self.cps.iter().map(|(h, b)| (*h, self.id(b))).collect::<Vec<_>>(),
        }
    }
}

/// Random world.
pub fn random_world(rng: &fastrand::Rng) -> World {
    let kind = *pick(rng, &[0u32, 0, 1, 1, 2, 2, 3, 4, 5]);
    let cfg = Cfg::new(kind, rng);
    let mut w = World::new(cfg, rng);
    let n = if chance(rng, 25) { rng.usize(24..40) } else { rng.usize(4..22) };
    let bushy = *pick(rng, &[5u32, 15, 40, 70]);
    let badness = *pick(rng, &[0u32, 0, 8, 25]);
    let mut tip = 0i64;
    for _ in 0..n {
        let parent = if chance(rng, bushy) {
            // Fork off somewhere, recent blocks favoured.
            let len = w.nodes.len() as i64;
            if chance(rng, 50) {
                rng.i64(0..=len)
            } else {
                (len - rng.i64(0..6)).max(0)
            }
        } else {
            tip
        };
        let parent = if w.par(parent) < 0 && parent != 0 { 0 } else { parent };
        let pt = w.hdr(parent).time;
        let mtp = w.mtp(parent);
        let sp = w.cfg.spacing;
        let mut time = match rng.u32(..10) {
            0 => mtp + 1,
            1 => mtp + 2,
            2 => pt + 2 * sp,
            3 => pt + 2 * sp + 1,
            4 => pt.saturating_sub(rng.u32(..2 * sp)).max(mtp + 1),
            5 => pt + rng.u32(0..6 * sp),
            6 => pt + rng.u32(0..sp / 2 + 1) + 1,
            7 if chance(rng, 20) => pt + 7200 + rng.u32(..3),
            _ => pt + sp,
        }
        .max(mtp + 1);
        let mut good = true;
        let bad = chance(rng, badness);
        let sort = rng.u32(..7);
        if bad && sort <= 1 {
            time = if sort == 0 { mtp } else { mtp - rng.u32(..20).min(mtp - 1) };
            good = false;
        }
        let Some(mut bits) = w.expected_bits(parent, time) else { continue };
        if bad && (2..=4).contains(&sort) {
            let m = bits & 0xffffff;
            bits = match rng.u32(..4) {
                0 => (bits & 0xff000000) | (m - 1),
                1 => (bits & 0xff000000) | (m / 2).max(0x10000),
                2 => w.cfg.limit,
                _ => {
                    if m < 0x7fffff {
                        bits + 1
                    } else {
                        0x20010000
                    }
                }
            };
            good = false;
        }
        let powbad = bad && sort >= 5;
        if powbad {
            good = false;
        }
        let h = mine(
            BlockHeader { version: 1, prev_blockhash: w.hdr(parent).block_hash(), merkle_root: root(rng), time, bits, nonce: 0 },
            !powbad,
            rng,
        );
        let id = w.add(parent, h, good);
        // Sometimes build on invalid headers.
        if good || chance(rng, 30) {
            if parent == tip || chance(rng, 60) {
                tip = id;
            }
        }
    }
    if w.nodes.is_empty() {
        return random_world(rng);
    }
    if chance(rng, 10) {
        // A header with an unknown parent and a child of it.
        let mut b = [7u8; 32];
        b[0] = rng.u8(..);
        let h = mine(
            BlockHeader { version: 1, prev_blockhash: BlockHash::from_inner(b), merkle_root: root(rng), time: w.genesis.time + 10, bits: w.cfg.gbits, nonce: 0 },
            true,
            rng,
        );
        let id = w.add(-1, h, true);
        let h = mine(BlockHeader { version: 1, prev_blockhash: h.block_hash(), merkle_root: root(rng), time: w.genesis.time + 20, bits: w.cfg.gbits, nonce: 0 }, true, rng);
        w.add(id, h, true);
        let l = w.nodes.len();
        w.nodes[l - 1].height = 0;
    }
    if chance(rng, 35) {
        for _ in 0..rng.usize(1..3) {
            let id = rng.i64(1..=w.nodes.len() as i64);
            if w.path(id).last() == Some(&0) {
                w.cps.insert(w.height(id) as u64, w.hdr(id).block_hash());
            }
        }
    }
    w
}

/// World from a schedule generated by the specification: `par|work class|defect`.
fn spec_world(line: &str, kind: u32, rng: &fastrand::Rng) -> (World, Vec<Vec<i64>>) {
    let f: Vec<Vec<i64>> = line.split('|').take(3).map(|s| s.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
    let mut w = World::new(Cfg::new(kind, rng), rng);
    for i in 0..f[0].len() {
        let (parent, wk, bad) = (f[0][i], f[1][i], f[2][i]);
        let pt = w.hdr(parent).time;
        // Under minimum-difficulty rules the time gap selects the work of the block.
        let time = if wk <= 1 { pt + 21 } else { pt + 5 };
        let mtp = w.mtp(parent);
        let time = if bad == 1 { mtp } else { time.max(mtp + 1) };
        let bits = w.expected_bits(parent, time).unwrap();
        let h = mine(BlockHeader { version: 1, prev_blockhash: w.hdr(parent).block_hash(), merkle_root: root(rng), time, bits, nonce: 0 }, bad != 2, rng);
        w.add(parent, h, bad == 0);
    }
    let batches = line
        .split('|')
        .nth(3)
        .unwrap()
        .split(';')
        .map(|s| s.split_whitespace().map(|x| x.parse().unwrap()).collect())
        .collect();
    (w, batches)
}

enum AnyStore {
    Mem(BlockCache<Memory<BlockHeader>>),
    File(BlockCache<bstore::File<BlockHeader>>, std::path::PathBuf),
}
macro_rules! with {
    ($s:expr, $c:ident => $e:expr) => {
        match $s {
            AnyStore::Mem($c) => $e,
            AnyStore::File($c, _) => $e,
        }
    };
}

fn pairs(w: &World, v: impl Iterator<Item = (u64, BlockHeader)>) -> J {
    J::A(v.map(|(h, b)| (h, w.id(&b.block_hash())).into()).collect())
}

/// Everything a user can read back from the tree.
pub fn observe<T: BlockReader>(w: &World, t: &T, rng: &fastrand::Rng, out: &mut Vec<(&'static str, J)>) {
    let n = w.nodes.len() as i64;
    let chain: Vec<(i64, i64)> = t.iter().map(|(h, b)| (h as i64, w.id(&b.block_hash()))).collect();
    let heights_ok = chain.iter().enumerate().all(|(i, (h, _))| i as i64 == *h);
    let (tip, tiph) = t.tip();
    let (bh, bhdr) = t.best_block();
    out.push(("chain", chain.iter().map(|c| c.1).collect::<Vec<_>>().into()));
    out.push(("hok", (heights_ok && tiph.block_hash() == tip && bh == t.height() && bhdr.block_hash() == tip && t.genesis().block_hash() == w.genesis.block_hash()).into()));
    out.push(("otip", w.id(&tip).into()));
    out.push(("oht", t.height().into()));
    out.push(("owork", (t.chain_work().low_u64() as i64).into()));
    let mut gb = vec![];
    let mut kn = vec![];
    let mut ct = vec![];
    for id in 1..=n {
        let hash = w.hdr(id).block_hash();
        gb.push(match t.get_block(&hash) {
            Some((h, b)) if b.block_hash() == hash => h as i64,
            Some(_) => -3,
            None => -1,
        });
        kn.push(t.is_known(&hash));
        ct.push(t.contains(&hash));
    }
    out.push(("gb", gb.into()));
    out.push(("kn", kn.into()));
    out.push(("ct", ct.into()));
    let mut bad = 0;
    for (h, id) in &chain {
        if t.get_block_by_height(*h as u64).map(|b| w.id(&b.block_hash())) != Some(*id) {
            bad += 1;
        }
    }
    if t.get_block_by_height(chain.len() as u64).is_some() {
        bad += 1;
    }
    out.push(("byh", bad.into()));
    // A range.
    let (a, b) = {
        let x = rng.u64(0..=chain.len() as u64);
        let y = rng.u64(x..=chain.len() as u64 + 1);
        (x, y)
    };
    out.push(("rg", J::A(vec![a.into(), b.into(), J::A(t.range(a..b).map(|(h, x)| (h, w.id(&x)).into()).collect())])));
    // A branch.
    let id = rng.i64(0..=n);
    out.push((
        "fb",
        match t.find_branch(&w.hdr(id).block_hash()) {
            Some((h, v)) => J::A(vec![id.into(), h.into(), v.iter().map(|x| w.id(&x.block_hash())).collect::<Vec<_>>().into()]),
            None => J::A(vec![id.into(), (-1i64).into(), J::A(vec![])]),
        },
    ));
    // Locators (C13).
    let from = rng.u64(0..=t.height());
    out.push(("loc", J::A(vec![from.into(), t.locator_hashes(from).iter().map(|h| w.id(h)).collect::<Vec<_>>().into()])));
    let mut ls: Vec<i64> = vec![];
    for _ in 0..*pick(rng, &[0usize, 1, 1, 2, 3]) {
        ls.push(if chance(rng, 50) { rng.i64(0..=n) } else { chain[rng.usize(..chain.len())].1 });
    }
    if chance(rng, 60) {
        ls.sort_by_key(|i| -w.height(*i));
    }
    let stop = match rng.u32(..4) {
        0 => -1,
        1 => rng.i64(0..=n),
        _ => chain[rng.usize(..chain.len())].1,
    };
    let max = *pick(rng, &[1usize, 2, 3, 5, 2000]);
    let lh: Vec<BlockHash> = ls.iter().map(|i| w.hdr(*i).block_hash()).collect();
    let sh = if stop < 0 { BlockHash::all_zeros() } else { w.hdr(stop).block_hash() };
    let res: Vec<i64> = t.locate_headers(&lh, sh, max).iter().map(|h| w.id(&h.block_hash())).collect();
    out.push(("lh", J::A(vec![ls.into(), stop.into(), max.into(), res.into()])));
    out.push(("lcp", t.last_checkpoint().into()));
}

fn result_fields(w: &World, r: &Result<ImportResult, Error>, out: &mut Vec<(&'static str, J)>) {
    match r {
        Ok(ImportResult::TipChanged { header, hash, height, reverted, connected }) => {
            out.push(("res", "changed".into()));
            out.push(("tip", w.id(hash).into()));
            out.push(("tiphdr", w.id(&header.block_hash()).into()));
            out.push(("ht", (*height).into()));
            out.push(("rev", pairs(w, reverted.iter().cloned())));
            out.push(("con", pairs(w, connected.iter().cloned())));
        }
        Ok(ImportResult::TipUnchanged) => out.push(("res", "unchanged".into())),
        Err(e) => {
            out.push(("res", "error".into()));
            let (at, inner) = match e {
                Error::BlockImportAborted(i, at, _, _) => (*at as i64, i.to_string()),
                e => (0, e.to_string()),
            };
            out.push(("at", at.into()));
            out.push(("err", inner.into()));
        }
    }
}

fn run_one(w: &World, batches: Option<Vec<Vec<i64>>>, scratch: &Scratch, rng: &fastrand::Rng, log: &mut Log, run: u64) {
    let file = w.cfg.kind == 1 && batches.is_none() && chance(rng, 60);
    let cps: Vec<(u64, BlockHash)> = w.cps.iter().map(|(h, b)| (*h, *b)).collect();
    let path = scratch.0.join(format!("h{}.db", run));
    let mut t = if file {
        let store = bstore::File::create(&path, w.genesis).expect("store");
        AnyStore::File(BlockCache::from(store, w.cfg.params(), &cps).expect("cache"), path.clone())
    } else {
        AnyStore::Mem(BlockCache::from(Memory::new(NonEmpty::new(w.genesis)), w.cfg.params(), &cps).expect("cache"))
    };
    log.put(w.to_json());
    let n = w.nodes.len() as i64;
    // Delivery order.
    let batches = batches.unwrap_or_else(|| {
        let mut order: Vec<i64> = (1..=n).collect();
        for _ in 0..*pick(rng, &[0usize, 0, 2, 6, 40]) {
            let i = rng.usize(..order.len());
            let j = if chance(rng, 60) { (i + rng.usize(..4)).min(order.len() - 1) } else { rng.usize(..order.len()) };
            order.swap(i, j);
        }
        for _ in 0..rng.usize(..4) {
            let i = rng.usize(..order.len());
            let d = rng.i64(1..=n);
            order.insert(i, d);
        }
        let mut bs = vec![];
        let max = *pick(rng, &[1usize, 1, 2, 5, 12, 40]);
        while !order.is_empty() {
            let k = rng.usize(1..=max).min(order.len());
            bs.push(order.drain(..k).collect::<Vec<_>>());
        }
        // Redeliver at the end: nothing may be lost.
        if chance(rng, 30) {
            bs.push((1..=n).collect());
        }
        bs
    });
    let times: Vec<u32> = (1..=n).map(|i| w.hdr(i).time).collect();
    let maxt = *times.iter().max().unwrap();
    let tight = chance(rng, 25);
    let mut now = if tight { w.genesis.time } else { maxt + rng.u32(..100) };
    for b in batches {
        if tight {
            // Put "now" so that the future limit falls near some header's time.
            let t = *pick(rng, &times);
            let lim = t - 7200;
            now = match rng.u32(..4) {
                0 => lim - 1,
                1 => lim,
                2 => lim + 1,
                _ => maxt,
            };
        }
        let mut clock = AdjustedTime::<std::net::SocketAddr>::default();
        clock.set_local_time(LocalTime::from_block_time(now));
        let headers: Vec<BlockHeader> = b.iter().map(|i| *w.hdr(*i)).collect();
        let extend = b.len() == 1 && chance(rng, 25);
        let mut o: Vec<(&'static str, J)> = vec![
            ("op", if extend { "extend" } else { "import" }.into()),
            ("b", b.clone().into()),
            ("now", w.rel(now).into()),
        ];
        let r = guard(|| {
            with!(&mut t, c => if extend { c.extend_tip(headers[0], &clock) } else { c.import_blocks(headers.into_iter(), &clock) })
        });
        match r {
            Err(p) => {
                log.put(obj! {"op": "panic", "msg": p, "b": b, "now": w.rel(now)});
                return;
            }
            Ok(r) => {
                result_fields(w, &r, &mut o);
                match guard(|| {
                    let mut x = vec![];
                    with!(&t, c => observe(w, c, rng, &mut x));
                    x
                }) {
                    Ok(x) => o.extend(x),
                    Err(p) => {
                        log.put(obj! {"op": "panic", "msg": p, "b": b, "now": w.rel(now)});
                        return;
                    }
                }
                log.put(J::O(o));
            }
        }
        if file && chance(rng, 20) {
            let r = guard(|| {
                let store = bstore::File::open(&path, w.genesis).expect("reopen");
                let stored: Vec<i64> = store.iter().map(|r| r.map(|(_, h)| w.id(&h.block_hash())).unwrap_or(-9)).collect();
                (stored, BlockCache::from(store, w.cfg.params(), &cps).map_err(|e| e.to_string()))
            });
            match r {
                Ok((stored, Ok(c))) => {
                    let mut o: Vec<(&'static str, J)> = vec![("op", "reopen".into()), ("stored", stored.into())];
                    t = AnyStore::File(c, path.clone());
                    with!(&t, c => observe(w, c, rng, &mut o));
                    log.put(J::O(o));
                }
                Ok((_, Err(e))) => {
                    log.put(obj! {"op": "panic", "msg": format!("reopen failed: {}", e), "b": Vec::<i64>::new(), "now": 0});
                    return;
                }
                Err(p) => {
                    log.put(obj! {"op": "panic", "msg": p, "b": Vec::<i64>::new(), "now": 0});
                    return;
                }
            }
        }
    }
    drop(t);
    let _ = std::fs::remove_file(&path);
}

pub fn main(args: &[String]) {
    let seed = num(args, "--seed", 1);
    let runs = num(args, "--runs", 10);
    let mut log = Log::create(&flag(args, "--out").expect("--out"));
    let scratch = Scratch::new(&format!("chain{}", seed));
    if let Some(f) = flag(args, "--schedules") {
        let rng = fastrand::Rng::with_seed(seed);
        for (i, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let kind = 2;
            let (mut w, b) = spec_world(line, kind, &rng);
            w.cfg.interval = 40;
            run_one(&w, Some(b), &scratch, &rng, &mut log, i as u64);
        }
    } else {
        for i in 0..runs {
            let rng = fastrand::Rng::with_seed(seed.wrapping_mul(1_000_003).wrapping_add(i));
            let w = random_world(&rng);
            run_one(&w, None, &scratch, &rng, &mut log, i);
        }
    }
    eprintln!("{} lines", log.lines);
    log.finish();
}

//! Header sync, filters, scans, blocks and transactions: C05-C09, C23, and C03, C13, C21 at the node.
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::ops::Bound;

use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, CFilter, GetCFHeaders};
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::bitcoin::{Block, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxOut, Txid, Witness, Wtxid};
use nakamoto_common::block::filter::{BlockFilter, FilterHash, FilterHeader, Filters};
use nakamoto_common::block::store::{Genesis, Store};
use nakamoto_common::block::time::{Clock, LocalDuration, LocalTime};
use nakamoto_common::block::tree::ImportResult;
use nakamoto_common::block::{BlockHash, BlockHeader};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_net::Link;
use nakamoto_p2p::fsm::event::TxStatus;
use nakamoto_p2p::{fsm, Command, Config, Event};

use crate::chain::mine;
use crate::net::{reason, svc};
use crate::node::*;
use crate::util::*;

const NET: ServiceFlags = ServiceFlags::NETWORK;
const CF: ServiceFlags = ServiceFlags::COMPACT_FILTERS;
/// Script numbers used; those up to WATCH may be watched.
const SCRIPTS: u8 = 20;
const WATCH: u8 = 8;

fn script(k: u8) -> Script {
    let mut v = vec![0x00, 0x14];
    v.extend([k + 1; 20]);
    Script::from(v)
}

#[derive(Clone)]
struct Tx {
    full: Transaction,
    bare: Transaction,
    /// Inputs as (transaction, output).
    ins: Vec<(i64, u32)>,
    cb: bool,
}

/// The blocks, transactions and filters of a world.
struct Universe {
    blocks: Vec<Block>,
    par: Vec<i64>,
    height: Vec<usize>,
    val: Vec<bool>,
    pre: Vec<bool>,
    txs: BTreeMap<i64, Tx>,
    inc: Vec<Vec<i64>>,
    /// Filters: of the blocks, then false ones.
    filters: Vec<Vec<u8>>,
    scr: Vec<Vec<u8>>,
    lies: BTreeMap<usize, Vec<usize>>,
    ids: BTreeMap<BlockHash, i64>,
    txids: BTreeMap<Txid, i64>,
    wtxids: BTreeMap<Wtxid, i64>,
    fids: BTreeMap<FilterHash, i64>,
    hids: BTreeMap<FilterHeader, i64>,
    /// The best chains of the network, in time.
    stages: Vec<usize>,
    user: i64,
}

impl Universe {
    fn path(&self, b: usize) -> Vec<usize> {
        let mut v = vec![b];
        while self.par[*v.last().unwrap()] >= 0 {
            v.push(self.par[*v.last().unwrap()] as usize);
        }
        v.reverse();
        v
    }
    fn hash(&self, b: usize) -> BlockHash {
        self.blocks[b].block_hash()
    }
    fn id(&self, h: &BlockHash) -> i64 {
        if *h == BlockHash::all_zeros() {
            -2
        } else {
            *self.ids.get(h).unwrap_or(&-1)
        }
    }
    fn fid(&mut self, h: &FilterHash) -> i64 {
        let n = 10000 + self.fids.len() as i64;
        *self.fids.entry(*h).or_insert(n)
    }
    fn hid(&mut self, h: &FilterHeader) -> i64 {
        let n = self.hids.len() as i64;
        *self.hids.entry(*h).or_insert(n)
    }
    fn fhash(&self, f: usize) -> FilterHash {
        FilterHash::hash(&self.filters[f])
    }
    /// The filter headers of a chain, given which filter is claimed for each block.
    fn fheaders(&self, path: &[usize], claim: &dyn Fn(usize) -> usize) -> Vec<(FilterHash, FilterHeader)> {
        let g = StoredHeader::genesis(Network::Regtest);
        let mut v = vec![(g.hash, g.header)];
        for b in &path[1..] {
            let h = self.fhash(claim(*b));
            v.push((h, h.filter_header(&v.last().unwrap().1)));
        }
        v
    }
    fn scripts(&self, f: &[u8], b: usize) -> Vec<u8> {
        let flt = BlockFilter::new(f);
        let hash = self.hash(b);
        (0..SCRIPTS).filter(|k| flt.match_any(&hash, &mut std::iter::once(script(*k).as_bytes())).unwrap_or(false)).collect()
    }

    fn tx(&mut self, id: i64, ins: Vec<((i64, u32), OutPoint)>, outs: Vec<(u64, u8)>, wit: bool, cb: bool) {
        let full = Transaction {
            version: 2,
            lock_time: PackedLockTime(0),
            input: ins
                .iter()
                .map(|(_, o)| TxIn {
                    previous_output: *o,
                    script_sig: if cb { Script::from(vec![4, id as u8, (id >> 8) as u8, 0, 0]) } else { Script::from(vec![1, id as u8]) },
                    sequence: Sequence::MAX,
                    witness: if wit { Witness::from_vec(vec![vec![7; 20], vec![id as u8; 33]]) } else { Witness::new() },
                })
                .collect(),
            output: outs.iter().map(|(v, k)| TxOut { value: *v, script_pubkey: script(*k) }).collect(),
        };
        let mut bare = full.clone();
        for i in bare.input.iter_mut() {
            i.witness = Witness::new();
        }
        self.txids.insert(full.txid(), id);
        self.wtxids.insert(full.wtxid(), id);
        self.txs.insert(id, Tx { full, bare, ins: ins.into_iter().map(|i| i.0).collect(), cb });
    }

    fn outpoint(&self, t: i64, n: u32) -> OutPoint {
        OutPoint { txid: self.txs[&t].full.txid(), vout: n }
    }

    /// A transaction spending some of the given outputs.
    fn user_tx(&mut self, r: &fastrand::Rng, avail: &mut Vec<(i64, u32)>) -> i64 {
        self.user += 1;
        let id = self.user;
        let mut ins = vec![];
        let mut budget = 0;
        for k in 0..(1 + r.usize(..2)) {
            if !avail.is_empty() && chance(r, 80) {
                let (t, n) = avail.swap_remove(r.usize(..avail.len()));
                budget += self.txs[&t].full.output[n as usize].value;
                ins.push(((t, n), self.outpoint(t, n)));
            } else {
                let b: Vec<u8> = (0..32).map(|_| r.u8(..)).collect();
                ins.push(((-id * 10 - k as i64, 0), OutPoint { txid: Txid::from_slice(&b).unwrap(), vout: 0 }));
                budget += 100_000;
            }
        }
        let fee = r.u64(..20_000.min(budget / 2));
        let n = 1 + r.u64(..3);
        let outs = (0..n).map(|_| ((budget - fee) / n, r.u8(..SCRIPTS))).collect();
        self.tx(id, ins, outs, chance(r, 40), false);
        id
    }

    fn add(&mut self, par: usize, kind: u32, r: &fastrand::Rng) -> usize {
        let id = self.blocks.len();
        let height = self.height[par] + 1;
        // What is on this chain already, and what can be spent.
        let path = self.path(par);
        let on: BTreeSet<i64> = path.iter().flat_map(|b| self.inc[*b].iter().copied()).collect();
        let mut spent: BTreeSet<(i64, u32)> = on.iter().flat_map(|t| self.txs[t].ins.iter().copied()).collect();
        let mut avail: Vec<(i64, u32)> = on
            .iter()
            .flat_map(|t| (0..self.txs[t].full.output.len() as u32).map(move |n| (*t, n)))
            .filter(|o| !spent.contains(o))
            .collect();
        let mut outs = vec![(5_000_000, WATCH + r.u8(..SCRIPTS - WATCH))];
        if chance(r, 35) {
            outs.push((1_000, r.u8(..WATCH)));
        }
        let cb = 1000 + id as i64;
        self.tx(cb, vec![((0, 0), OutPoint::null())], outs, false, true);
        let mut inc = vec![cb];
        if kind == 0 {
            for _ in 0..*pick(r, &[0, 0, 0, 1, 1, 2, 3]) {
                let known: Vec<i64> = (1..=self.user).filter(|t| !on.contains(t) && !inc.contains(t) && self.txs[t].ins.iter().all(|i| !spent.contains(i))).collect();
                if !known.is_empty() && chance(r, 60) {
                    let t = *pick(r, &known);
                    avail.retain(|o| !self.txs[&t].ins.contains(o));
                    inc.push(t);
                } else if self.user < 14 {
                    let t = self.user_tx(r, &mut avail);
                    inc.push(t);
                } else {
                    continue;
                }
                spent.extend(self.txs[inc.last().unwrap()].ins.iter().copied());
            }
        }
        let p = self.blocks[par].header;
        let time = if kind == 1 { self.blocks[path[path.len().saturating_sub(12)]].header.time.min(p.time) - 1 } else { p.time + 300 + r.u32(..300) };
        let txdata: Vec<Transaction> = inc.iter().map(|t| self.txs[t].bare.clone()).collect();
        let mut b = Block { header: BlockHeader { version: 4, prev_blockhash: p.block_hash(), merkle_root: Hash::all_zeros(), time, bits: p.bits, nonce: 0 }, txdata };
        b.header.merkle_root = b.compute_merkle_root().unwrap();
        b.header = mine(b.header, kind != 2, r);
        self.ids.insert(b.block_hash(), id as i64);
        self.blocks.push(b);
        self.par.push(par as i64);
        self.height.push(height);
        self.val.push(kind == 0 && self.val[par]);
        self.pre.push(kind != 2);
        self.inc.push(inc);
        id
    }

    fn new(r: &fastrand::Rng, lying: bool) -> Universe {
        let g = nakamoto_common::bitcoin::blockdata::constants::genesis_block(nakamoto_common::bitcoin::Network::Regtest);
        let mut u = Universe {
            ids: [(g.block_hash(), 0)].into(),
            blocks: vec![g],
            par: vec![-1],
            height: vec![0],
            val: vec![true],
            pre: vec![true],
            txs: BTreeMap::new(),
            inc: vec![vec![]],
            filters: vec![],
            scr: vec![],
            lies: BTreeMap::new(),
            txids: BTreeMap::new(),
            wtxids: BTreeMap::new(),
            fids: BTreeMap::new(),
            hids: BTreeMap::new(),
            user: 0,
            stages: vec![],
        };
        let ladder = chance(r, 60);
        let mut tip = 0;
        for _ in 0..(if ladder { 2 + r.usize(..5) } else { 5 + r.usize(..12) }) {
            tip = u.add(tip, 0, r);
        }
        if ladder {
            // The best chain grows, or another one becomes better, again and again.
            u.stages.push(tip);
            for _ in 0..(3 + r.usize(..5)) {
                let path = u.path(tip);
                let depth = if chance(r, 40) { 0 } else { 1 + r.usize(..(path.len() - 1).min(if chance(r, 20) { 6 } else { 3 })) };
                tip = path[path.len() - 1 - depth];
                for _ in 0..(depth + 1 + r.usize(..2)) {
                    tip = u.add(tip, 0, r);
                }
                u.stages.push(tip);
            }
        }
        for _ in 0..(if ladder { r.usize(..2) } else { r.usize(..4) }) {
            let path = u.path(tip);
            let depth = 1 + r.usize(..path.len().min(9) - 1);
            let mut b = path[path.len() - 1 - depth];
            for _ in 0..(1 + r.usize(..if ladder { depth } else { depth + 3 })) {
                b = u.add(b, 0, r);
            }
            if !ladder && u.height[b] > u.height[tip] && r.bool() {
                tip = b;
            }
        }
        // Invalid headers.
        for _ in 0..r.usize(..3) {
            let p = r.usize(..u.blocks.len());
            if u.val[p] && u.height[p] > 2 {
                u.add(p, 1 + r.u32(..2), r);
            }
        }
        // Transactions that no block has.
        for _ in 0..(1 + r.usize(..3)) {
            u.user_tx(r, &mut vec![]);
        }
        // Filters.
        let outs: BTreeMap<OutPoint, Script> =
            u.txs.values().flat_map(|t| { let id = t.full.txid(); t.full.output.iter().enumerate().map(move |(n, o)| (OutPoint { txid: id, vout: n as u32 }, o.script_pubkey.clone())).collect::<Vec<_>>() }).collect();
        u.hids.insert(FilterHeader::all_zeros(), 0);
        for b in 0..u.blocks.len() {
            let f = BlockFilter::new_script_filter(&u.blocks[b], |o| Ok(outs.get(o).cloned().unwrap_or_else(|| script(SCRIPTS)))).unwrap().content;
            let s = u.scripts(&f, b);
            u.fids.insert(FilterHash::hash(&f), b as i64);
            u.filters.push(f);
            u.scr.push(s);
        }
        let gh = StoredHeader::genesis(Network::Regtest);
        u.fids.insert(gh.hash, 0);
        u.hid(&gh.header);
        if lying {
            // A filter without any element, and some of made-up contents.
            u.filters.push(vec![0]);
            let empty = u.filters.len() - 1;
            u.scr.push(vec![]);
            u.fids.insert(u.fhash(empty), empty as i64);
            for b in 1..u.blocks.len() {
                let mut v = vec![empty];
                if r.bool() {
                    let mut fake = u.blocks[b].clone();
                    fake.txdata.truncate(1);
                    fake.txdata[0].output = (0..2).map(|_| TxOut { value: 1, script_pubkey: script(r.u8(..SCRIPTS)) }).collect();
                    let f = BlockFilter::new_script_filter(&fake, |_| Ok(script(SCRIPTS))).unwrap().content;
                    if !u.fids.contains_key(&FilterHash::hash(&f)) {
                        let s = u.scripts(&f, b);
                        u.fids.insert(FilterHash::hash(&f), u.filters.len() as i64);
                        v.push(u.filters.len());
                        u.filters.push(f);
                        u.scr.push(s);
                    }
                }
                u.lies.insert(b, v);
            }
        }
        u
    }

    fn world(&self, cap: usize, now: u32) -> J {
        let n = self.blocks.len();
        let mut order: Vec<usize> = (0..n).collect();
        order.sort_by_key(|b| self.hash(*b));
        let mut rank = vec![0; n];
        for (k, b) in order.iter().enumerate() {
            rank[*b] = k;
        }
        let g = self.blocks[0].header.time;
        let txs: Vec<J> = self
            .inc
            .iter()
            .map(|v| {
                J::A(
                    v.iter()
                        .map(|t| {
                            let x = &self.txs[t];
                            obj! {"id": *t, "cb": x.cb, "ins": x.ins.clone(), "outs": x.full.output.iter().map(|o| o.value).collect::<Vec<_>>(), "w": x.bare.weight()}
                        })
                        .collect(),
                )
            })
            .collect();
        let outs: Vec<J> = (1..=self.user).map(|t| J::from(self.txs[&t].full.output.iter().map(|o| o.script_pubkey.as_bytes()[2] - 1).collect::<Vec<_>>())).collect();
        obj! {"op": "world", "n": n - 1, "now": now - g, "par": self.par[1..].to_vec(), "tm": self.blocks[1..].iter().map(|b| b.header.time as i64 - g as i64).collect::<Vec<_>>(),
        "val": self.val[1..].to_vec(), "pre": self.pre[1..].to_vec(), "rank": rank, "txs": J::A(txs), "outs": J::A(outs),
        "scr": self.scr.clone(), "flen": self.filters.iter().map(|f| f.len()).collect::<Vec<_>>(), "cap": cap}
    }
}

#[derive(Clone, Debug)]
enum Reply {
    Headers(Vec<usize>),
    CfHeaders(usize, usize),
    Filter(usize),
    Block(usize),
    Data(Vec<(bool, i64)>),
}

#[derive(Clone)]
struct Peer {
    addr: SocketAddr,
    out: bool,
    svc: ServiceFlags,
    tip: usize,
    wtx: bool,
    queue: Vec<Reply>,
    /// Replies to nothing.
    mute: bool,
    /// Claims false filters.
    lies: BTreeMap<usize, usize>,
    /// Pays attention to announcements.
    curious: bool,
}

struct Gen {
    u: Universe,
    node: Node,
    rng: fastrand::Rng,
    peers: BTreeMap<usize, Peer>,
    ids: BTreeMap<SocketAddr, usize>,
    count: usize,
    cap: usize,
    lying: bool,
    faults: u32,
    pings: Vec<(SocketAddr, u64)>,
    join: Option<(usize, bool)>,
    seed: u64,
    era: usize,
}

fn tree(hdrs: Vec<BlockHeader>) -> Tree {
    Tree::from(Memory::new(NonEmpty::from_vec(hdrs).unwrap()), Network::Regtest.params(), &[]).unwrap()
}
fn bound(b: &Bound<u64>) -> (&'static str, i64) {
    match b {
        Bound::Included(h) => ("inc", *h as i64),
        Bound::Excluded(h) => ("exc", *h as i64),
        Bound::Unbounded => ("unb", 0),
    }
}

impl Gen {
    fn id(&self, a: &SocketAddr) -> usize {
        *self.ids.get(a).unwrap_or(&0)
    }
    fn bid(&self, h: &BlockHash) -> i64 {
        self.u.id(h)
    }
    fn start(&mut self, log: &mut Log, kind: &'static str) -> bool {
        let mut j = self.u.world(self.cap, self.node.time.block_time());
        if let J::O(v) = &mut j {
            v[0].1 = J::from(kind);
            v.push(("act", self.chain()));
            v.push(("fl", self.store()));
        }
        log.put(j);
        self.turn(log, vec![In::Init])
    }
    fn chain(&mut self) -> J {
        let c = self.node.chain();
        J::from(c.iter().map(|h| self.bid(h)).collect::<Vec<_>>())
    }
    fn store(&mut self) -> J {
        let v = Filters::get_headers(self.node.filters.get(), 0..=10000);
        let mut r = vec![];
        for (h, x) in v {
            r.push((self.u.fid(&h), self.u.hid(&x)));
        }
        J::from(r)
    }

    fn log_in(&mut self, i: &In) -> Option<J> {
        Some(match i {
            In::Init => obj! {"k": "init"},
            In::Timer => obj! {"k": "timer"},
            In::Connected(..) => return None,
            In::Lost(a) => obj! {"k": "lost", "p": self.id(a)},
            In::Cmd(c) => match c {
                Command::Rescan { from, to, watch } => {
                    let (f, t) = (bound(from), bound(to));
                    obj! {"k": "rescan", "fk": f.0, "f": f.1, "tk": t.0, "t": t.1, "watch": watch.iter().map(|s| s.as_bytes()[2] - 1).collect::<Vec<_>>()}
                }
                Command::Watch { watch } => obj! {"k": "watch", "watch": watch.iter().map(|s| s.as_bytes()[2] - 1).collect::<Vec<_>>()},
                Command::RequestBlock(h) => obj! {"k": "reqblock", "b": self.bid(h)},
                Command::SubmitTransaction(tx, _) => obj! {"k": "submit", "tx": self.u.txids[&tx.txid()]},
                Command::ImportHeaders(v, _) => obj! {"k": "import", "b": v.iter().map(|h| self.bid(&h.block_hash())).collect::<Vec<_>>()},
                Command::RequestFilters(r, _) => obj! {"k": "reqfilters", "lo": *r.start(), "hi": *r.end()},
                _ => return None,
            },
            In::Msg(a, m) => {
                let p = self.id(a);
                match &m.payload {
                    NetworkMessage::Verack => {
                        let x = &self.peers[&p];
                        let v = self.join.clone().unwrap();
                        obj! {"k": "join", "p": p, "l": if x.out { "out" } else { "in" }, "svc": svc(x.svc), "h": v.0, "relay": v.1, "wtx": x.wtx}
                    }
                    NetworkMessage::Headers(v) => {
                        let mut b: Vec<i64> = vec![];
                        for h in v {
                            let id = self.bid(&h.block_hash());
                            if b.last() != Some(&id) {
                                b.push(id);
                            }
                        }
                        obj! {"k": "headers", "p": p, "n": v.len(), "b": b}
                    }
                    NetworkMessage::GetHeaders(g) => {
                        obj! {"k": "getheaders", "p": p, "loc": g.locator_hashes.iter().map(|h| self.bid(h)).collect::<Vec<_>>(), "stop": self.bid(&g.stop_hash)}
                    }
                    NetworkMessage::Inv(v) => {
                        let b: Vec<i64> = v.iter().filter_map(|i| if let Inventory::Block(h) = i { Some(self.bid(h)) } else { None }).collect();
                        obj! {"k": "inv", "p": p, "b": b}
                    }
                    NetworkMessage::CFHeaders(c) => {
                        let mut hids = vec![];
                        let mut x = c.previous_filter_header;
                        let mut fids = vec![];
                        for f in &c.filter_hashes {
                            x = f.filter_header(&x);
                            hids.push(self.u.hid(&x));
                            fids.push(self.u.fid(f));
                        }
                        obj! {"k": "cfheaders", "p": p, "type": c.filter_type, "stop": self.bid(&c.stop_hash), "prev": self.u.hid(&c.previous_filter_header), "fids": fids, "hids": hids}
                    }
                    NetworkMessage::GetCFHeaders(g) => obj! {"k": "getcfheaders", "p": p, "type": g.filter_type, "start": g.start_height, "stop": self.bid(&g.stop_hash)},
                    NetworkMessage::CFilter(c) => {
                        let f = FilterHash::hash(&c.filter);
                        obj! {"k": "cfilter", "p": p, "type": c.filter_type, "b": self.bid(&c.block_hash), "fid": self.u.fid(&f)}
                    }
                    NetworkMessage::Block(b) => {
                        let id = self.bid(&b.block_hash());
                        let ok = id >= 0 && self.u.blocks[id as usize].txdata == b.txdata;
                        obj! {"k": "block", "p": p, "b": id, "ok": ok}
                    }
                    NetworkMessage::GetData(v) => obj! {"k": "getdata", "p": p, "items": self.items(v)},
                    _ => return None,
                }
            }
        })
    }
    fn items(&self, v: &[Inventory]) -> J {
        J::A(
            v.iter()
                .map(|i| match i {
                    Inventory::Transaction(t) | Inventory::WitnessTransaction(t) => J::from(("tx", *self.u.txids.get(t).unwrap_or(&-1))),
                    Inventory::WTx(t) => J::from(("wtx", *self.u.wtxids.get(t).unwrap_or(&-1))),
                    Inventory::Block(h) | Inventory::WitnessBlock(h) => J::from(("block", self.bid(h))),
                    _ => J::from(("other", 0)),
                })
                .collect(),
        )
    }

    fn log_out(&mut self, o: &Out) -> Option<J> {
        Some(match o {
            Out::Write(a, m) => {
                let p = self.id(a);
                self.asked(p, m);
                match m {
                    NetworkMessage::Ping(n) => {
                        self.pings.push((*a, *n));
                        return None;
                    }
                    NetworkMessage::GetHeaders(g) => {
                        obj! {"k": "w", "m": "getheaders", "p": p, "loc": g.locator_hashes.iter().map(|h| self.bid(h)).collect::<Vec<_>>(), "stop": self.bid(&g.stop_hash)}
                    }
                    NetworkMessage::Headers(v) => obj! {"k": "w", "m": "headers", "p": p, "b": v.iter().map(|h| self.bid(&h.block_hash())).collect::<Vec<_>>()},
                    NetworkMessage::GetCFHeaders(g) => obj! {"k": "w", "m": "getcfheaders", "p": p, "start": g.start_height, "stop": self.bid(&g.stop_hash)},
                    NetworkMessage::CFHeaders(c) => {
                        let fids: Vec<i64> = c.filter_hashes.iter().map(|f| self.u.fid(f)).collect();
                        obj! {"k": "w", "m": "cfheaders", "p": p, "stop": self.bid(&c.stop_hash), "prev": self.u.hid(&c.previous_filter_header), "fids": fids}
                    }
                    NetworkMessage::GetCFilters(g) => obj! {"k": "w", "m": "getcfilters", "p": p, "start": g.start_height, "stop": self.bid(&g.stop_hash)},
                    NetworkMessage::GetData(v) => obj! {"k": "w", "m": "getdata", "p": p, "items": self.items(v)},
                    NetworkMessage::Inv(v) => obj! {"k": "w", "m": "inv", "p": p, "items": self.items(v)},
                    NetworkMessage::Tx(t) => obj! {"k": "w", "m": "tx", "p": p, "tx": *self.u.wtxids.get(&t.wtxid()).unwrap_or(&-1)},
                    _ => return None,
                }
            }
            Out::Connect(..) => return None,
            Out::Disc(a, r) => {
                let p = self.id(a);
                self.peers.remove(&p);
                obj! {"k": "disc", "p": p, "r": reason(r)}
            }
            Out::Ev(e) => match e {
                Event::BlockConnected { height, header } => obj! {"k": "ev", "e": "connected", "b": self.bid(&header.block_hash()), "h": *height},
                Event::BlockDisconnected { height, header } => obj! {"k": "ev", "e": "disconnected", "b": self.bid(&header.block_hash()), "h": *height},
                Event::BlockHeadersImported { hash, height, reverted, connected, reorg } => {
                    let c: Vec<_> = connected.iter().map(|(h, x)| (*h, self.bid(&x.block_hash()))).collect();
                    let v: Vec<_> = reverted.iter().map(|(h, x)| (*h, self.bid(&x.block_hash()))).collect();
                    obj! {"k": "ev", "e": "imported", "b": self.bid(hash), "h": *height, "rev": v, "con": c, "reorg": *reorg}
                }
                Event::BlockHeadersSynced { hash, height } => obj! {"k": "ev", "e": "synced", "b": self.bid(hash), "h": *height},
                Event::BlockProcessed { block, height, fees } => {
                    let id = self.bid(&block.block_hash());
                    let ok = id >= 0 && self.u.blocks[id as usize].txdata == block.txdata;
                    let f: Vec<u64> = fees.as_ref().map(|f| vec![f.low, f.median, f.high]).unwrap_or_default();
                    obj! {"k": "ev", "e": "processed", "b": id, "h": *height, "ok": ok, "fees": f}
                }
                Event::BlockMatched { block, height } => obj! {"k": "ev", "e": "matched", "b": self.bid(&block.block_hash()), "h": *height},
                Event::FilterProcessed { block, height, matched, .. } => obj! {"k": "ev", "e": "fprocessed", "b": self.bid(block), "h": *height, "m": *matched},
                Event::FilterReceived { from, block, height, filter } => {
                    obj! {"k": "ev", "e": "freceived", "p": self.id(from), "b": self.bid(block), "h": *height, "fid": self.u.fid(&FilterHash::hash(&filter.content))}
                }
                Event::FilterRescanStarted { start, stop } => obj! {"k": "ev", "e": "started", "h": *start, "stop": stop.map(|s| s as i64).unwrap_or(-1)},
                Event::FilterRescanStopped { height } => obj! {"k": "ev", "e": "stopped", "h": *height},
                Event::FilterHeadersSynced { height } => obj! {"k": "ev", "e": "fsynced", "h": *height},
                Event::Scanned { height } => obj! {"k": "ev", "e": "scanned", "h": *height},
                Event::TxStatusChanged { txid, status } => {
                    let t = *self.u.txids.get(txid).unwrap_or(&-1);
                    match status {
                        TxStatus::Acknowledged { peer } => obj! {"k": "ev", "e": "ack", "tx": t, "p": self.id(peer)},
                        TxStatus::Confirmed { height, block } => obj! {"k": "ev", "e": "confirmed", "tx": t, "b": self.bid(block), "h": *height},
                        TxStatus::Reverted { transaction } => obj! {"k": "ev", "e": "reverted", "tx": if self.u.txids.get(&transaction.txid()) == Some(&t) { t } else { -1 }},
                        _ => obj! {"k": "ev", "e": "othertx", "tx": t},
                    }
                }
                _ => return None,
            },
        })
    }

    /// What the peer will have to say to a message of the node.
    fn asked(&mut self, p: usize, m: &NetworkMessage) {
        let r = self.rng.clone();
        let Some(x) = self.peers.get(&p).cloned() else { return };
        let path = self.u.path(x.tip);
        let pos = |h: &BlockHash| path.iter().position(|b| self.u.hash(*b) == *h);
        let mut q = vec![];
        match m {
            NetworkMessage::GetHeaders(g) => {
                let start = g.locator_hashes.iter().find_map(pos).unwrap_or(0);
                let stop = pos(&g.stop_hash).unwrap_or(path.len() - 1);
                q.push(Reply::Headers(if stop > start { path[start + 1..=stop].to_vec() } else { vec![] }));
            }
            NetworkMessage::GetCFHeaders(g) => {
                if let Some(stop) = pos(&g.stop_hash) {
                    q.push(Reply::CfHeaders(g.start_height as usize, path[stop]));
                }
            }
            NetworkMessage::GetCFilters(g) => {
                if let Some(stop) = pos(&g.stop_hash) {
                    for h in g.start_height as usize..=stop {
                        q.push(Reply::Filter(path[h]));
                    }
                }
            }
            NetworkMessage::GetData(v) => {
                for i in v {
                    if let Inventory::Block(h) = i {
                        if let Some(b) = pos(h) {
                            q.push(Reply::Block(path[b]));
                        }
                    }
                }
            }
            NetworkMessage::Inv(v) if x.curious => {
                let d: Vec<(bool, i64)> = v
                    .iter()
                    .filter_map(|i| match i {
                        Inventory::Transaction(t) => self.u.txids.get(t).map(|t| (false, *t)),
                        Inventory::WTx(t) => self.u.wtxids.get(t).map(|t| (true, *t)),
                        _ => None,
                    })
                    .collect();
                if chance(&r, 30) {
                    q.extend(d.into_iter().map(|i| Reply::Data(vec![i])));
                } else {
                    q.push(Reply::Data(d));
                }
            }
            _ => {}
        }
        let x = self.peers.get_mut(&p).unwrap();
        if !x.mute {
            x.queue.extend(q);
        }
    }

    fn message(&self, p: usize, reply: &Reply) -> NetworkMessage {
        let x = &self.peers[&p];
        let claim = |b: usize| *x.lies.get(&b).unwrap_or(&b);
        match reply {
            Reply::Headers(v) => NetworkMessage::Headers(v.iter().map(|b| self.u.blocks[*b].header).collect()),
            Reply::CfHeaders(start, stop) => {
                let path = self.u.path(*stop);
                let f = self.u.fheaders(&path, &claim);
                let start = (*start).clamp(1, f.len());
                NetworkMessage::CFHeaders(CFHeaders {
                    filter_type: 0,
                    stop_hash: self.u.hash(*stop),
                    previous_filter_header: f[start - 1].1,
                    filter_hashes: f[start..].iter().map(|x| x.0).collect(),
                })
            }
            Reply::Filter(b) => NetworkMessage::CFilter(CFilter { filter_type: 0, block_hash: self.u.hash(*b), filter: self.u.filters[claim(*b)].clone() }),
            Reply::Block(b) => NetworkMessage::Block(self.u.blocks[*b].clone()),
            Reply::Data(v) => NetworkMessage::GetData(
                v.iter().map(|(w, t)| { let tx = &self.u.txs[t].full; if *w { Inventory::WTx(tx.wtxid()) } else { Inventory::Transaction(tx.txid()) } }).collect(),
            ),
        }
    }

    /// The same message, spoiled.
    fn spoil(&self, m: NetworkMessage) -> NetworkMessage {
        let r = &self.rng;
        match m {
            NetworkMessage::Headers(mut v) => {
                match r.u32(..6) {
                    0 if !v.is_empty() => {
                        let k = if r.bool() { 2000 } else { 2001 };
                        let first = v[0];
                        let mut w = vec![first; k - v.len()];
                        w.extend(v);
                        v = w;
                    }
                    1 if v.len() > 1 => {
                        v.remove(0);
                    }
                    2 => {
                        // An invalid header, if there is one that fits.
                        if let Some(l) = v.last() {
                            if let Some(b) = (0..self.u.blocks.len()).find(|b| !self.u.val[*b] && self.u.blocks[*b].header.prev_blockhash == l.block_hash()) {
                                v.push(self.u.blocks[b].header);
                            }
                        }
                    }
                    3 => v.truncate(r.usize(..v.len() + 1)),
                    4 if !v.is_empty() => {
                        let first = v[0];
                        let mut w = vec![first; *pick(r, &[20, 25, 30])];
                        w.extend(v);
                        v = w;
                    }
                    _ => r.shuffle(&mut v),
                }
                NetworkMessage::Headers(v)
            }
            NetworkMessage::CFHeaders(mut c) => {
                match r.u32(..7) {
                    0 => c.filter_type = 1,
                    1 => c.filter_hashes.clear(),
                    2 => {
                        c.filter_hashes.pop();
                    }
                    3 => c.filter_hashes.push(self.u.fhash(0)),
                    4 => c.previous_filter_header = self.u.fhash(0).filter_header(&c.previous_filter_header),
                    5 => c.stop_hash = self.u.hash(r.usize(..self.u.blocks.len())),
                    _ => {
                        let f = c.filter_hashes.first().copied().unwrap_or(self.u.fhash(0));
                        c.filter_hashes = vec![f; 2001];
                    }
                }
                NetworkMessage::CFHeaders(c)
            }
            NetworkMessage::CFilter(mut c) => {
                match r.u32(..5) {
                    0 => c.filter_type = 1,
                    1 => c.filter = self.u.filters[r.usize(..self.u.filters.len())].clone(),
                    2 => c.block_hash = self.u.hash(r.usize(..self.u.blocks.len())),
                    3 => c.filter.push(0),
                    _ => c.filter = vec![0],
                }
                NetworkMessage::CFilter(c)
            }
            NetworkMessage::Block(mut b) => {
                let n = b.txdata.len();
                match r.u32(..4) {
                    0 if n >= 3 && n % 2 == 1 => b.txdata.push(b.txdata[n - 1].clone()),
                    1 if n > 1 => {
                        b.txdata.pop();
                    }
                    2 => {
                        let t = 1 + r.i64(0..self.u.user);
                        b.txdata.push(self.u.txs[&t].bare.clone());
                    }
                    _ => b.txdata[0].output[0].value += 1,
                }
                NetworkMessage::Block(b)
            }
            m => m,
        }
    }

    fn turn(&mut self, log: &mut Log, ins: Vec<In>) -> bool {
        let jin: Vec<J> = ins.iter().filter_map(|i| self.log_in(i)).collect();
        for i in &ins {
            if let In::Lost(a) = i {
                let p = self.id(a);
                self.peers.remove(&p);
            }
        }

        let mut replies: Vec<Box<dyn FnOnce(&Gen) -> J>> = vec![];
        let mut ins2 = vec![];
        for i in ins {
            // Listen to the replies of commands.
            ins2.push(match i {
                In::Cmd(Command::SubmitTransaction(t, _)) => {
                    let (tx, rx) = crossbeam_channel::bounded::<Result<NonEmpty<SocketAddr>, fsm::CommandError>>(1);
                    replies.push(Box::new(move |g| match rx.try_recv() {
                        Ok(Ok(v)) => {
                            let mut v: Vec<usize> = v.iter().map(|a| g.id(a)).collect();
                            v.sort();
                            J::from(v)
                        }
                        Ok(Err(_)) => J::A(vec![]),
                        Err(_) => J::from(vec![-1]),
                    }));
                    In::Cmd(Command::SubmitTransaction(t, tx))
                }
                In::Cmd(Command::ImportHeaders(v, _)) => {
                    let (tx, rx) = crossbeam_channel::bounded(1);
                    replies.push(Box::new(move |_| {
                        J::from(vec![match rx.try_recv() {
                            Ok(Ok(ImportResult::TipChanged { .. })) => 1,
                            Ok(Ok(ImportResult::TipUnchanged)) => 0,
                            Ok(Err(_)) => 2,
                            Err(_) => -1,
                        }])
                    }));
                    In::Cmd(Command::ImportHeaders(v, tx))
                }
                In::Cmd(Command::RequestFilters(v, _)) => {
                    let (tx, rx) = crossbeam_channel::bounded(1);
                    replies.push(Box::new(move |_| {
                        J::from(vec![match rx.try_recv() {
                            Ok(Ok(())) => 1,
                            Ok(Err(_)) => 0,
                            Err(_) => -1,
                        }])
                    }));
                    In::Cmd(Command::RequestFilters(v, tx))
                }
                i => i,
            });
        }
        let node = &mut self.node;
        let out = match guard(|| node.turn(ins2)) {
            Ok(o) => o,
            Err(e) => {
                log.put(obj! {"op": "panic", "t": self.node.now_ms(), "ins": jin, "what": e});
                return false;
            }
        };
        let rep = replies.into_iter().next().map(|f| f(self)).unwrap_or(J::A(vec![]));
        let jout: Vec<J> = out.iter().filter_map(|o| self.log_out(o)).collect();
        if jin.is_empty() && jout.is_empty() {
            return self.pong(log);
        }
        let chain = self.chain();
        let fl = self.store();
        let mut mem = vec![];
        for t in 1..=self.u.user {
            let (tx, rx) = crossbeam_channel::bounded(1);
            let want = self.u.txs[&t].full.clone();
            self.node.sm.command(Command::GetSubmittedTransaction(want.txid(), tx));
            if rx.recv().unwrap() == Some(want) {
                mem.push(t);
            }
        }
        log.put(obj! {"op": "turn", "t": self.node.now_ms(), "ins": jin, "out": jout, "rep": rep, "chain": chain, "fl": fl, "mem": mem});
        self.pong(log)
    }

    fn pong(&mut self, log: &mut Log) -> bool {
        let pings = std::mem::take(&mut self.pings);
        for (a, n) in pings {
            let m = self.node.msg(a, NetworkMessage::Pong(n));
            if !self.turn(log, vec![m]) {
                return false;
            }
        }
        true
    }

    fn advance(&mut self, log: &mut Log, to: LocalTime) -> bool {
        while let Some(t) = self.node.next_timer() {
            if t > to {
                break;
            }
            self.node.time = t.max(self.node.time);
            if !self.turn(log, vec![In::Timer]) {
                return false;
            }
        }
        self.node.time = to.max(self.node.time);
        true
    }

    fn best(&self) -> usize {
        if !self.u.stages.is_empty() {
            return self.u.stages[self.era];
        }
        let n = (0..self.u.blocks.len()).filter(|b| self.u.val[*b]);
        n.max_by_key(|b| self.u.height[*b]).unwrap()
    }
    fn valid(&self) -> usize {
        if !self.u.stages.is_empty() && chance(&self.rng, 80) {
            return self.u.stages[self.rng.usize(..self.era + 1)];
        }
        loop {
            let b = self.rng.usize(..self.u.blocks.len());
            if self.u.val[b] {
                return b;
            }
        }
    }
    fn act(&mut self) -> Vec<usize> {
        let c = self.node.chain();
        c.iter().map(|h| self.bid(h) as usize).collect()
    }

    fn connect(&mut self, log: &mut Log, out: bool, sv: ServiceFlags, tip: usize, fair: bool) -> bool {
        let r = self.rng.clone();
        self.count += 1;
        let p = self.count;
        let addr: SocketAddr = ([88, 1 + (p / 200) as u8, (p % 200) as u8, 7], 18444).into();
        self.ids.insert(addr, p);
        let (relay, wtx) = if fair { (true, r.bool()) } else { (chance(&r, 75), r.bool()) };
        let h = if fair || chance(&r, 85) { self.u.height[tip] } else { r.usize(..self.u.height[tip] + 3) };
        let mut lies = BTreeMap::new();
        if self.lying && !fair && chance(&r, 50) {
            for (b, v) in &self.u.lies {
                if chance(&r, 25) {
                    lies.insert(*b, *pick(&r, v));
                }
            }
        }
        let peer = Peer { addr, out, svc: sv, tip, wtx, queue: vec![], mute: !fair && chance(&r, 12), lies, curious: fair || chance(&r, 75) };
        self.peers.insert(p, peer);
        let version = NetworkMessage::Version(VersionMessage {
            version: 70016,
            services: sv,
            timestamp: self.node.time.block_time() as i64,
            receiver: Address::new(&([77, 7, 7, 7], 8333).into(), ServiceFlags::NONE),
            sender: Address::new(&addr, NET),
            nonce: 1000 + p as u64,
            user_agent: "/x/".into(),
            start_height: h as i32,
            relay,
        });
        let l = if out { Link::Outbound } else { Link::Inbound };
        let mut steps = vec![];
        if out {
            steps.push(In::Cmd(Command::Connect(addr)));
        }
        steps.push(In::Connected(addr, l));
        steps.push(self.node.msg(addr, version));
        if wtx {
            steps.push(self.node.msg(addr, NetworkMessage::WtxidRelay));
        }
        steps.push(self.node.msg(addr, NetworkMessage::Verack));
        self.join = Some((h, relay));
        for s in steps {
            if !self.turn(log, vec![s]) {
                return false;
            }
        }
        true
    }

    /// Deliver one of the replies a peer owes, if there is any.
    fn deliver(&mut self, log: &mut Log, p: usize) -> bool {
        let r = self.rng.clone();
        let n = self.peers[&p].queue.len();
        if n == 0 {
            return true;
        }
        let k = if chance(&r, 75) { 0 } else { r.usize(..n) };
        let x = self.peers.get_mut(&p).unwrap();
        if chance(&r, self.faults / 2) {
            x.queue.remove(k);
            return true;
        }
        let reply = if chance(&r, self.faults / 2) { x.queue[k].clone() } else { x.queue.remove(k) };
        // Filters and blocks may also come in bursts.
        let addr = x.addr;
        let mut ms = vec![self.message(p, &reply)];
        let burst = matches!(reply, Reply::Filter(_) | Reply::Block(_)) && chance(&r, 30);
        if burst {
            let same = std::mem::discriminant(&reply);
            while chance(&r, 80) {
                let x = self.peers.get_mut(&p).unwrap();
                let Some(k) = x.queue.iter().position(|q| std::mem::discriminant(q) == same) else { break };
                let q = x.queue.remove(k);
                ms.push(self.message(p, &q));
            }
        }
        let ins = ms
            .into_iter()
            .map(|m| {
                let m = if chance(&r, self.faults) { self.spoil(m) } else { m };
                self.node.msg(addr, m)
            })
            .collect();
        self.turn(log, ins)
    }

    fn command(&mut self) -> Command {
        let r = self.rng.clone();
        let act = self.act();
        let h = act.len() as u64 - 1;
        let scripts = |n: usize| -> Vec<Script> { (0..n).map(|_| script(r.u8(..WATCH))).collect() };
        match r.u32(..12) {
            0..=3 => {
                let from = match r.u32(..6) {
                    0 => Bound::Unbounded,
                    1 => Bound::Excluded(r.u64(..h + 2)),
                    2 => Bound::Included(r.u64(..h + 4)),
                    _ => Bound::Included(r.u64(..h + 1)),
                };
                let to = match r.u32(..6) {
                    0 => Bound::Excluded(r.u64(..h + 4)),
                    1 | 2 => Bound::Included(r.u64(..h + 4)),
                    _ => Bound::Unbounded,
                };
                let n = *pick(&r, &[0, 1, 1, 2, 3, 4]);
                Command::Rescan { from, to, watch: scripts(n) }
            }
            4 => Command::Watch { watch: scripts(1 + r.usize(..2)) },
            5 | 6 => {
                let b = if chance(&r, 94) { *pick(&r, &act) } else { r.usize(..self.u.blocks.len()) };
                Command::RequestBlock(self.u.hash(b))
            }
            7..=9 => {
                let t = 1 + r.i64(0..self.u.user);
                Command::SubmitTransaction(self.u.txs[&t].full.clone(), crossbeam_channel::bounded(1).0)
            }
            10 => {
                let tip = r.usize(..self.u.blocks.len());
                let path = self.u.path(tip);
                let k = r.usize(..path.len());
                Command::ImportHeaders(path[k..].iter().map(|b| self.u.blocks[*b].header).collect(), crossbeam_channel::bounded(1).0)
            }
            _ => {
                let lo = r.u64(..h + 2);
                #[allow(clippy::reversed_empty_ranges)]
                Command::RequestFilters(lo..=(lo + r.u64(..5)).saturating_sub(r.u64(..2)), crossbeam_channel::bounded(1).0)
            }
        }
    }

    /// Something a peer says by itself.
    fn chatter(&mut self, p: usize) -> NetworkMessage {
        let r = self.rng.clone();
        let tip = self.peers[&p].tip;
        let path = self.u.path(tip);
        let any = |g: &Gen| if chance(&r, 8) { BlockHash::from_slice(&[r.u8(..); 32]).unwrap() } else { g.u.hash(r.usize(..g.u.blocks.len())) };
        match r.u32(..13) {
            0 | 1 => {
                let n = r.usize(..4);
                let mut loc: Vec<BlockHash> = (0..n).map(|_| any(self)).collect();
                if r.bool() {
                    loc = path.iter().rev().step_by(1 + r.usize(..3)).map(|b| self.u.hash(*b)).collect();
                }
                NetworkMessage::GetHeaders(GetHeadersMessage { version: 70016, locator_hashes: loc, stop_hash: if r.bool() { BlockHash::all_zeros() } else { any(self) } })
            }
            2 | 3 => {
                let act = self.act();
                let stop = if chance(&r, 70) { self.u.hash(*pick(&r, &act)) } else { any(self) };
                NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type: (chance(&r, 3)) as u8, start_height: r.u32(..act.len() as u32 + 1) * (r.u32(..4) / 2 + 1) / 2, stop_hash: stop })
            }
            4 => {
                let mut v = vec![];
                for _ in 0..(1 + r.usize(..3)) {
                    let t = 1 + r.i64(0..self.u.user);
                    let tx = &self.u.txs[&t].full;
                    v.push(match r.u32(..3) {
                        0 => Inventory::Transaction(tx.txid()),
                        1 => Inventory::WitnessTransaction(tx.txid()),
                        _ => Inventory::WTx(tx.wtxid()),
                    });
                }
                if chance(&r, 10) {
                    v.push(Inventory::Block(any(self)));
                }
                NetworkMessage::GetData(v)
            }
            5 => NetworkMessage::Inv((0..(1 + r.usize(..3))).map(|_| Inventory::Block(any(self))).collect()),
            6 => self.message(p, &Reply::Block(self.valid().max(1))),
            7 => self.message(p, &Reply::Filter(*pick(&r, &path))),
            8 => {
                let k = r.usize(..path.len());
                self.message(p, &Reply::CfHeaders(r.usize(..k + 1), path[k]))
            }
            9 => {
                let k = r.usize(..path.len());
                self.message(p, &Reply::Headers(path[k..].to_vec()))
            }
            10 => {
                let b = r.usize(..self.u.blocks.len());
                let path = self.u.path(b);
                let k = r.usize(..path.len());
                let m = self.message(p, &Reply::Headers(path[k..].to_vec()));
                if r.bool() { self.spoil(m) } else { m }
            }
            11 => self.message(p, &Reply::Headers(vec![tip])),
            _ => NetworkMessage::Headers(vec![]),
        }
    }

    fn step(&mut self, log: &mut Log) -> bool {
        let r = self.rng.clone();
        let ps: Vec<usize> = self.peers.keys().copied().collect();
        let busy: Vec<usize> = ps.iter().copied().filter(|p| !self.peers[p].queue.is_empty()).collect();
        let roll = r.u32(..100);
        if ps.is_empty() || (ps.len() < 5 && roll < 5) {
            let out = chance(&r, 75);
            let sv = *pick(&r, &[NET | CF, NET | CF, NET | CF, NET, NET | CF | ServiceFlags::WITNESS, CF]);
            let tip = if r.bool() { self.best() } else { self.valid() };
            return self.connect(log, out, sv, tip, false);
        }
        let p = *pick(&r, &ps);
        match roll {
            5..=6 if ps.len() > 1 || chance(&r, 30) => {
                let a = self.peers[&p].addr;
                self.turn(log, vec![In::Lost(a)])
            }
            7..=16 => {
                // The peer learns of a block, and says so.
                let x = self.peers[&p].tip;
                if self.era + 1 < self.u.stages.len() && chance(&r, 35) {
                    self.era += 1;
                }
                let kids: Vec<usize> = (0..self.u.blocks.len()).filter(|b| self.u.par[*b] == x as i64 && self.u.val[*b]).collect();
                let tip = if !kids.is_empty() && chance(&r, 60) { *pick(&r, &kids) } else if r.bool() { self.best() } else { self.valid() };
                if self.u.height[tip] < self.u.height[x] {
                    return true;
                }
                let y = self.peers.get_mut(&p).unwrap();
                y.tip = tip;
                let addr = y.addr;
                let m = match r.u32(..4) {
                    0 => NetworkMessage::Inv(vec![Inventory::Block(self.u.hash(tip))]),
                    1 => self.message(p, &Reply::Headers(vec![tip])),
                    2 => return true,
                    _ => {
                        let path = self.u.path(tip);
                        let old = self.u.path(x);
                        let k = path.iter().zip(&old).take_while(|(a, b)| a == b).count();
                        self.message(p, &Reply::Headers(path[k.min(path.len() - 1)..].to_vec()))
                    }
                };
                let i = self.node.msg(addr, m);
                self.turn(log, vec![i])
            }
            17..=25 => {
                let c = self.command();
                self.turn(log, vec![In::Cmd(c)])
            }
            26..=31 => {
                let m = self.chatter(p);
                let i = self.node.msg(self.peers[&p].addr, m);
                self.turn(log, vec![i])
            }
            32..=50 => {
                // Time passes.
                let to = match r.u32(..20) {
                    0 => self.node.time + LocalDuration::from_secs(if chance(&r, 20) { r.u64(..4000) } else { r.u64(..700) }),
                    1..=3 => self.node.time + LocalDuration::from_secs(r.u64(..70)),
                    4..=8 => self.node.time + LocalDuration::from_millis(r.u64(..2500) as u128),
                    _ => self.node.next_timer().unwrap_or(self.node.time).max(self.node.time),
                };
                self.advance(log, to)
            }
            51 if chance(&r, 30) => self.restart(log),
            _ => {
                if busy.is_empty() {
                    let to = self.node.next_timer().unwrap_or(self.node.time).max(self.node.time);
                    return self.advance(log, to);
                }
                let p = *pick(&r, &busy);
                self.deliver(log, p)
            }
        }
    }

    /// The node is stopped, and started again with what it has stored.
    fn restart(&mut self, log: &mut Log) -> bool {
        let act = self.act();
        let mut hdrs: Vec<BlockHeader> = act.iter().map(|b| self.u.blocks[*b].header).collect();
        let mut stored: Vec<StoredHeader> = Filters::get_headers(self.node.filters.get(), 0..=10000).into_iter().map(|(hash, header)| StoredHeader { hash, header }).collect();
        // After a crash, the end of either store may be missing.
        if chance(&self.rng, 30) {
            hdrs.truncate(1 + self.rng.usize(..hdrs.len()));
        }
        if chance(&self.rng, 30) {
            stored.truncate(1 + self.rng.usize(..stored.len()));
        }
        self.peers.clear();
        self.pings.clear();
        let time = self.node.time + LocalDuration::from_secs(self.rng.u64(..100));
        self.seed += 1;
        self.node = node(hdrs, &stored[1..], time, self.seed, self.cap);
        self.start(log, "restart")
    }

    /// From now on a single, honest peer, which has the best chain. Everything has to be in order before long.
    fn settle(&mut self, log: &mut Log) -> bool {
        for p in self.peers.keys().copied().collect::<Vec<_>>() {
            let a = self.peers[&p].addr;
            if !self.turn(log, vec![In::Lost(a)]) {
                return false;
            }
        }
        let act = self.act();
        let tip = *act.last().unwrap();
        self.era = self.u.stages.len().saturating_sub(1);
        let best = self.best();
        let tip = if self.u.height[best] > self.u.height[tip] { best } else { tip };
        if !self.connect(log, true, NET | CF, tip, true) {
            return false;
        }
        let p = self.count;
        let end = self.node.time + LocalDuration::from_secs(300);
        self.faults = 0;
        let mut n = 0;
        while self.node.time < end && n < 600 {
            n += 1;
            if !self.peers.contains_key(&p) {
                break;
            }
            let ok = if !self.peers[&p].queue.is_empty() {
                self.deliver(log, p)
            } else {
                let to = self.node.next_timer().unwrap_or(end).clamp(self.node.time, end);
                self.advance(log, to)
            };
            if !ok {
                return false;
            }
        }
        log.put(obj! {"op": "settled", "t": self.node.now_ms(), "p": p, "tip": tip});
        true
    }
}

fn node(hdrs: Vec<BlockHeader>, stored: &[StoredHeader], time: LocalTime, seed: u64, cap: usize) -> Node {
    let mut fs: Memory<StoredHeader> = Memory::genesis(Network::Regtest);
    fs.put(stored.iter().copied()).unwrap();
    let cfg = Config {
        network: Network::Regtest,
        params: Network::Regtest.params(),
        limits: fsm::Limits { max_outbound_peers: 8, max_inbound_peers: 16, filter_cache_size: cap },
        ..Config::default()
    };
    Node::new(Network::Regtest, tree(hdrs), FilterCache::load(fs).unwrap(), Book::new(), time, seed, cfg)
}

pub fn main(a: &[String]) {
    let seed = num(a, "--seed", 1);
    let runs = num(a, "--runs", 10);
    let steps = num(a, "--steps", 120);
    let mut log = Log::create(&flag(a, "--out").expect("--out"));
    let rng = fastrand::Rng::with_seed(seed);
    for _ in 0..runs {
        let wseed = rng.u64(..);
        let rng = fastrand::Rng::with_seed(wseed);
        let lying = chance(&rng, 25);
        let u = Universe::new(&rng, lying);
        // The node may have some of the best chain already, and some of its filter headers.
        let cap = *pick(&rng, &[1 << 20, 1 << 20, 1 << 20, 60, 200, 0]);
        // The blocks may be recent, or old.
        let last = u.blocks.iter().map(|b| b.header.time).max().unwrap() as u64;
        let time = LocalTime::from_secs(if rng.bool() { u.blocks[0].header.time as u64 + 600 * 60 } else { last + rng.u64(..8000) });
        let best = if u.stages.is_empty() { (0..u.blocks.len()).filter(|b| u.val[*b]).max_by_key(|b| u.height[*b]).unwrap() } else { u.stages[0] };
        let path = u.path(best);
        let k = if rng.bool() { 0 } else { rng.usize(..path.len()) };
        let hdrs: Vec<BlockHeader> = path[..=k].iter().map(|b| u.blocks[*b].header).collect();
        let f = u.fheaders(&path[..=k], &|b| b);
        let m = rng.usize(..k + 1);
        let stored: Vec<StoredHeader> = f[1..=m].iter().map(|x| StoredHeader { hash: x.0, header: x.1 }).collect();
        let n = node(hdrs, &stored, time, wseed, cap);
        let mut g = Gen {
            u,
            node: n,
            rng: rng.clone(),
            peers: BTreeMap::new(),
            ids: BTreeMap::new(),
            count: 0,
            cap,
            lying,
            faults: *pick(&rng, &[0, 0, 3, 6, 12]),
            pings: vec![],

            seed: wseed,
            join: None,
            era: 0,
        };
        if !g.start(&mut log, "world") {
            continue;
        }
        let steps = steps / 3 + rng.u64(..steps);
        let mut ok = true;
        if !g.u.stages.is_empty() && chance(&rng, 60) {
            let from = if rng.bool() { Bound::Included(0) } else { Bound::Included(rng.u64(..4)) };
            let n = 1 + rng.usize(..4);
            let watch = (0..n).map(|_| script(rng.u8(..WATCH))).collect();
            ok = g.turn(&mut log, vec![In::Cmd(Command::Rescan { from, to: Bound::Unbounded, watch })]);
            for _ in 0..rng.usize(..4) {
                let t = 1 + rng.i64(0..g.u.user);
                let tx = g.u.txs[&t].full.clone();
                ok = ok && g.turn(&mut log, vec![In::Cmd(Command::SubmitTransaction(tx, crossbeam_channel::bounded(1).0))]);
            }
        }
        for _ in 0..steps {
            if !ok || !g.step(&mut log) {
                ok = false;
                break;
            }
        }
        if ok && !lying {
            g.settle(&mut log);
        }
    }
    log.finish();
}

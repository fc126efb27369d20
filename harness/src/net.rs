//! Connections and address book: C10, C11, C12, C14, C15 (node), C22.
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, SocketAddr};

use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::block::filter::{FilterHash, FilterHeader};
use nakamoto_common::block::store::{Genesis, Store};
use nakamoto_common::block::time::{Clock, LocalDuration, LocalTime};
use nakamoto_common::block::BlockHeader;
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_common::p2p::peer::{KnownAddress, Source};
use nakamoto_common::p2p::Domain;
use nakamoto_net::Link;
use nakamoto_p2p::{fsm, Command, Config, Event};

use crate::chain::mine;
use crate::node::*;
use crate::util::*;

pub fn svc(f: ServiceFlags) -> J {
    let b = f.to_u64();
    J::A((0..20).filter(|k| b >> k & 1 == 1).map(|k| J::I(1 << k)).collect())
}
pub fn link(l: Link) -> &'static str {
    if l.is_inbound() {
        "in"
    } else {
        "out"
    }
}

/// A regtest header chain.
pub fn headers(n: usize, rng: &fastrand::Rng) -> Vec<BlockHeader> {
    let mut v = vec![Network::Regtest.genesis()];
    for _ in 0..n {
        let p = v.last().unwrap();
        let h = BlockHeader { version: 4, prev_blockhash: p.block_hash(), merkle_root: Hash::all_zeros(), time: p.time + 600, bits: p.bits, nonce: 0 };
        v.push(mine(h, true, rng));
    }
    v
}

struct Sock {
    addr: SocketAddr,
    address: Address,
    ip: usize,
    key: usize,
    dom: &'static str,
    rt: bool,
    loc: bool,
}
struct World {
    socks: Vec<Sock>,
    ids: BTreeMap<SocketAddr, usize>,
    ips: BTreeMap<IpAddr, usize>,
    nonces: BTreeMap<u64, usize>,
}
impl World {
    fn id(&self, a: &SocketAddr) -> usize {
        *self.ids.get(a).unwrap_or(&0)
    }
    fn nonce(&mut self, n: u64) -> usize {
        let k = self.nonces.len() + 1;
        *self.nonces.entry(n).or_insert(k)
    }
    fn add(&mut self, addr: SocketAddr, rt: bool, loc: bool) -> usize {
        let n = self.ips.len() + 1;
        let ip = *self.ips.entry(addr.ip()).or_insert(n);
        let (key, dom) = match addr.ip() {
            IpAddr::V4(i) => ((i.octets()[0] as usize * 256 + i.octets()[1] as usize) % 255, "v4"),
            IpAddr::V6(i) => (((i.segments()[0] as usize) << 16 | i.segments()[1] as usize) % 255, "v6"),
        };
        self.socks.push(Sock { addr, address: Address::new(&addr, ServiceFlags::NONE), ip, key, dom, rt, loc });
        self.ids.insert(addr, self.socks.len());
        self.socks.len()
    }
    fn s(&self, id: usize) -> &Sock {
        &self.socks[id - 1]
    }
}

/// What the driver knows about a connection, to be a sensible (or senseless) counterpart.
#[derive(Clone, Default)]
struct View {
    sent: Vec<&'static str>,
    ping: Option<u64>,
    old: Vec<u64>,
}

const NET: ServiceFlags = ServiceFlags::NETWORK;
const CF: ServiceFlags = ServiceFlags::COMPACT_FILTERS;

pub struct Gen {
    w: World,
    node: Node,
    rng: fastrand::Rng,
    view: BTreeMap<usize, View>,
    book_ids: Vec<usize>,
    in_ids: Vec<usize>,
    height: usize,
    honest: u32,
    vnonce: u64,
    rcv: SocketAddr,
    flood: usize,
}

pub fn reason(r: &fsm::DisconnectReason) -> String {
    format!("{:?}", r).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

impl Gen {
    fn alist(&self, v: &[(u32, Address)], now: u32) -> J {
        J::A(
            v.iter()
                .map(|(t, a)| {
                    let id = a.socket_addr().map(|s| self.w.id(&s)).unwrap_or_else(|_| self.w.socks.iter().position(|s| s.dom == "tor").unwrap() + 1);
                    obj! {"s": id, "svc": svc(a.services), "age": if *t == 0 { 0 } else { *t as i64 - now as i64 }, "zero": *t == 0}
                })
                .collect(),
        )
    }

    fn log_in(&mut self, i: &In) -> J {
        let now = self.node.time.block_time();
        match i {
            In::Init => obj! {"k": "init"},
            In::Timer => obj! {"k": "timer"},
            In::Connected(a, l) => obj! {"k": "connected", "p": self.w.id(a), "l": link(*l)},
            In::Lost(a) => obj! {"k": "lost", "p": self.w.id(a)},
            In::Cmd(Command::Connect(a)) => obj! {"k": "cconnect", "p": self.w.id(a)},
            In::Cmd(Command::Disconnect(a)) => obj! {"k": "cdisconnect", "p": self.w.id(a)},
            In::Cmd(Command::ImportAddresses(v)) => {
                let v: Vec<_> = v.iter().map(|a| (0, a.clone())).collect();
                obj! {"k": "import", "list": self.alist(&v, now)}
            }
            In::Cmd(_) => panic!("unexpected command"),
            In::Msg(a, m) => {
                let p = self.w.id(a);
                if m.magic != self.node.network.magic() {
                    return obj! {"k": "magic", "p": p};
                }
                match &m.payload {
                    NetworkMessage::Version(v) => obj! {"k": "version", "p": p, "v": v.version, "svc": svc(v.services), "h": v.start_height,
                        "off": v.timestamp - now as i64, "rcv": v.receiver.socket_addr().map(|s| self.w.id(&s)).unwrap_or(0), "relay": v.relay, "vn": v.nonce},
                    NetworkMessage::Verack => obj! {"k": "verack", "p": p},
                    NetworkMessage::WtxidRelay => obj! {"k": "wtxidrelay", "p": p},
                    NetworkMessage::Ping(n) => obj! {"k": "ping", "p": p, "n": self.w.nonce(*n)},
                    NetworkMessage::Pong(n) => obj! {"k": "pong", "p": p, "n": self.w.nonce(*n)},
                    NetworkMessage::GetAddr => obj! {"k": "getaddr", "p": p},
                    NetworkMessage::Addr(v) => {
                        // A long message repeats its entries.
                        let n = v.len();
                        let few = if n > 300 { &v[..4] } else { &v[..] };
                        obj! {"k": "addr", "p": p, "n": n, "list": self.alist(few, now)}
                    }
                    _ => obj! {"k": "other", "p": p, "c": m.cmd().to_string()},
                }
            }
        }
    }

    fn log_out(&mut self, o: &Out) -> Option<J> {
        Some(match o {
            Out::Write(a, m) => {
                let p = self.w.id(a);
                match m {
                    NetworkMessage::Ping(n) => {
                        let v = self.view.entry(p).or_default();
                        if let Some(x) = v.ping.replace(*n) {
                            v.old.push(x);
                        }
                        obj! {"k": "w", "p": p, "m": "ping", "n": self.w.nonce(*n)}
                    }
                    NetworkMessage::Pong(n) => obj! {"k": "w", "p": p, "m": "pong", "n": self.w.nonce(*n)},
                    NetworkMessage::Addr(v) => obj! {"k": "w", "p": p, "m": "addr", "list": self.alist(v, 0)},
                    m => obj! {"k": "w", "p": p, "m": m.cmd().to_string()},
                }
            }
            Out::Connect(a, f) => obj! {"k": "connect", "p": self.w.id(a), "f": *f},
            Out::Disc(a, r) => {
                let p = self.w.id(a);
                self.view.remove(&p);
                obj! {"k": "disc", "p": p, "r": reason(r)}
            }
            Out::Ev(e) => match e {
                Event::PeerConnected { addr, .. } => obj! {"k": "ev", "e": "connected", "p": self.w.id(addr)},
                Event::PeerConnecting { addr, .. } => obj! {"k": "ev", "e": "connecting", "p": self.w.id(addr)},
                Event::PeerDisconnected { addr, .. } => obj! {"k": "ev", "e": "disconnected", "p": self.w.id(addr)},
                Event::PeerConnectionFailed { addr, .. } => obj! {"k": "ev", "e": "failed", "p": self.w.id(addr)},
                Event::PeerNegotiated { addr, link: l, services, persistent, height, receiver, version, relay, wtxid_relay, .. } => {
                    obj! {"k": "ev", "e": "negotiated", "p": self.w.id(addr), "l": link(*l), "svc": svc(*services), "pers": *persistent, "h": *height,
                    "rcv": receiver.socket_addr().map(|s| self.w.id(&s)).unwrap_or(0), "v": *version, "relay": *relay, "wtx": *wtxid_relay}
                }
                _ => return None,
            },
        })
    }

    fn turn(&mut self, log: &mut Log, ins: Vec<In>) -> bool {
        let jin: Vec<J> = ins.iter().map(|i| self.log_in(i)).collect();
        for i in &ins {
            match i {
                In::Lost(a) => {
                    let id = self.w.id(a);
                    self.view.remove(&id);
                }
                In::Connected(a, _) => {
                    let id = self.w.id(a);
                    self.view.insert(id, View::default());
                }
                _ => {}
            }
        }
        let node = &mut self.node;
        let out = match guard(|| node.turn(ins)) {
            Ok(o) => o,
            Err(e) => {
                log.put(obj! {"op": "panic", "t": self.node.now_ms(), "ins": jin, "what": e});
                return false;
            }
        };
        let jout: Vec<J> = out.iter().filter_map(|o| self.log_out(o)).collect();
        let (tx, rx) = crossbeam_channel::bounded(1);
        self.node.sm.command(Command::GetPeers(ServiceFlags::NONE, tx));
        let peers: Vec<J> = rx
            .recv()
            .unwrap()
            .into_iter()
            .map(|p| obj! {"p": self.w.id(&p.addr), "l": link(p.link), "svc": svc(p.services), "h": p.height})
            .collect();
        let mut book: Vec<_> = self.node.book.get().iter().map(|(ip, k)| (self.w.ips[ip], k.clone())).collect();
        book.sort_by_key(|x| x.0);
        let book: Vec<J> = book
            .into_iter()
            .map(|(ip, k)| obj! {"ip": ip, "s": self.w.id(&k.addr.socket_addr().unwrap()), "svc": svc(k.addr.services), "att": k.last_attempt.is_some(), "suc": k.last_success.is_some()})
            .collect();
        let off = self.node.clock.borrow().offset();
        log.put(obj! {"op": "turn", "t": self.node.now_ms(), "ins": jin, "out": jout, "peers": peers, "book": book, "off": off});
        true
    }

    /// Let time pass up to `to`, waking the node whenever it asked for it.
    fn advance(&mut self, log: &mut Log, to: LocalTime, fire_last: bool) -> bool {
        while let Some(t) = self.node.next_timer() {
            if t > to || (t == to && !fire_last) {
                break;
            }
            self.node.time = t.max(self.node.time);
            if !self.turn(log, vec![In::Timer]) {
                return false;
            }
        }
        self.node.time = to.max(self.node.time);
        true
    }

    fn services(&self, good: u32) -> ServiceFlags {
        let r = &self.rng;
        if chance(r, good) {
            if chance(r, 70) {
                NET | CF
            } else {
                NET
            }
        } else {
            *pick(r, &[ServiceFlags::NONE, CF, NET | CF | ServiceFlags::WITNESS, NET | ServiceFlags::BLOOM, NET | CF | ServiceFlags::GETUTXO, ServiceFlags::WITNESS])
        }
    }

    fn version(&mut self) -> NetworkMessage {
        let r = self.rng.clone();
        let good = self.honest.max(50);
        self.vnonce += 1;
        let nonce = if chance(&r, 4) { 1 + r.u64(..self.vnonce) } else { self.vnonce };
        let off = if chance(&r, 50) { 0 } else { *pick(&r, &[-9000i64, -4201, -4200, -4199, -600, -1, 1, 30, 4199, 4200, 4201, 10000]) };
        let h = if chance(&r, 80) { self.height as i32 } else { *pick(&r, &[0, 1, 83, 84, 85, self.height as i32 - 2015, self.height as i32 - 2016, self.height as i32 - 2017]) };
        let mut receiver = if chance(&r, 70) { Address::new(&self.rcv, ServiceFlags::NONE) } else { self.w.s(*pick(&r, &self.book_ids)).address.clone() };
        receiver.services = ServiceFlags::NONE;
        NetworkMessage::Version(VersionMessage {
            version: if chance(&r, good) { 70016 } else { *pick(&r, &[0, 70001, 70011, 70012, 70013, 70015, 70017, 80000]) },
            services: self.services(good),
            timestamp: self.node.time.block_time() as i64 + off,
            receiver,
            sender: Address::new(&self.rcv, NET),
            nonce,
            user_agent: "/x/".into(),
            start_height: h.max(0).min(self.height as i32),
            relay: r.bool(),
        })
    }

    fn addresses(&mut self, import: bool) -> Vec<(u32, Address)> {
        let r = self.rng.clone();
        let now = self.node.time.block_time();
        let n = *pick(&r, &[0, 1, 1, 2, 3, 5]);
        let mut v = Vec::new();
        if self.flood > 0 && chance(&r, 60) {
            let from = r.usize(..250);
            for k in from..(from + 10 + r.usize(..250)).min(300) {
                let mut a = self.w.s(self.flood + k).address.clone();
                a.services = NET | CF;
                v.push((now, a));
            }
            return v;
        }
        for _ in 0..n {
            // Nb. Inbound connections have ephemeral ports, which nobody announces.
            let id = 1 + r.usize(..self.w.socks.len());
            if self.in_ids.contains(&id) {
                continue;
            }
            let mut a = self.w.s(id).address.clone();
            a.services = self.services(75);
            let t = if import || chance(&r, 8) { 0 } else if chance(&r, 80) { now - r.u32(..100000) } else { *pick(&r, &[now + 3300, now + 3900, now + 100000]) };
            v.push((t, a));
        }
        if !import && !v.is_empty() && chance(&r, 6) {
            // A message that is too long, or just not.
            v = v.iter().cycle().take(4).cloned().collect();
            let n = *pick(&r, &[1000usize, 1001, 1500]);
            v = v.iter().cycle().take(n).cloned().collect();
        }
        v
    }

    fn message(&mut self, p: usize) -> In {
        let r = self.rng.clone();
        let a = self.w.s(p).addr;
        let v = self.view.entry(p).or_default().clone();
        let has = |m: &str| v.sent.contains(&m);
        let m: NetworkMessage;
        let tag: &'static str;
        let done = has("version") && has("verack");
        if !done && chance(&r, self.honest) {
            if !has("version") {
                tag = "version";
                m = self.version();
            } else if !has("wtxidrelay") && r.bool() {
                tag = "wtxidrelay";
                m = NetworkMessage::WtxidRelay;
            } else {
                tag = "verack";
                m = NetworkMessage::Verack;
            }
        } else if v.ping.is_some() && chance(&r, 60) {
            tag = "pong";
            let n = if chance(&r, 75) { v.ping.unwrap() } else if !v.old.is_empty() && r.bool() { *pick(&r, &v.old) } else { r.u64(..4) };
            m = NetworkMessage::Pong(n);
            if Some(n) == v.ping && chance(&r, 85) {
                let v = self.view.get_mut(&p).unwrap();
                v.ping = None;
                v.old.push(n);
            }
        } else {
            let k = if done && chance(&r, self.honest) { 3 + r.u32(..9) } else { r.u32(..14) };
            let (t, x) = match k {
                0 => ("version", self.version()),
                1 => ("verack", NetworkMessage::Verack),
                2 => ("wtxidrelay", NetworkMessage::WtxidRelay),
                3 | 4 => ("ping", NetworkMessage::Ping(if chance(&r, 20) { r.u64(..3) } else { r.u64(..) })),
                5 => ("pong", NetworkMessage::Pong(if !v.old.is_empty() { *pick(&r, &v.old) } else { 7 })),
                6 | 7 => ("addr", NetworkMessage::Addr(self.addresses(false))),
                8 => ("getaddr", NetworkMessage::GetAddr),
                9 => ("other", NetworkMessage::SendHeaders),
                10 => ("other", NetworkMessage::FeeFilter(1000)),
                11 => ("other", NetworkMessage::Headers(vec![])),
                12 => return In::Msg(a, RawNetworkMessage { magic: self.node.network.magic() ^ 1, payload: NetworkMessage::Verack }),
                _ => ("other", NetworkMessage::MemPool),
            };
            tag = t;
            m = x;
        }
        self.view.entry(p).or_default().sent.push(tag);
        self.node.msg(a, m)
    }

    /// Something that may happen now; `busy` are the sockets already touched by this turn's connects and losses.
    fn input(&mut self, busy: &mut BTreeSet<usize>) -> Option<In> {
        let r = self.rng.clone();
        let open: Vec<(usize, bool)> = self.node.socks.iter().map(|(a, e)| (self.w.id(a), *e)).filter(|(p, _)| !busy.contains(p)).collect();
        let est: Vec<usize> = open.iter().filter(|x| x.1).map(|x| x.0).collect();
        let dial: Vec<usize> = open.iter().filter(|x| !x.1).map(|x| x.0).collect();
        match r.u32(..100) {
            0..=24 if !dial.is_empty() => {
                let p = *pick(&r, &dial);
                let a = self.w.s(p).addr;
                busy.insert(p);
                Some(if chance(&r, 80) { In::Connected(a, Link::Outbound) } else { In::Lost(a) })
            }
            25..=32 => {
                let free: Vec<usize> = self.in_ids.iter().filter(|p| !self.node.socks.contains_key(&self.w.s(**p).addr) && !busy.contains(p)).copied().collect();
                if free.is_empty() {
                    return None;
                }
                let p = *pick(&r, &free);
                busy.insert(p);
                Some(In::Connected(self.w.s(p).addr, Link::Inbound))
            }
            33..=36 if !est.is_empty() => {
                let p = *pick(&r, &est);
                busy.insert(p);
                Some(In::Lost(self.w.s(p).addr))
            }
            37..=39 => Some(In::Cmd(Command::Connect(self.w.s(*pick(&r, &self.book_ids)).addr))),
            40 | 41 if !open.is_empty() => Some(In::Cmd(Command::Disconnect(self.w.s(pick(&r, &open).0).addr))),
            42..=44 => {
                let v = self.addresses(true).into_iter().map(|x| x.1).collect();
                Some(In::Cmd(Command::ImportAddresses(v)))
            }
            _ if !est.is_empty() => {
                let p = *pick(&r, &est);
                Some(self.message(p))
            }
            _ => None,
        }
    }
}

fn world(seed: u64, chains: &[(Vec<BlockHeader>, Vec<StoredHeader>)]) -> Gen {
    let rng = fastrand::Rng::with_seed(seed);
    let mut w = World { socks: vec![], ids: BTreeMap::new(), ips: BTreeMap::new(), nonces: BTreeMap::new() };
    let mut book_ids = Vec::new();
    let mut in_ids = Vec::new();
    for k in 0..5u8 {
        book_ids.push(w.add(([40 + k, 1, 0, 1], 8333).into(), true, false));
    }
    book_ids.push(w.add(([40, 1, 7, 7], 8333).into(), true, false)); // same range as the first
    book_ids.push(w.add(([41, 1, 0, 1], 8334).into(), true, false)); // same host as the second
    for k in 0..2u16 {
        book_ids.push(w.add((std::net::Ipv6Addr::new(0x2a00, k, 0, 0, 0, 0, 0, 1), 8333).into(), true, false));
    }
    book_ids.push(w.add(([192, 168, 0, 9], 8333).into(), false, true));
    let rcv: SocketAddr = ([77, 7, 7, 7], 8333).into();
    book_ids.push(w.add(rcv, true, false));
    for (a, rt, loc) in [([0u8, 1, 2, 3], false, false), ([192, 0, 2, 5], false, false), ([255, 255, 255, 255], false, false), ([10, 0, 0, 1], false, true), ([127, 0, 0, 1], false, true), ([169, 254, 1, 1], false, true)] {
        w.add((a, 8333).into(), rt, loc);
    }
    for (k, a) in [[50u8, 1, 0, 1], [51, 1, 0, 1], [41, 1, 0, 1], [42, 1, 0, 1], [192, 168, 0, 20]].iter().enumerate() {
        in_ids.push(w.add((*a, 50000 + k as u16).into(), a[0] != 192, a[0] == 192));
    }
    // Many addresses of one range.
    let mut flood = 0;
    if chance(&rng, 4) {
        flood = w.socks.len() + 1;
        for k in 0..300usize {
            w.add(([60, 5, (k / 200) as u8, (k % 200) as u8], 8333).into(), true, false);
        }
    }
    // An onion address has no socket address.
    let t = w.add(([1, 1, 1, 1], 1).into(), true, false);
    w.ids.remove(&w.socks[t - 1].addr);
    w.ips.remove(&w.socks[t - 1].addr.ip());
    w.socks[t - 1].dom = "tor";
    w.socks[t - 1].address = Address { services: ServiceFlags::NONE, address: [0xFD87, 0xD87E, 0xEB43, 1, 2, 3, 4, 5], port: 8333 };

    let (hdrs, fhs) = pick(&rng, chains);
    let time = LocalTime::from_block_time(hdrs.last().unwrap().time + 60) + LocalDuration::from_millis(rng.u64(..1000) as u128);
    let tree = Tree::from(Memory::new(NonEmpty::from_vec(hdrs.clone()).unwrap()), Network::Regtest.params(), &[]).unwrap();
    let mut fs: Memory<StoredHeader> = Memory::genesis(Network::Regtest);
    fs.put(fhs[1..].iter().copied()).unwrap();
    let filters = FilterCache::load(fs).unwrap();
    let mut book = Book::new();
    let persist: Vec<usize> = if chance(&rng, 35) {
        let mut v = book_ids.clone();
        rng.shuffle(&mut v);
        v.truncate(1 + rng.usize(..3));
        v
    } else {
        vec![]
    };
    for id in &book_ids {
        let s = &w.socks[id - 1];
        if chance(&rng, 45) && s.rt && !s.loc && s.addr != rcv {
            let services = *pick(&rng, &[NET | CF, NET | CF, NET, ServiceFlags::NONE]);
            book.entry(s.addr.ip()).or_insert_with(|| KnownAddress::new(Address::new(&s.addr, services), Source::Dns, None));
        }
    }
    let cfg = Config {
        network: Network::Regtest,
        params: Network::Regtest.params(),
        connect: persist.iter().map(|p| w.s(*p).addr).collect(),
        domains: pick(&rng, &[vec![Domain::IPV4, Domain::IPV6], vec![Domain::IPV4, Domain::IPV6], vec![Domain::IPV4], vec![Domain::IPV6]]).clone(),
        ping_timeout: LocalDuration::from_secs(*pick(&rng, &[10, 30, 60])),
        limits: fsm::Limits { max_outbound_peers: *pick(&rng, &[1, 2, 2, 3, 4, 8]), max_inbound_peers: *pick(&rng, &[0, 1, 2, 3, 16]), filter_cache_size: 1024 * 1024 },
        ..Config::default()
    };
    let mut node = Node::new(Network::Regtest, tree, filters, book, time, rng.u64(..), cfg.clone());
    for id in &book_ids {
        if chance(&rng, 8) {
            node.undialable.insert(w.s(*id).addr);
        }
    }
    let mut g = Gen { w, node, view: BTreeMap::new(), book_ids, in_ids, height: hdrs.len() - 1, honest: *pick(&rng, &[50, 80, 90, 95]), vnonce: 10, rcv, flood, rng };
    g.view.clear();
    CFG.with(|c| *c.borrow_mut() = Some((cfg, persist)));
    g
}
thread_local!(static CFG: std::cell::RefCell<Option<(Config, Vec<usize>)>> = std::cell::RefCell::new(None));

fn world_line(g: &Gen) -> J {
    let (cfg, persist) = CFG.with(|c| c.borrow().clone().unwrap());
    let addr: Vec<J> = g.w.socks.iter().map(|s| obj! {"ip": s.ip, "key": s.key, "dom": s.dom, "rt": s.rt, "loc": s.loc}).collect();
    let mut book: Vec<_> = g.node.book.get().iter().map(|(ip, k)| (g.w.ips[ip], g.w.id(&k.addr.socket_addr().unwrap()), k.addr.services)).collect();
    book.sort_by_key(|b| b.0);
    let book: Vec<J> = book.into_iter().map(|(ip, s, v)| obj! {"ip": ip, "s": s, "svc": svc(v)}).collect();
    let doms: Vec<&str> = cfg.domains.iter().map(|d| if *d == Domain::IPV4 { "v4" } else { "v6" }).collect();
    obj! {"op": "world", "addr": addr, "persist": persist, "target": cfg.limits.max_outbound_peers, "maxin": cfg.limits.max_inbound_peers,
    "doms": doms, "pingto": cfg.ping_timeout.as_millis() as u64, "height": g.height, "book": book}
}

pub fn filter_headers(n: usize) -> Vec<StoredHeader> {
    let mut v = vec![StoredHeader::genesis(Network::Regtest)];
    for k in 0..n {
        let hash = FilterHash::hash(&(k as u64).to_le_bytes());
        let header: FilterHeader = hash.filter_header(&v.last().unwrap().header);
        v.push(StoredHeader { hash, header });
    }
    v
}

fn run(seed: u64, steps: usize, chains: &[(Vec<BlockHeader>, Vec<StoredHeader>)], log: &mut Log) {
    let mut g = world(seed, chains);
    log.put(world_line(&g));
    if !g.turn(log, vec![In::Init]) {
        return;
    }
    let r = g.rng.clone();
    let slow = chance(&r, 20);
    // Days without any reachable peer.
    if chance(&r, 2) && CFG.with(|c| !c.borrow().as_ref().unwrap().1.is_empty()) {
        for id in g.book_ids.clone() {
            let a = g.w.s(id).addr;
            if chance(&r, 80) && !g.node.socks.contains_key(&a) {
                g.node.undialable.insert(a);
            }
        }
        for _ in 0..8 {
            let to = g.node.time + LocalDuration::from_secs(10 * 3600);
            if !g.advance(log, to, true) {
                return;
            }
        }
    }
    for _ in 0..steps {
        let ok = if chance(&r, if slow { 45 } else { 15 }) {
            let now = g.node.time;
            let next = g.node.next_timer().unwrap_or(now);
            let (to, fire) = match r.u32(..10) {
                0 | 1 => (now + LocalDuration::from_millis(r.u64(..3000) as u128), true),
                2 | 3 => (next.max(now), true),
                4 => (next.max(now), false),
                5 => (now + LocalDuration::from_secs(*pick(&r, &[6, 12, 10, 30])), true),
                6 | 7 => (now + LocalDuration::from_secs(60 + r.u64(..3)), true),
                8 => (now + LocalDuration::from_secs(120 + r.u64(..70)), true),
                _ => (now + LocalDuration::from_secs(if slow { r.u64(..4000) } else { r.u64(..300) }), true),
            };
            g.advance(log, to, fire)
        } else {
            let mut busy = BTreeSet::new();
            let n = if chance(&r, 25) { 2 + r.usize(..3) } else { 1 };
            let mut ins = Vec::new();
            for _ in 0..n {
                if let Some(i) = g.input(&mut busy) {
                    ins.push(i);
                }
            }
            if ins.is_empty() {
                continue;
            }
            g.turn(log, ins)
        };
        if !ok {
            return;
        }
    }
}

pub fn main(args: &[String]) {
    let seed = num(args, "--seed", 1);
    let runs = num(args, "--runs", 10);
    let steps = num(args, "--steps", 60) as usize;
    let rng = fastrand::Rng::with_seed(99);
    let chains: Vec<_> = [3usize, 2100].iter().map(|n| (headers(*n, &rng), filter_headers(*n))).collect();
    let mut log = Log::create(&flag(args, "--out").expect("--out"));
    for k in 0..runs {
        run(seed.wrapping_mul(1_000_003).wrapping_add(k), steps, &chains, &mut log);
    }
    log.finish();
}

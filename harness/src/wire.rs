//! Drives the client's service with several peers whose bytes arrive in chunks, interleaved with
//! each other. What was decoded is visible by the answers: a unit of the stream is a few messages
//! that have no answer and a ping, which has one. Every connection makes a trace of its own.
use crate::node::{Book, FStore, Shared, Tree};
use crate::util::*;
use nakamoto_chain::filter::cache::FilterCache;
use nakamoto_chain::store::Memory;
use nakamoto_common::bitcoin::consensus::{deserialize, serialize};
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{CommandString, NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::bitcoin_hashes::{sha256d, Hash};
use nakamoto_common::block::time::{AdjustedTime, RefClock};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_net::time::LocalTime;
use nakamoto_net::{Disconnect, Io, Link, StateMachine as _};
use nakamoto_p2p::DisconnectReason;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::io;
use std::net::SocketAddr;
use std::sync::Arc;

struct Conn {
    bytes: Vec<u8>,
    pos: usize,
    nonces: Vec<u64>,
    got: usize,
    mode: u32,
    lines: Vec<J>,
    mute: bool,
}

fn frame(magic: u32, payload: NetworkMessage) -> Vec<u8> {
    serialize(&RawNetworkMessage { magic, payload })
}
fn reframe(mut e: Vec<u8>, payload: Vec<u8>) -> Vec<u8> {
    e.truncate(24);
    e[16..20].copy_from_slice(&(payload.len() as u32).to_le_bytes());
    e[20..24].copy_from_slice(&sha256d::Hash::hash(&payload)[..4]);
    e.extend(payload);
    e
}

pub fn main(a: &[String]) {
    let rng = fastrand::Rng::with_seed(num(a, "--seed", 1));
    let runs = num(a, "--runs", 10);
    let mut log = Log::create(&flag(a, "--out").unwrap());
    let net = Network::Regtest;
    let magic = net.magic();
    for _ in 0..runs {
        let now = LocalTime::from_secs(net.genesis().time as u64 + 3600);
        let tree = Tree::from(Memory::new(NonEmpty::new(net.genesis())), net.params(), &[]).unwrap();
        let filters: Shared<FStore> = Shared::new(FilterCache::load(Memory::genesis(net)).unwrap());
        let clock: RefClock<AdjustedTime<SocketAddr>> = RefClock::from(AdjustedTime::new(now));
        let cfg = nakamoto_client::Config { network: net, ..Default::default() };
        let mut svc = nakamoto_client::Service::new(tree, filters, Shared::new(Book::new()), clock, fastrand::Rng::with_seed(rng.u64(..)), cfg);
        let local: SocketAddr = ([127, 0, 0, 1], 9999).into();
        svc.tick(now);
        svc.initialize(now);
        while svc.next().is_some() {}

        let peers: Vec<SocketAddr> = (0..1 + rng.u8(..4)).map(|k| ([60 + k, 1, 1, 1], 40000 + k as u16).into()).collect();
        let mut conns: BTreeMap<SocketAddr, Conn> = BTreeMap::new();
        let mut nonce = 0;
        let mut left = 2 + rng.usize(..8);
        while left > 0 || !conns.is_empty() {
            let p = *pick(&rng, &peers);
            svc.tick(now);
            let mut fed = 0;
            if let Some(c) = conns.get_mut(&p) {
                if c.pos == c.bytes.len() || chance(&rng, 4) {
                    // The peer goes away, possibly in the middle of a message.
                    svc.disconnected(&p, Disconnect::ConnectionError(Arc::new(io::Error::from(io::ErrorKind::ConnectionReset))));
                    while svc.next().is_some() {}
                    for l in conns.remove(&p).unwrap().lines {
                        log.put(l);
                    }
                    continue;
                }
                let rest = c.bytes.len() - c.pos;
                let k = match c.mode {
                    0 if c.bytes.len() < 3000 => 1,
                    1 => rest,
                    2 => rng.usize(1..=rest.min(30)),
                    3 => rng.usize(1..=rest),
                    _ => if rng.bool() { 24.min(rest) } else { rng.usize(..=rest.min(64)) },
                };
                svc.message_received(&p, Cow::Borrowed(&c.bytes[c.pos..c.pos + k]));
                c.pos += k;
                fed = k;
            } else if left > 0 {
                left -= 1;
                let mut c = Conn { bytes: vec![], pos: 0, nonces: vec![], got: 0, mode: rng.u32(..5), lines: vec![], mute: false };
                let (mut lens, mut kinds) = (vec![], vec![]);
                for unit in 0..1 + rng.usize(..6) {
                    let mut e = vec![];
                    if unit == 0 {
                        let me = Address::new(&p, ServiceFlags::NETWORK);
                        e.extend(frame(magic, NetworkMessage::Version(VersionMessage {
                            version: 70016, services: ServiceFlags::NETWORK, timestamp: now.as_secs() as i64, receiver: me.clone(), sender: me, nonce: 1000 + left as u64,
                            user_agent: "/x/".into(), start_height: 0, relay: false,
                        })));
                        e.extend(frame(magic, NetworkMessage::Verack));
                    }
                    for _ in 0..rng.usize(..3) {
                        let n = if chance(&rng, 2) { 100_000 + rng.usize(..100_000) } else { rng.usize(..50) };
                        e.extend(frame(magic, match rng.u32(..4) {
                            0 => NetworkMessage::SendHeaders,
                            1 => NetworkMessage::Pong(5),
                            2 => NetworkMessage::FeeFilter(7),
                            _ => NetworkMessage::Unknown { command: CommandString::try_from_static("foo").unwrap(), payload: (0..n).map(|_| rng.u8(..)).collect() },
                        }));
                    }
                    let bad = chance(&rng, 6);
                    nonce += 1;
                    let ping = frame(magic, NetworkMessage::Ping(nonce));
                    e.extend(match rng.u32(..3) {
                        _ if !bad => ping,
                        0 => {
                            let mut x = ping;
                            x[20 + rng.usize(..12)] ^= 1 << rng.u32(..8);
                            x
                        }
                        1 => reframe(ping, (0..rng.usize(..8)).map(|_| rng.u8(..)).collect()),
                        _ => reframe(frame(magic, NetworkMessage::Headers(vec![])), vec![200, 1, 2, 3]),
                    });
                    c.nonces.push(nonce);
                    lens.push(e.len());
                    kinds.push(if bad { "bad" } else { "ok" });
                    c.bytes.extend(e);
                }
                c.lines.push(obj! {"op": "reset", "lens": lens, "kinds": kinds});
                conns.insert(p, c);
                svc.connected(p, &local, Link::Inbound);
            }
            // What came of it.
            let mut out: BTreeMap<SocketAddr, Vec<i64>> = BTreeMap::new();
            let mut gone = vec![];
            while let Some(io) = svc.next() {
                match io {
                    Io::Write(q, b) => match deserialize::<RawNetworkMessage>(&b).map(|m| m.payload) {
                        Ok(NetworkMessage::Pong(n)) => {
                            let c = conns.get_mut(&q);
                            out.entry(q).or_default().push(match c {
                                Some(c) if c.nonces.get(c.got) == Some(&n) => {
                                    c.got += 1;
                                    c.got as i64
                                }
                                _ => -1,
                            });
                        }
                        Ok(_) => {}
                        Err(_) => out.entry(q).or_default().push(-1),
                    },
                    Io::Disconnect(q, r) => {
                        gone.push((q, matches!(r, DisconnectReason::DecodeError(_))));
                        svc.disconnected(&q, Disconnect::StateMachine(r));
                    }
                    _ => {}
                }
            }
            // A change for a peer that sent nothing shows as well.
            for q in peers.iter() {
                let err = gone.iter().any(|(g, e)| g == q && *e);
                let lost = gone.iter().any(|(g, _)| g == q);
                let o = out.remove(q).unwrap_or_default();
                if let Some(c) = conns.get_mut(q) {
                    let n = if *q == p { fed } else { 0 };
                    if n > 0 || !o.is_empty() || lost {
                        let o = if lost && !err { vec![-1] } else { o };
                        if !c.mute {
                            c.lines.push(obj! {"op": "input", "n": n, "eager": true, "out": o, "err": err});
                        }
                        c.mute |= lost;
                    }
                    if lost {
                        for l in conns.remove(q).unwrap().lines {
                            log.put(l);
                        }
                    }
                }
            }
        }
    }
    log.finish();
}

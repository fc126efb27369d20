//! Drivers for the self-contained parts: clock, timers, decoder, peer store, event bus, fee estimator,
//! filter cache and file stores. Each writes one trace; a "reset" line starts every history.
use crate::util::*;
use std::net;

type R = fastrand::Rng;

pub fn args(a: &[String]) -> (R, u64, Log) {
    let rng = R::with_seed(num(a, "--seed", 1));
    (rng, num(a, "--runs", 10), Log::create(&flag(a, "--out").expect("--out")))
}

// ---------------------------------------------------------------- clock (C15)
pub fn clock(a: &[String]) {
    use nakamoto_common::block::time::{AdjustedClock, AdjustedTime, Clock, LocalDuration, LocalTime, RefClock};
    let (rng, runs, mut log) = args(a);
    let clip = |v: i64| v.clamp(-1_000_000_000, 1_000_000_000);
    for run in 0..runs {
        let mut t = 1_500_000_000 + rng.u64(..100_000_000);
        let mut c: RefClock<AdjustedTime<u32>> = RefClock::from(AdjustedTime::new(LocalTime::from_secs(t)));
        log.put(obj! {"op":"reset","t":t,"off":c.borrow().offset(),"get":c.block_time()});
        let long = run % 10 == 0;
        let steps = if long { 200 + rng.usize(..120) } else { 3 + rng.usize(..16) };
        let nsrc = if long { 260 } else { 3 + rng.u32(..14) };
        let regime = rng.u32(..6);
        for k in 0..steps {
            match rng.u32(..12) {
                0 => {
                    t += rng.u64(..9000);
                    c.set(LocalTime::from_secs(t) + LocalDuration::from_millis(rng.u32(..1000) as u128));
                    log.put(obj! {"op":"set","t":t,"off":c.borrow().offset(),"get":c.block_time()});
                }
                1 if !long => {
                    let q = 1_400_000_000 + rng.u32(..200_000_000);
                    let r = c.borrow().from(q);
                    log.put(obj! {"op":"from","q":q,"res":r,"off":c.borrow().offset(),"get":c.block_time()});
                }
                _ => {
                    let src = if long && rng.u32(..4) > 0 { k as u32 } else { rng.u32(..nsrc) };
                    let s = match regime {
                        0 => rng.i64(-200..200),
                        1 => *pick(&rng, &[-4201, -4200, -4199, 0, 4199, 4200, 4201]),
                        2 => rng.i64(-9000..9000),
                        3 => *pick(&rng, &[i64::MIN, i64::MIN + 1, i64::MAX, 0, 1, -1, 4200]),
                        4 => *pick(&rng, &[i64::MIN, i64::MIN, i64::MIN, -4200]),
                        _ => rng.i64(-30..4500),
                    };
                    c.record_offset(src, s);
                    log.put(obj! {"op":"record","src":src,"s":clip(s),"off":clip(c.borrow().offset()),"get":guard(|| c.block_time()).map(|v| v as i64).unwrap_or(-1)});
                }
            }
        }
    }
    log.finish();
}

// ---------------------------------------------------------------- timers (C16)
pub fn timers(a: &[String]) {
    use nakamoto_net_poll::time::{LocalDuration, LocalTime, TimeoutManager};
    let (rng, runs, mut log) = args(a);
    for _ in 0..runs {
        let th = *pick(&rng, &[0u64, 1, 2, 5, 10]);
        let mut tm: TimeoutManager<u32> = TimeoutManager::new(LocalDuration::from_millis(th as u128));
        let at = |t: u64| LocalTime::from_secs(1_600_000_000) + LocalDuration::from_millis(t as u128);
        let mut now = 50u64;
        log.put(obj! {"op":"reset","th":th});
        let many = chance(&rng, 10);
        let span = if many { 2000 } else { *pick(&rng, &[8u64, 40, 120]) };
        for k in 0..(4 + rng.u32(..(if many { 400 } else { 40 }))) {
            match if many && chance(&rng, 90) { 0 } else { rng.u32(..10) } {
                0..=4 => {
                    let t = now.saturating_sub(rng.u64(..4)) + rng.u64(..span);
                    let r = tm.register(k, at(t));
                    log.put(obj! {"op":"register","k":k,"t":t,"res":r,"len":tm.len(),"emp":tm.is_empty()});
                }
                5..=6 => {
                    let q = now.saturating_sub(rng.u64(..3)) + rng.u64(..span / 2);
                    let r = tm.next(at(q)).map(|d| d.as_millis() as i64).unwrap_or(-1);
                    log.put(obj! {"op":"next","now":q,"res":r,"len":tm.len(),"emp":tm.is_empty()});
                }
                _ => {
                    now += rng.u64(..span / 2);
                    let pre = rng.u32(..3);
                    let mut woken: Vec<u32> = (0..pre).map(|i| 1000 + i).collect();
                    let n = tm.wake(at(now), &mut woken);
                    let kept = woken.len() >= pre as usize && (0..pre).all(|i| woken[i as usize] == 1000 + i);
                    let w: Vec<u32> = woken.iter().skip(pre as usize).cloned().collect();
                    log.put(obj! {"op":"wake","now":now,"n":n,"kept":kept,"woken":w,"len":tm.len(),"emp":tm.is_empty()});
                }
            }
        }
    }
    log.finish();
}

// ---------------------------------------------------------------- event bus (C20)
pub fn bus(a: &[String]) {
    use nakamoto_net::event::{broadcast, Emitter, Publisher};
    let (rng, runs, mut log) = args(a);
    for run in 0..runs {
        if run % 8 == 7 {
            bus_threads(&rng, &mut log);
            continue;
        }
        // An event e is forwarded as the events 10e+1 .. 10e+(e % 4).
        let (mut b, sub) = broadcast(|e: u32, em: &Emitter<u32>| {
            for i in 0..(if e >= 1000 { 3000 } else { e % 4 }) {
                em.emit(10 * e + i + 1);
            }
        });
        let mut subs: Vec<Option<crossbeam_channel::Receiver<u32>>> = vec![];
        let mut handles = vec![sub];
        log.put(obj! {"op":"reset"});
        for e in 0..(5 + rng.u32(..40)) {
            match rng.u32(..12) {
                0..=1 => {
                    let h = pick(&rng, &handles).clone();
                    subs.push(Some(h.subscribe()));
                    if chance(&rng, 30) {
                        handles.push(h);
                    }
                    log.put(obj! {"op":"subscribe","s":subs.len()});
                }
                2 if !subs.is_empty() => {
                    let i = rng.usize(..subs.len());
                    if subs[i].take().is_some() {
                        log.put(obj! {"op":"drop","s":i + 1});
                    }
                }
                3..=4 if !subs.is_empty() => {
                    let i = rng.usize(..subs.len());
                    if let Some(r) = &subs[i] {
                        let n = if chance(&rng, 50) { usize::MAX } else { rng.usize(..4) };
                        let got: Vec<u32> = r.try_iter().take(n).collect();
                        log.put(obj! {"op":"drain","s":i + 1,"got":got,"all":n == usize::MAX});
                    }
                }
                _ => {
                    // Sometimes, a great many events that subscribers haven't read yet.
                    let e = if run % 8 == 6 && chance(&rng, 6) { 1000 + 300 * e } else { e };
                    b.publish(e);
                    log.put(obj! {"op":"publish","e":e,"out":(0..(if e >= 1000 { 3000 } else { e % 4 })).map(|i| 10 * e + i + 1).collect::<Vec<u32>>()});
                }
            }
        }
        drop(b);
        drop(handles);
        for (i, s) in subs.iter().enumerate() {
            if let Some(r) = s {
                let got: Vec<u32> = r.try_iter().collect();
                log.put(obj! {"op":"drain","s":i + 1,"got":got,"all":true});
            }
        }
    }
    log.finish();
}

fn bus_threads(rng: &R, log: &mut Log) {
    use nakamoto_net::event::{broadcast, Emitter, Publisher};
    use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
    use std::sync::Arc;
    let (mut b, sub) = broadcast(|e: u32, em: &Emitter<u32>| em.emit(e));
    let (started, done) = (Arc::new(AtomicU32::new(0)), Arc::new(AtomicU32::new(0)));
    let total = 200 + rng.u32(..400);
    let mut threads = vec![];
    let gate = Arc::new(std::sync::Barrier::new(5));
    for _ in 0..4 {
        let gate = gate.clone();
        let (sub, started, done, r) = (sub.clone(), started.clone(), done.clone(), R::with_seed(rng.u64(..)));
        threads.push(std::thread::spawn(move || {
            let mut seen = vec![];
            gate.wait();
            for _ in 0..3 {
                for _ in 0..r.u32(..30_000) {
                    std::hint::spin_loop();
                }
                let lo = done.load(SeqCst);
                let rx = sub.subscribe();
                let hi = started.load(SeqCst);
                if r.bool() {
                    // Read a few, then go away while events are being published.
                    let (mut got, want) = (vec![], r.usize(..20));
                    while got.len() < want {
                        let fin = done.load(SeqCst) == total;
                        match rx.try_recv() {
                            Ok(e) => got.push(e),
                            Err(_) if fin => break,
                            Err(_) => std::thread::yield_now(),
                        }
                    }
                    seen.push((lo, hi, got, false));
                } else {
                    let mut got = vec![];
                    loop {
                        let fin = done.load(SeqCst) == total;
                        match rx.try_recv() {
                            Ok(e) => got.push(e),
                            Err(_) if fin => break,
                            Err(_) => std::thread::yield_now(),
                        }
                    }
                    seen.push((lo, hi, got, true));
                    break;
                }
            }
            seen
        }));
    }
    gate.wait();
    for e in 1..=total {
        for _ in 0..rng.u32(..60) {
            std::hint::spin_loop();
        }
        started.store(e, SeqCst);
        b.publish(e);
        done.store(e, SeqCst);
    }
    drop(b);
    drop(sub);
    log.put(obj! {"op":"reset"});
    for t in threads {
        for (lo, hi, got, all) in t.join().expect("bus thread") {
            // Summarised: first, last, and whether consecutive; `all`: read until the bus closed.
            let cons = got.windows(2).all(|w| w[1] == w[0] + 1);
            log.put(obj! {"op":"conc","lo":lo,"hi":hi,"n":got.len(),"first":got.first().cloned().unwrap_or(0),"last":got.last().cloned().unwrap_or(0),"cons":cons,"all":all,"total":total});
        }
    }
}

// ---------------------------------------------------------------- filter cache (C24)
pub fn fcache(a: &[String]) {
    use nakamoto_common::block::filter::BlockFilter;
    use nakamoto_p2p::fsm::filter_cache::FilterCache;
    let (rng, runs, mut log) = args(a);
    for _ in 0..runs {
        let cap = *pick(&rng, &[0usize, 1, 5, 8, 20, 64]);
        let mut c: FilterCache<BlockFilter> = FilterCache::new(cap);
        log.put(obj! {"op":"reset","cap":cap});
        let regime = rng.u32(..3);
        let mut pushed: Vec<(u64, Vec<u8>)> = vec![];
        for k in 0..(4 + rng.usize(..40)) {
            let mut ev: Vec<(&'static str, J)> = vec![];
            match rng.u32(..10) {
                0..=6 => {
                    let h = match regime {
                        0 => c.end().unwrap_or(3) + 1,
                        1 => rng.u64(1..12),
                        _ => (c.end().unwrap_or(4) + rng.u64(..3)).saturating_sub(1),
                    };
                    let len = if chance(&rng, 10) { cap + 1 } else { rng.usize(..=cap.min(9)) };
                    let content: Vec<u8> = (0..len).map(|i| (k * 31 + i) as u8).collect();
                    let res = c.push(h, BlockFilter::new(&content));
                    pushed.push((h, content));
                    ev.push(("op", "push".into()));
                    ev.push(("h", h.into()));
                    ev.push(("n", len.into()));
                    ev.push(("id", pushed.len().into()));
                    ev.push(("res", res.into()));
                }
                7..=8 => {
                    let h = rng.u64(..14);
                    c.rollback(h);
                    ev.push(("op", "rollback".into()));
                    ev.push(("h", h.into()));
                }
                _ => ev.push(("op", "look".into())),
            }
            // Identify what is held by content.
            let id = |h: u64, f: &BlockFilter| -> i64 { pushed.iter().rposition(|(ph, c)| *ph == h && *c == f.content).map(|i| i as i64 + 1).unwrap_or(-1) };
            let held: Vec<J> = c.iter().map(|(h, f)| J::from((*h, id(*h, f), f.content.len()))).collect();
            let got: Vec<J> = (0..16u64).filter_map(|h| c.get(&h).map(|f| J::from((h, id(h, f), f.content.len())))).collect();
            let hs: Vec<u64> = c.heights().collect();
            ev.push(("held", held.into()));
            ev.push(("got", if c.end().unwrap_or(0) < 16 { got.into() } else { J::A(vec![]) }));
            ev.push(("hasgot", (c.end().unwrap_or(0) < 16).into()));
            ev.push(("heights", hs.into()));
            ev.push(("size", c.size().into()));
            ev.push(("capacity", c.capacity().into()));
            ev.push(("len", c.len().into()));
            ev.push(("emp", c.is_empty().into()));
            ev.push(("start", c.start().map(|h| h as i64).unwrap_or(-1).into()));
            ev.push(("end", c.end().map(|h| h as i64).unwrap_or(-1).into()));
            log.put(J::O(ev));
        }
    }
    log.finish();
}

// ---------------------------------------------------------------- fees (C21)
pub fn fees(a: &[String]) {
    use nakamoto_common::bitcoin::{Block, BlockHeader, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxMerkleNode, TxOut, Witness};
    use nakamoto_common::bitcoin_hashes::Hash;
    use nakamoto_p2p::fsm::fees::FeeEstimator;
    let (rng, runs, mut log) = args(a);
    let header = BlockHeader { version: 1, prev_blockhash: nakamoto_common::block::BlockHash::all_zeros(), merkle_root: TxMerkleNode::all_zeros(), time: 0, bits: 0, nonce: 0 };
    for _ in 0..runs {
        let mut fe = FeeEstimator::default();
        log.put(obj! {"op":"reset"});
        // Our own view of the chain, to generate blocks without double spends.
        type Out = (OutPoint, u64, (i64, u32)); // outpoint, value, abstract outpoint
        let mut chain: Vec<(u64, Vec<Out>)> = vec![]; // height processed, spendable outputs after it
        let mut ids = 0i64;
        let mut snaps = 0usize;
        let mut orphans: Vec<Out> = vec![];
        let deep = chance(&rng, 15);
        for _ in 0..(4 + rng.u32(..(if deep { 60 } else { 22 }))) {
            if chance(&rng, if deep { 8 } else { 22 }) && !chain.is_empty() {
                let top = chain.last().unwrap().0;
                let h = match rng.u32(..8) {
                    0 => top + rng.u64(..3),
                    1 => rng.u64(..top + 1),
                    _ => top.saturating_sub(1 + rng.u64(..3)),
                };
                fe.rollback(h);
                // Deeper than the estimator promises to handle: start over.
                let dropped = chain.iter().filter(|(x, _)| *x > h).count();
                if dropped > snaps {
                    break;
                }
                snaps -= dropped;
                let before: Vec<Out> = chain.iter().filter(|(x, _)| *x > h).flat_map(|c| c.1.clone()).collect();
                chain.retain(|(x, _)| *x <= h);
                // Outputs of the blocks rolled back, which must be unknown from here on.
                orphans.extend(before.into_iter().filter(|o| !chain.iter().any(|c| c.1.iter().any(|p| p.2 == o.2))));
                log.put(obj! {"op":"rollback","h":h});
                continue;
            }
            let top = chain.last().map(|c| c.0).unwrap_or(0);
            let h = if chance(&rng, 8) { top.saturating_sub(rng.u64(..3)) } else { top + 1 + if chance(&rng, 20) { rng.u64(1..5) } else { 0 } };
            let mut avail: Vec<Out> = chain.last().map(|c| c.1.clone()).unwrap_or_default();
            let mut txs = vec![];
            let mut jt = vec![];
            for i in 0..(1 + rng.usize(..6)) {
                ids += 1;
                let coinbase = i == 0 && chance(&rng, 90);
                let mut ins: Vec<(OutPoint, (i64, u32))> = vec![];
                let mut budget = 0u64;
                let mut unknown = false;
                if !coinbase {
                    for _ in 0..(1 + rng.usize(..3)) {
                        if chance(&rng, 10) && !orphans.is_empty() {
                            let o = pick(&rng, &orphans);
                            ins.push((o.0, o.2));
                            unknown = true;
                        } else if chance(&rng, 12) || avail.is_empty() {
                            let mut b = [0u8; 32];
                            for x in b.iter_mut() {
                                *x = rng.u8(..);
                            }
                            ins.push((OutPoint { txid: nakamoto_common::bitcoin::Txid::from_inner(b), vout: 0 }, (-ids, 0)));
                            unknown = true;
                        } else {
                            let k = rng.usize(..avail.len());
                            let (op, v, ab) = avail.swap_remove(k);
                            ins.push((op, ab));
                            budget += v;
                        }
                    }
                }
                if coinbase || unknown {
                    budget += 5_000_000;
                }
                let fee = if coinbase { 0 } else { rng.u64(..=(budget / 4).min(300_000)) };
                let n = 1 + rng.u64(..3);
                let outs: Vec<u64> = (0..n).map(|_| (budget - fee) / n).collect();
                let tx = Transaction {
                    version: 2,
                    lock_time: PackedLockTime(ids as u32),
                    input: if coinbase {
                        vec![TxIn { previous_output: OutPoint::null(), script_sig: Script::from(vec![0; 3]), sequence: Sequence::MAX, witness: Witness::new() }]
                    } else {
                        ins.iter()
                            .map(|(op, _)| TxIn { previous_output: *op, script_sig: Script::from(vec![1; rng.usize(..90)]), sequence: Sequence::MAX, witness: if rng.bool() { Witness::from_vec(vec![vec![7; rng.usize(..60)]]) } else { Witness::new() } })
                            .collect()
                    },
                    output: outs.iter().map(|v| TxOut { value: *v, script_pubkey: Script::from(vec![2; 22]) }).collect(),
                };
                let txid = tx.txid();
                for (vout, v) in outs.iter().enumerate() {
                    avail.push((OutPoint { txid, vout: vout as u32 }, *v, (ids, vout as u32)));
                }
                jt.push(obj! {"id":ids,"cb":coinbase,"ins":ins.iter().map(|(_, ab)| J::from(*ab)).collect::<Vec<J>>(),"outs":outs,"w":tx.weight()});
                txs.push(tx);
            }
            let block = Block { header, txdata: txs };
            let r = fe.process(block, h);
            if h > top {
                chain.push((h, avail));
                snaps = (snaps + 1).min(12); // How far back the estimator promises to go.
            }
            let res = match r {
                None => J::A(vec![]),
                Some(e) => J::from(vec![e.low, e.median, e.high]),
            };
            log.put(obj! {"op":"process","h":h,"txs":jt,"res":res});
        }
    }
    log.finish();
}

// ---------------------------------------------------------------- peer store (C18)
pub fn peers(a: &[String]) {
    use nakamoto_client::verif::Cache;
    use nakamoto_common::p2p::peer::{KnownAddress, Source, Store};
    use nakamoto_common::bitcoin::network::{address::Address, constants::ServiceFlags};
    use nakamoto_common::block::time::LocalTime;
    let (rng, runs, mut log) = args(a);
    let dir = Scratch::new("peers");
    let mk_ip = |i: u64| -> net::IpAddr {
        match i % 4 {
            0 => net::Ipv6Addr::new(0x2001, 0xdb8, 0, 0, i as u16, 0, 0, 1).into(),
            1 => net::Ipv4Addr::new(1, 2, 3, i as u8).to_ipv6_mapped().into(),
            _ => net::Ipv4Addr::new(9, 8, 7, i as u8).into(),
        }
    };
    for run in 0..runs {
        let path = dir.0.join(format!("p{}", run));
        let mut cache = Cache::create(&path).expect("create");
        let mut vals: Vec<KnownAddress> = vec![];
        let mut flushed = false;
        log.put(obj! {"op":"reset"});
        let fresh = |rng: &R, ip: net::IpAddr| -> KnownAddress {
            let t = |rng: &R| if rng.bool() { None } else { Some(LocalTime::from_secs(*pick(rng, &[0, 1, 1_600_000_000, u32::MAX as u64, rng.u32(..) as u64]))) };
            KnownAddress {
                addr: Address::new(&net::SocketAddr::new(ip, rng.u16(..)), ServiceFlags::from(*pick(rng, &[0, 1, 64, 1 << 40, u64::MAX, rng.u64(..)]))),
                source: match rng.u32(..4) {
                    0 => Source::Dns,
                    1 => Source::Imported,
                    2 => Source::Peer(net::SocketAddr::new(net::Ipv6Addr::LOCALHOST.into(), rng.u16(..))),
                    _ => Source::Peer(([3, 4, 5, rng.u8(..)], rng.u16(..)).into()),
                },
                last_success: t(rng),
                last_sampled: t(rng),
                last_attempt: t(rng),
                last_active: t(rng),
            }
        };
        let ident = |vals: &Vec<KnownAddress>, ka: &KnownAddress| -> i64 { vals.iter().position(|v| v == ka).map(|i| i as i64 + 1).unwrap_or(-1) };
        let view = |vals: &Vec<KnownAddress>, cache: &Cache| -> J {
            let mut v: Vec<(i64, i64)> = cache.iter().map(|(ip, ka)| ((0..24).find(|i| mk_ip(*i) == *ip).map(|i| i as i64).unwrap_or(-1), ident(vals, ka))).collect();
            v.sort_unstable();
            J::A(v.into_iter().map(J::from).collect())
        };
        for _ in 0..(3 + rng.u32(..30)) {
            let i = rng.u64(..24);
            let ip = mk_ip(i);
            match rng.u32(..20) {
                0..=6 => {
                    let ka = fresh(&rng, ip);
                    vals.push(ka.clone());
                    let r = cache.insert(ip, ka.clone());
                    log.put(obj! {"op":"insert","ip":i,"v":ident(&vals, &ka),"res":r,"all":view(&vals, &cache),"len":cache.len()});
                }
                7..=9 => {
                    let ka = fresh(&rng, ip);
                    vals.push(ka.clone());
                    let hit = if let Some(x) = cache.get_mut(&ip) {
                        *x = ka.clone();
                        true
                    } else {
                        false
                    };
                    log.put(obj! {"op":"update","ip":i,"v":ident(&vals, &ka),"res":hit,"all":view(&vals, &cache),"len":cache.len()});
                }
                10..=11 => {
                    let r = cache.remove(&ip).map(|ka| ident(&vals, &ka)).unwrap_or(0);
                    log.put(obj! {"op":"remove","ip":i,"res":r,"all":view(&vals, &cache),"len":cache.len()});
                }
                12 => {
                    let r = cache.get(&ip).map(|ka| ident(&vals, ka)).unwrap_or(0);
                    log.put(obj! {"op":"get","ip":i,"res":r,"all":view(&vals, &cache),"len":cache.len()});
                }
                13 if chance(&rng, 20) => {
                    cache.clear();
                    log.put(obj! {"op":"clear","all":view(&vals, &cache),"len":cache.len()});
                }
                14..=16 => {
                    let r = cache.flush().is_ok();
                    flushed = true;
                    log.put(obj! {"op":"flush","res":r,"all":view(&vals, &cache),"len":cache.len()});
                }
                17 if chance(&rng, 40) => {
                    let again = Cache::create(&path).is_ok();
                    log.put(obj! {"op":"create","res":again,"all":view(&vals, &cache),"len":cache.len()});
                }
                _ => {
                    drop(cache);
                    match guard(|| Cache::open(&path)) {
                        Ok(Ok(c)) => {
                            log.put(obj! {"op":"reopen","res":"ok","all":view(&vals, &c),"len":c.len()});
                            cache = c;
                        }
                        r => {
                            log.put(obj! {"op":"reopen","res":if r.is_err() {"panic"} else {"err"},"all":J::A(vec![]),"len":0});
                            cache = Cache::create(dir.0.join("dummy-unused")).unwrap_or_else(|_| Cache::open(dir.0.join("dummy-unused")).expect("dummy"));
                            break;
                        }
                    }
                }
            }
        }
        // Damage the file: it must be reported, and left as it is.
        if flushed && !cache.is_empty() {
            cache.flush().expect("flush");
            drop(cache);
            let good = std::fs::read_to_string(&path).expect("read");
            let mut bad = good.clone();
            match rng.u32(..6) {
                0 => bad.truncate(1 + rng.usize(..good.trim_end().len() - 1)),
                1 => bad = bad.replacen("\"address\":\"", "\"address\":\"x", 1),
                2 => bad = bad.replacen("\"source\":\"", "\"source\":\"?", 1),
                3 => bad = format!("[{}]", bad),
                4 => bad = bad.replacen("{\"", "{\"zz", 1),
                _ => bad = bad.replacen("\"services\":", "\"services\":\"a\",\"x\":", 1),
            }
            if bad != good {
                std::fs::write(&path, &bad).expect("write");
                let res = match guard(|| Cache::open(&path)) {
                    Ok(Ok(_)) => "ok",
                    Ok(Err(_)) => "err",
                    Err(_) => "panic",
                };
                let same = std::fs::read_to_string(&path).map(|s| s == bad).unwrap_or(false);
                log.put(obj! {"op":"damaged","res":res,"same":same,"bad":if bad.len() < 300 { bad } else { String::new() }});
            }
        }
        let _ = std::fs::remove_file(&path);
    }
    log.finish();
}

// ---------------------------------------------------------------- decoder (C17)
pub fn stream(a: &[String]) {
    use nakamoto_common::bitcoin::consensus::encode;
    use nakamoto_common::bitcoin::network::message::{CommandString, NetworkMessage, RawNetworkMessage};
    use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
    use nakamoto_common::bitcoin_hashes::{sha256d, Hash};
    use nakamoto_p2p::stream::Decoder;
    let (rng, runs, mut log) = args(a);
    let hash = |rng: &R| nakamoto_common::block::BlockHash::from_inner({
        let mut b = [0u8; 32];
        b.iter_mut().for_each(|x| *x = rng.u8(..));
        b
    });
    for run in 0..runs {
        let n = 1 + rng.usize(..7);
        let mut bytes: Vec<u8> = vec![];
        let mut lens = vec![];
        let mut kinds: Vec<&str> = vec![];
        let mut encs: Vec<Vec<u8>> = vec![];
        for _ in 0..n {
            let payload = match rng.u32(..12) {
                0 => NetworkMessage::Verack,
                1..=3 => NetworkMessage::Ping(rng.u64(..)),
                4 => NetworkMessage::Inv((0..rng.usize(..40)).map(|_| Inventory::Block(hash(&rng))).collect()),
                5 => NetworkMessage::GetHeaders(GetHeadersMessage { version: 1, locator_hashes: (0..rng.usize(..9)).map(|_| hash(&rng)).collect(), stop_hash: hash(&rng) }),
                6 => NetworkMessage::Unknown { command: CommandString::try_from_static("foo").unwrap(), payload: (0..rng.usize(..60)).map(|_| rng.u8(..)).collect() },
                7 => NetworkMessage::SendHeaders,
                8 => NetworkMessage::FeeFilter(rng.i64(..)),
                9 if run % 30 == 0 => NetworkMessage::Unknown { command: CommandString::try_from_static("bar").unwrap(), payload: vec![3; 150_000 + rng.usize(..300_000)] },
                _ => NetworkMessage::Pong(rng.u64(..)),
            };
            let mut e = encode::serialize(&RawNetworkMessage { magic: *pick(&rng, &[0xD9B4BEF9, 0xDAB5BFFA, rng.u32(..)]), payload });
            let mut kind = "ok";
            if chance(&rng, 6) {
                // Spoil it.
                kind = "bad";
                match rng.u32(..3) {
                    0 => {
                        // Wrong checksum.
                        let k = 20 + rng.usize(..4);
                        e[k] ^= 1 << rng.u32(..8);
                    }
                    1 => {
                        // A payload too short for its command, correctly framed.
                        let short: Vec<u8> = (0..rng.usize(..8)).map(|_| rng.u8(..)).collect();
                        e = encode::serialize(&RawNetworkMessage { magic: 7, payload: NetworkMessage::Ping(0) });
                        e.truncate(24);
                        e[16..20].copy_from_slice(&(short.len() as u32).to_le_bytes());
                        e[20..24].copy_from_slice(&sha256d::Hash::hash(&short)[..4]);
                        e.extend(short);
                    }
                    _ => {
                        // Headers announcing more entries than there are.
                        let p = vec![200u8, 1, 2, 3];
                        e = encode::serialize(&RawNetworkMessage { magic: 7, payload: NetworkMessage::Headers(vec![]) });
                        e.truncate(24);
                        e[16..20].copy_from_slice(&(p.len() as u32).to_le_bytes());
                        e[20..24].copy_from_slice(&sha256d::Hash::hash(&p)[..4]);
                        e.extend(p);
                    }
                }
            }
            lens.push(e.len());
            kinds.push(kind);
            bytes.extend(&e);
            encs.push(e);
        }
        log.put(obj! {"op":"reset","lens":lens.clone(),"kinds":kinds.clone()});
        let mut d = Decoder::new(*pick(&rng, &[0, 1, 24, 1024]));
        let mode = rng.u32(..5);
        let (mut pos, mut got) = (0, 0usize);
        'feed: while pos < bytes.len() {
            let left = bytes.len() - pos;
            let k = match mode {
                0 => 1,
                1 => left,
                2 => rng.usize(1..=left.min(30)),
                3 => rng.usize(1..=left),
                _ => if rng.bool() { 24.min(left) } else { rng.usize(..=left.min(64)) },
            };
            let k = if bytes.len() > 3000 && mode == 0 { left.min(10_000) } else { k };
            d.input(&bytes[pos..pos + k]);
            pos += k;
            let eager = chance(&rng, 85) || pos == bytes.len();
            let mut out: Vec<i64> = vec![];
            let mut err = false;
            if eager {
                loop {
                    match guard(|| d.decode_next::<RawNetworkMessage>()) {
                        Ok(Ok(Some(m))) => {
                            let same = got < encs.len() && encode::deserialize::<RawNetworkMessage>(&encs[got]).map(|r| r == m).unwrap_or(false);
                            got += 1;
                            out.push(if same { got as i64 } else { -1 });
                            if out.len() > n + 2 {
                                break;
                            }
                        }
                        Ok(Ok(None)) => break,
                        Ok(Err(_)) => {
                            err = true;
                            break;
                        }
                        Err(_) => {
                            out.push(-2);
                            err = true;
                            break;
                        }
                    }
                }
            }
            log.put(obj! {"op":"input","n":k,"eager":eager,"out":out,"err":err});
            if err {
                break 'feed;
            }
        }
    }
    log.finish();
}

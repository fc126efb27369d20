use crate::handle::Stub;
use crate::util::*;
use nakamoto_client::{chan, Event, Loading, Network};
use nakamoto_common::bitcoin::blockdata::script::Builder;
use nakamoto_common::bitcoin::blockdata::opcodes;
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::{Address, OutPoint, PackedLockTime, PubkeyHash, Script, ScriptHash, Sequence, Transaction, TxIn, TxMerkleNode, TxOut, Txid, WPubkeyHash, WScriptHash, Witness};
use nakamoto_common::block::time::LocalTime;
use nakamoto_common::block::{Block, BlockHash, BlockHeader};
use nakamoto_wallet::wallet::db::{Read as _, Write as _};
use nakamoto_wallet::wallet::{Db, Hw, Wallet};
use std::collections::BTreeMap;
use std::ops::Bound;
use std::path::PathBuf;

/// Give the process a terminal as standard output, which the wallet asks for its size.
fn terminal() {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY);
        assert!(m >= 0 && libc::grantpt(m) == 0 && libc::unlockpt(m) == 0, "no terminal");
        let s = libc::open(libc::ptsname(m), libc::O_RDWR | libc::O_NOCTTY);
        assert!(s >= 0, "no terminal");
        let w = libc::winsize { ws_row: 60, ws_col: 200, ws_xpixel: 0, ws_ypixel: 0 };
        assert_eq!(libc::ioctl(s, libc::TIOCSWINSZ, &w), 0);
        assert!(libc::dup2(s, 1) == 1);
    }
}

#[derive(Clone)]
struct Tx {
    id: usize,
    ins: Vec<(i64, u32)>, // (transaction, output); transaction -1 is unknown
    outs: Vec<(i64, i64)>, // (address or -1, value)
    real: Transaction,
}
impl Tx {
    fn json(&self) -> J {
        obj! { "id": self.id, "ins": self.ins.iter().map(|(t, v)| (*t, *v as i64)).collect::<Vec<_>>(), "outs": self.outs.clone() }
    }
}

struct World {
    net: Network,
    unit: u64,
    addrs: Vec<Address>,
    txs: Vec<Tx>,
    chain: Vec<Vec<usize>>, // blocks of transactions
    ids: BTreeMap<Txid, usize>,
}

fn script_of(rng: &fastrand::Rng, k: usize) -> Script {
    let mut h = [0u8; 32];
    for b in h.iter_mut() {
        *b = rng.u8(..);
    }
    h[0] = k as u8;
    match rng.u8(..5) {
        0 => Script::new_v0_p2wpkh(&WPubkeyHash::from_slice(&h[..20]).unwrap()),
        1 => Script::new_p2pkh(&PubkeyHash::from_slice(&h[..20]).unwrap()),
        2 => Script::new_p2sh(&ScriptHash::from_slice(&h[..20]).unwrap()),
        3 => Script::new_v0_p2wsh(&WScriptHash::from_slice(&h).unwrap()),
        _ => Builder::new().push_opcode(opcodes::all::OP_PUSHNUM_1).push_slice(&h).into_script(),
    }
}

fn world(rng: &fastrand::Rng) -> World {
    let net = *pick(rng, &[Network::Mainnet, Network::Testnet, Network::Regtest, Network::Signet]);
    let unit = *pick(rng, &[1, 7, 10_000, 1_000_000, 100_000_000, 2_000_000_000_000]);
    let addrs: Vec<Address> = (0..if chance(rng, 15) { 24 } else { 6 }).map(|k| Address::from_script(&script_of(rng, k), net.into()).unwrap()).collect();
    let mut w = World { net, unit, addrs, txs: vec![], chain: vec![], ids: BTreeMap::new() };
    let blocks = rng.usize(1..6);
    let mut free: Vec<(usize, u32)> = vec![];
    for _ in 0..blocks {
        let mut b = vec![];
        for _ in 0..rng.usize(1..5) {
            let id = w.txs.len();
            let mut ins: Vec<(i64, u32)> = vec![];
            for _ in 0..if chance(rng, 10) { rng.usize(0..10) } else { rng.usize(0..4) } {
                if !free.is_empty() && chance(rng, 70) {
                    let (t, v) = free.swap_remove(rng.usize(..free.len()));
                    ins.push((t as i64, v));
                } else {
                    ins.push((-1, rng.u32(..3)));
                }
            }
            let outs: Vec<(i64, i64)> = (0..if chance(rng, 10) { rng.usize(1..14) } else { rng.usize(1..5) })
                .map(|_| (if chance(rng, 20) { -1 } else { rng.i64(0..w.addrs.len() as i64) }, if chance(rng, 5) { 0 } else { rng.i64(1..200) }))
                .collect();
            let real = Transaction {
                version: 1,
                lock_time: PackedLockTime(id as u32), // makes the transactions distinct
                input: ins
                    .iter()
                    .map(|(t, v)| TxIn {
                        previous_output: OutPoint { txid: if *t < 0 { Txid::from_slice(&[9; 32]).unwrap() } else { w.txs[*t as usize].real.txid() }, vout: *v },
                        script_sig: Script::new(),
                        sequence: Sequence(0xFFFFFFFF),
                        witness: Witness::default(),
                    })
                    .collect(),
                output: outs
                    .iter()
                    .map(|(a, v)| TxOut { value: *v as u64 * unit, script_pubkey: if *a < 0 { Script::new_op_return(&[1, 2]) } else { w.addrs[*a as usize].script_pubkey() } })
                    .collect(),
            };
            for v in 0..outs.len() {
                free.push((id, v as u32));
            }
            w.ids.insert(real.txid(), id);
            w.txs.push(Tx { id, ins, outs, real });
            b.push(id);
        }
        w.chain.push(b);
    }
    w
}

struct Run<'a> {
    w: &'a World,
    path: PathBuf,
    wallet: Option<Wallet<Stub>>,
    stub: Stub,
    owned: Vec<usize>,
}
impl<'a> Run<'a> {
    fn open(&mut self) {
        self.wallet = None;
        let db = Db::open(&self.path).expect("open");
        self.stub = Stub::default();
        self.wallet = Some(Wallet::new(self.stub.clone(), self.w.net, db, Hw::new("m/84'/0'/0'/0".parse().unwrap())));
    }
    fn units(&self, v: u64) -> i64 {
        if v % self.w.unit == 0 && v / self.w.unit < 1 << 30 {
            (v / self.w.unit) as i64
        } else {
            -1
        }
    }
    fn addr(&self, s: &Script) -> i64 {
        self.w.addrs.iter().position(|a| a.script_pubkey() == *s).map(|x| x as i64).unwrap_or(-1)
    }
    /// What the database says, read through a connection of its own.
    fn observe(&self, rng: &fastrand::Rng) -> Vec<(&'static str, J)> {
        let db = Db::open(&self.path).expect("open to read");
        let tx = |t: &Txid| self.w.ids.get(t).map(|x| *x as i64).unwrap_or(-1);
        let coin = |o: &OutPoint, t: &TxOut| vec![tx(&o.txid), o.vout as i64, self.addr(&t.script_pubkey), self.units(t.value)];
        let mut coins: Vec<Vec<i64>> = db.utxos().unwrap().iter().map(|(o, t)| coin(o, t)).collect();
        coins.sort();
        let mut got = vec![];
        let all = chance(rng, 25);
        if all {
            for t in &self.w.txs {
                for v in 0..t.outs.len() + 1 {
                    let o = OutPoint { txid: t.real.txid(), vout: v as u32 };
                    if let Some((p, t)) = db.utxo(&o).unwrap() {
                        assert_eq!(p, o);
                        got.push(coin(&o, &t));
                    }
                }
            }
        }
        let mut addrs: Vec<(i64, i64, String, bool)> = db
            .addresses()
            .unwrap()
            .into_iter()
            .map(|r| (self.addr(&r.address.script_pubkey()), r.index as i64, r.label.unwrap_or_default(), r.used))
            .collect();
        addrs.sort();
        let addrs: Vec<J> = addrs.into_iter().map(|(a, i, l, u)| obj! { "a": a, "ix": i, "label": l, "used": u }).collect();
        let bal = db.balance().unwrap();
        let own = self.wallet.as_ref().map(|w| w.balance().unwrap()).unwrap_or(bal);
        vec![("coins", J::from(coins)), ("hasgot", J::from(all)), ("got", J::from(got)), ("addrs", J::A(addrs)), ("bal", J::from(self.units(bal))), ("own", J::from(self.units(own)))]
    }
    fn scripts(&self, ids: &[usize]) -> Vec<Script> {
        ids.iter().map(|a| self.w.addrs[*a].script_pubkey()).collect()
    }
}

fn block(w: &World, b: &[usize]) -> Block {
    Block {
        header: BlockHeader { version: 1, prev_blockhash: BlockHash::all_zeros(), merkle_root: TxMerkleNode::all_zeros(), time: 0, bits: 0, nonce: 0 },
        txdata: b.iter().map(|t| w.txs[*t].real.clone()).collect(),
    }
}

/// The balance the wallet last put into its header line, in units of 0.0001 coins; none if not found.
fn shown(term: &[u8]) -> Option<u64> {
    let text = String::from_utf8_lossy(term);
    let cyan = format!("{}", termion::color::Fg(termion::color::Cyan));
    let rest = &text[text.rfind(&cyan)? + cyan.len()..];
    let end = rest.find(" BTC")?;
    let start = rest[..end].rfind(|c: char| !c.is_ascii_digit() && c != '.')? + 1;
    let n: Vec<&str> = rest[start..end].split('.').collect();
    if n.len() != 2 || n[1].len() != 4 {
        return None;
    }
    Some(n[0].parse::<u64>().ok()? * 10_000 + n[1].parse::<u64>().ok()?)
}

pub fn main(args: &[String]) {
    terminal();
    let seed = num(args, "--seed", 1);
    let runs = num(args, "--runs", 10);
    let mut log = Log::create(&flag(args, "--out").expect("--out"));
    let scratch = Scratch::new("wallet");
    for run in 0..runs {
        let rng = fastrand::Rng::with_seed(seed * 1_000_003 + run);
        let w = world(&rng);
        let path = scratch.0.join(format!("w{}.db", run));
        let mut r = Run { w: &w, path: path.clone(), wallet: None, stub: Stub::default(), owned: vec![] };
        log.put(obj! { "op": "reset", "net": format!("{:?}", w.net), "unit": w.unit.to_string() });
        r.open();
        let mut next_ix = 0i64;
        let mut index: BTreeMap<usize, i64> = BTreeMap::new();
        let mut at = 0usize; // next block in order
        let many = if w.addrs.len() > 6 { 40 } else { 1 };
        for step in 0..many + rng.usize(5..25) {
            let k = if step < many { 0 } else { rng.u32(..100) };
            let mut line: Vec<(&'static str, J)>;
            if k < 18 {
                // An address becomes ours, or gets another label.
                let a = rng.usize(..w.addrs.len());
                let ix = *index.entry(a).or_insert_with(|| {
                    next_ix += rng.i64(1..4);
                    next_ix
                });
                let label = pick(&rng, &["", "one", "two's"]).to_string();
                let db = Db::open(&path).expect("open");
                let opt = if label.is_empty() { None } else { Some(label.as_str()) };
                let res = db.add_address(&w.addrs[a], ix as usize, opt).unwrap();
                line = vec![("op", J::from("address")), ("a", J::from(a)), ("ix", J::from(ix)), ("label", J::from(label.clone())), ("res", J::from(res))];
                if !r.owned.contains(&a) {
                    r.owned.push(a);
                }
            } else if k < 55 {
                // One transaction: the next in order, or any (again).
                let t = if at < w.txs.len() && chance(&rng, 70) {
                    at += 1;
                    at - 1
                } else {
                    rng.usize(..w.txs.len())
                };
                let watch: Vec<usize> = if chance(&rng, 85) { r.owned.clone() } else { (0..w.addrs.len()).filter(|_| rng.bool()).collect() };
                let scripts = r.scripts(&watch);
                let wal = r.wallet.as_mut().unwrap();
                let res = guard(|| wal.apply(&w.txs[t].real, &scripts));
                line = vec![("op", J::from("apply")), ("tx", w.txs[t].json()), ("w", J::from(watch)), ("res", J::from(if res.is_ok() { "ok" } else { "panic" }))];
            } else if k < 80 && !r.owned.is_empty() {
                // A session of the main loop: blocks that match arrive among other events.
                let from = rng.usize(..w.chain.len());
                let blocks: Vec<usize> = if chance(&rng, 60) { (0..w.chain.len()).collect() } else { (from..w.chain.len()).collect() };
                let birth = rng.u64(..1000);
                let offline = chance(&rng, 15);
                let (in_tx, in_rx) = chan::unbounded();
                let (sig_tx, sig_rx) = chan::unbounded();
                let (load_tx, load_rx) = chan::unbounded();
                let (ev_tx, ev_rx) = chan::unbounded();
                if chance(&rng, 50) {
                    for h in 0..rng.u64(..3) {
                        load_tx.send(Loading::BlockHeaderLoaded { height: h }).unwrap();
                        load_tx.send(Loading::FilterHeaderLoaded { height: h }).unwrap();
                    }
                }
                drop(load_tx);
                let mut applied = vec![];
                let tip = birth + w.chain.len() as u64;
                ev_tx.send(Event::Ready { tip, filter_tip: tip, time: LocalTime::from_secs(0) }).unwrap();
                for b in &blocks {
                    let height = birth + *b as u64;
                    if chance(&rng, 30) {
                        ev_tx.send(Event::PeerHeightUpdated { height: tip }).unwrap();
                    }
                    if chance(&rng, 30) {
                        ev_tx.send(Event::BlockConnected { header: block(&w, &[]).header, height }).unwrap();
                    }
                    if chance(&rng, 30) {
                        // Delivered as well, but what counts is the match.
                        ev_tx.send(Event::BlockProcessed { block: block(&w, &w.chain[*b]), height, fees: None }).unwrap();
                    }
                    if chance(&rng, 85) {
                        ev_tx.send(Event::BlockMatched { block: block(&w, &w.chain[*b]), height }).unwrap();
                        applied.push(J::A(w.chain[*b].iter().map(|t| w.txs[*t].json()).collect()));
                    }
                    if chance(&rng, 30) {
                        ev_tx.send(Event::Scanned { height }).unwrap();
                    }
                }
                drop(ev_tx);
                let mut term: Vec<u8> = vec![];
                r.open();
                let wal = r.wallet.as_mut().unwrap();
                let res = guard(|| wal.run(birth, in_rx, sig_rx, load_rx, ev_rx, offline, &mut term));
                drop((in_tx, sig_tx));
                let res = match res {
                    Ok(_) => "ok", // the events ran out
                    Err(_) => "panic",
                };
                let scans: Vec<J> = r
                    .stub
                    .scans
                    .lock()
                    .unwrap()
                    .iter()
                    .map(|(f, t, s)| {
                        let mut ids: Vec<i64> = s.iter().map(|s| r.addr(s)).collect();
                        ids.sort();
                        obj! { "from": match f { Bound::Included(h) => *h as i64, _ => -1 }, "open": *t == Bound::Unbounded, "w": ids }
                    })
                    .collect();
                let show = match shown(&term) {
                    Some(n) if (n * 10_000) % w.unit == 0 && w.unit % 10_000 == 0 => (n * 10_000 / w.unit) as i64,
                    _ => -1,
                };
                line = vec![
                    ("op", J::from("session")), ("birth", J::from(birth)), ("offline", J::from(offline)), ("blocks", J::A(applied)),
                    ("scans", J::A(scans)), ("shown", J::from(show)), ("res", J::from(res)),
                ];
            } else if k < 88 {
                r.open();
                line = vec![("op", J::from("reopen"))];
            } else {
                // Somebody else holds the database: what can't be written must not pass for written.
                let t = rng.usize(..w.txs.len());
                let other = sqlite::open(&path).expect("second connection");
                other.execute("BEGIN EXCLUSIVE").expect("lock");
                let watch = r.owned.clone();
                let scripts = r.scripts(&watch);
                let wal = r.wallet.as_mut().unwrap();
                let res = guard(|| wal.apply(&w.txs[t].real, &scripts));
                other.execute("ROLLBACK").expect("unlock");
                line = vec![("op", J::from("locked")), ("tx", w.txs[t].json()), ("w", J::from(watch)), ("res", J::from(if res.is_ok() { "ok" } else { "panic" }))];
            }
            line.extend(r.observe(&rng));
            log.put(J::O(line));
        }
        r.wallet = None;
        let _ = std::fs::remove_file(&path);
    }
    log.finish();
}

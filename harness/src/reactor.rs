//! Drives the poll reactor with real sockets on the loopback interface. Every action of a peer or
//! the user and every call the reactor makes is put into one log under a lock, so that an action
//! is always logged before anything it causes.
use crate::util::*;
use nakamoto_net::event::Publisher;
use nakamoto_net::time::{LocalDuration, LocalTime};
use nakamoto_net::{Disconnect, Io, Link, Reactor as _, Service, StateMachine, Waker as _};
use nakamoto_net_poll::Reactor;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Reason;
impl std::fmt::Display for Reason {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "told to")
    }
}
impl From<Reason> for Disconnect<Reason> {
    fn from(r: Reason) -> Self {
        Disconnect::StateMachine(r)
    }
}

/// Byte `i` of the stream of connection number `e` with a peer, in one of the directions.
fn byte(e: u64, dir: u64, i: u64) -> u8 {
    let x = (i / 3 + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ (e + 7 * dir + 1).wrapping_mul(0xD1B54A32D192ED03);
    (x >> 40) as u8 ^ (i as u8)
}
fn bytes(e: u64, dir: u64, from: u64, n: u64) -> Vec<u8> {
    (from..from + n).map(|i| byte(e, dir, i)).collect()
}

#[derive(Debug, Clone)]
enum Do {
    Connect(SocketAddr),
    Write(SocketAddr, u64),
    Disconnect(SocketAddr),
    Timer(u64),
    Event(u64),
}
struct Command(u64, Vec<Do>);

#[derive(Default)]
struct Book {
    lines: Vec<Vec<(&'static str, J)>>,
    addrs: Vec<SocketAddr>,
    /// What the service holds for up: connection number and bytes received and written.
    up: BTreeMap<usize, (u64, u64, u64)>,
    number: HashMap<usize, u64>,
    /// Being dialled: bytes written already.
    early: HashMap<usize, u64>,
}
impl Book {
    fn id(&mut self, a: SocketAddr) -> usize {
        match self.addrs.iter().position(|x| *x == a) {
            Some(i) => i,
            None => {
                self.addrs.push(a);
                self.addrs.len() - 1
            }
        }
    }
    fn put(&mut self, op: &'static str, mut rest: Vec<(&'static str, J)>) {
        rest.insert(0, ("op", J::from(op)));
        self.lines.push(rest);
    }
}
type Shared = Arc<Mutex<Book>>;

struct Svc {
    log: Shared,
    out: VecDeque<Io<Vec<u8>, u64, Reason>>,
    start: LocalTime,
    now: LocalTime,
}
impl Iterator for Svc {
    type Item = Io<Vec<u8>, u64, Reason>;
    fn next(&mut self) -> Option<Self::Item> {
        self.out.pop_front()
    }
}
impl Svc {
    fn ms(&self, t: LocalTime) -> i64 {
        (t - self.start).as_millis() as i64
    }
}
impl StateMachine for Svc {
    type Message = [u8];
    type Event = u64;
    type DisconnectReason = Reason;
    fn initialize(&mut self, t: LocalTime) {
        self.now = t;
        let n = self.ms(t);
        self.log.lock().unwrap().put("init", vec![("t", J::from(n))]);
    }
    fn message_received(&mut self, addr: &SocketAddr, m: Cow<[u8]>) {
        let mut b = self.log.lock().unwrap();
        let a = b.id(*addr);
        let c = b.up.get(&a).copied().unwrap_or((0, 0, 0));
        let ok = *m == bytes(c.0, 0, c.1, m.len() as u64)[..];
        b.up.entry(a).or_insert((0, 0, 0)).1 += m.len() as u64;
        b.put("recv", vec![("a", J::from(a)), ("n", J::from(m.len())), ("ok", J::from(ok))]);
    }
    fn attempted(&mut self, addr: &SocketAddr) {
        let mut b = self.log.lock().unwrap();
        let a = b.id(*addr);
        *b.number.entry(a).or_insert(0) += 1;
        b.put("attempted", vec![("a", J::from(a))]);
    }
    fn connected(&mut self, addr: SocketAddr, _: &SocketAddr, link: Link) {
        let mut b = self.log.lock().unwrap();
        let a = b.id(addr);
        // The number of this connection with the address.
        if link.is_inbound() {
            *b.number.entry(a).or_insert(0) += 1;
        }
        let e = b.number.get(&a).copied().unwrap_or(1) - 1;
        let w = b.early.remove(&a).unwrap_or(0);
        b.up.insert(a, (e, 0, w));
        b.put("connected", vec![("a", J::from(a)), ("out", J::from(link.is_outbound()))]);
    }
    fn disconnected(&mut self, addr: &SocketAddr, why: Disconnect<Reason>) {
        let mut b = self.log.lock().unwrap();
        let a = b.id(*addr);
        b.up.remove(&a);
        b.early.remove(&a);
        let w = match why {
            Disconnect::DialError(_) => "dial",
            Disconnect::ConnectionError(_) => "error",
            Disconnect::StateMachine(_) => "told",
        };
        b.put("disconnected", vec![("a", J::from(a)), ("why", J::from(w))]);
    }
    fn tick(&mut self, t: LocalTime) {
        self.now = t;
        let n = self.ms(t);
        let mut b = self.log.lock().unwrap();
        b.put("tick", vec![("t", J::from(n))]);
    }
    fn timer_expired(&mut self) {
        let mut b = self.log.lock().unwrap();
        b.put("expired", vec![]);
    }
}
impl Service for Svc {
    type Command = Command;
    fn command_received(&mut self, c: Command) {
        let mut b = self.log.lock().unwrap();
        b.put("command", vec![("n", J::from(c.0))]);
        for d in c.1 {
            match d {
                Do::Connect(addr) => {
                    let a = b.id(addr);
                    b.put("dial", vec![("a", J::from(a))]);
                    b.early.insert(a, 0);
                    self.out.push_back(Io::Connect(addr));
                }
                Do::Write(addr, n) => {
                    let a = b.id(addr);
                    if let Some(c) = b.up.get(&a).copied() {
                        b.up.insert(a, (c.0, c.1, c.2 + n));
                        b.put("write", vec![("a", J::from(a)), ("n", J::from(n))]);
                        self.out.push_back(Io::Write(addr, bytes(c.0, 1, c.2, n)));
                    } else if let Some(w) = b.early.get(&a).copied() {
                        // In the same command as the dial, so it isn't attempted yet.
                        let e = b.number.get(&a).copied().unwrap_or(0);
                        b.early.insert(a, w + n);
                        b.put("write", vec![("a", J::from(a)), ("n", J::from(n))]);
                        self.out.push_back(Io::Write(addr, bytes(e, 1, w, n)));
                    }
                }
                Do::Disconnect(addr) => {
                    let a = b.id(addr);
                    if b.up.contains_key(&a) || b.early.contains_key(&a) {
                        b.put("drop", vec![("a", J::from(a))]);
                        self.out.push_back(Io::Disconnect(addr, Reason));
                    }
                }
                Do::Timer(ms) => {
                    let t = self.ms(self.now) + ms as i64;
                    b.put("timer", vec![("t", J::from(t))]);
                    self.out.push_back(Io::SetTimer(LocalDuration::from_millis(ms as u128)));
                }
                Do::Event(n) => {
                    b.put("emit", vec![("n", J::from(n))]);
                    self.out.push_back(Io::Event(n));
                }
            }
        }
    }
}
struct Out(Shared);
impl Publisher<u64> for Out {
    fn publish(&mut self, e: u64) {
        self.0.lock().unwrap().put("event", vec![("n", J::from(e))]);
    }
}

/// A peer's end of a connection.
struct End {
    a: usize,
    addr: SocketAddr,
    e: u64,
    s: TcpStream,
    sent: u64,
    got: u64,
    wopen: bool,
    eof: bool,
}
impl End {
    fn send(&mut self, log: &Shared, n: u64) {
        let mut b = log.lock().unwrap();
        if let Ok(k) = self.s.write(&bytes(self.e, 0, self.sent, n)) {
            self.sent += k as u64;
            b.put("psend", vec![("a", J::from(self.a)), ("e", J::from(self.e)), ("n", J::from(k))]);
        }
    }
    fn read(&mut self, log: &Shared, max: usize) -> bool {
        let mut buf = vec![0; max];
        let mut b = log.lock().unwrap();
        match self.s.read(&mut buf) {
            Ok(0) => {
                self.eof = true;
                b.put("peof", vec![("a", J::from(self.a)), ("e", J::from(self.e))]);
                true
            }
            Ok(k) => {
                let ok = buf[..k] == bytes(self.e, 1, self.got, k as u64)[..];
                self.got += k as u64;
                b.put("pread", vec![("a", J::from(self.a)), ("e", J::from(self.e)), ("n", J::from(k)), ("ok", J::from(ok))]);
                true
            }
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => false,
            Err(_) => {
                self.eof = true;
                b.put("peof", vec![("a", J::from(self.a)), ("e", J::from(self.e))]);
                true
            }
        }
    }
    /// Finish sending, but go on reading.
    fn finish(&mut self, log: &Shared) {
        let mut b = log.lock().unwrap();
        if self.wopen && self.s.shutdown(std::net::Shutdown::Write).is_ok() {
            self.wopen = false;
            b.put("pfin", vec![("a", J::from(self.a)), ("e", J::from(self.e))]);
        }
    }
    /// Break the connection off.
    fn reset(self, log: &Shared) {
        let mut b = log.lock().unwrap();
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe { libc::setsockopt(self.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32) };
        b.put("prst", vec![("a", J::from(self.a)), ("e", J::from(self.e))]);
    }
}

/// An address at which nobody listens, and which stays ours.
fn closed_port() -> (TcpStream, SocketAddr) {
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM, 0);
        let mut sa: libc::sockaddr_in = std::mem::zeroed();
        sa.sin_family = libc::AF_INET as u16;
        sa.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        assert_eq!(libc::bind(fd, &sa as *const _ as *const libc::sockaddr, std::mem::size_of_val(&sa) as u32), 0);
        let s = TcpStream::from_raw_fd(fd);
        let a = s.local_addr().unwrap();
        (s, a)
    }
}
fn small_buffers(s: &TcpStream) {
    let n: libc::c_int = 65536;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &n as *const _ as *const libc::c_void, 4);
    }
}

/// A run did not settle: no need for more.
static LATE: AtomicBool = AtomicBool::new(false);
pub fn main(args: &[String]) {
    let seed = num(args, "--seed", 1);
    let runs = num(args, "--runs", 10);
    let mut log = Log::create(&flag(args, "--out").expect("--out"));
    // The runs mostly wait, so several go on at a time.
    let par = num(args, "--par", 8);
    let next = Arc::new(Mutex::new(0));
    let (tx, rx) = crossbeam_channel::unbounded();
    for _ in 0..par {
        let (next, tx) = (next.clone(), tx.clone());
        std::thread::spawn(move || loop {
            let run = {
                let mut n = next.lock().unwrap();
                *n += 1;
                *n - 1
            };
            if run >= runs || LATE.load(Ordering::SeqCst) || tx.send(guard(|| one(seed * 1_000_003 + run))).is_err() {
                break;
            }
        });
    }
    drop(tx);
    for lines in rx.iter() {
        match lines {
            Ok(lines) => lines.into_iter().for_each(|l| log.put(J::O(l))),
            Err(e) => panic!("{}", e),
        }
    }
    log.finish();
}

/// How many wake-ups are still to come, going by the log.
fn outstanding(lines: &[Vec<(&'static str, J)>]) -> usize {
    let (mut out, mut new, mut now): (Vec<i64>, Vec<i64>, i64) = (vec![], vec![], 0);
    for l in lines {
        match (&l[0].1, l.get(1).map(|x| &x.1)) {
            (J::S(op), Some(J::I(t))) if op == "timer" => new.push(*t),
            (J::S(op), Some(J::I(t))) if op == "tick" => {
                for n in new.drain(..) {
                    if out.iter().all(|x| (x - n).abs() >= 1000) {
                        out.push(n);
                    }
                }
                now = *t;
            }
            (J::S(op), _) if op == "expired" => out.retain(|x| *x > now),
            _ => {}
        }
    }
    out.len() + new.len()
}

fn one(seed: u64) -> Vec<Vec<(&'static str, J)>> {
    let rng = fastrand::Rng::with_seed(seed);
    let shared: Shared = Arc::new(Mutex::new(Book::default()));
    let (stop_tx, stop_rx) = crossbeam_channel::bounded(1);
    let (lis_tx, lis_rx) = crossbeam_channel::bounded(1);
    let (cmd_tx, cmd_rx) = crossbeam_channel::unbounded::<Command>();
    let mut reactor = Reactor::<TcpStream>::new(stop_rx, lis_tx).expect("reactor");
    let waker = reactor.waker();
    shared.lock().unwrap().put("reset", vec![]);
    let now: LocalTime = std::time::SystemTime::now().into();
    let svc = Svc { log: shared.clone(), out: VecDeque::new(), start: now, now };
    let out = Out(shared.clone());
    let (done_tx, done_rx) = crossbeam_channel::bounded(1);
    let thread = std::thread::spawn(move || {
        let r = guard(|| reactor.run(&[([127, 0, 0, 1], 0).into()], svc, out, cmd_rx));
        done_tx.send(match r {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(e)) => format!("error: {}", e),
            Err(p) => format!("panic: {}", p),
        }).ok();
    });
    let server: SocketAddr = lis_rx.recv_timeout(Duration::from_secs(20)).expect("reactor listens");
    let (_keep, refused) = closed_port();
    let nowhere: SocketAddr = ([255, 255, 255, 255], 9).into();
    let mut listeners: Vec<(TcpListener, SocketAddr, u64)> = vec![];
    for _ in 0..3 {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        l.set_nonblocking(true).unwrap();
        let a = l.local_addr().unwrap();
        listeners.push((l, a, 0));
    }
    let mut ends: Vec<End> = vec![];
    let mut sent = 0u64;
    let mut events = 0u64;
    let send = |what: Vec<Do>, sent: &mut u64, wake: bool| {
        let mut b = shared.lock().unwrap();
        *sent += 1;
        cmd_tx.send(Command(*sent, what)).ok();
        b.put("send", vec![("n", J::from(*sent))]);
        drop(b);
        if wake {
            waker.wake().ok();
        }
    };
    let accept = |listeners: &mut Vec<(TcpListener, SocketAddr, u64)>, ends: &mut Vec<End>, small: bool| {
        for (l, addr, e) in listeners.iter_mut() {
            while let Ok((s, _)) = l.accept() {
                s.set_nonblocking(true).unwrap();
                if small {
                    small_buffers(&s);
                }
                let a = shared.lock().unwrap().id(*addr);
                ends.push(End { a, addr: *addr, e: *e, s, sent: 0, got: 0, wopen: true, eof: false });
                *e += 1;
            }
        }
    };
    // Addresses with a connection the service asked for and has not seen end.
    for _ in 0..rng.usize(10..60) {
        let k = rng.u32(..100);
        accept(&mut listeners, &mut ends, rng.bool());
        if k < 14 {
            // A peer connects.
            let mut b = shared.lock().unwrap();
            let s = TcpStream::connect(server).expect("connect");
            s.set_nonblocking(true).unwrap();
            if rng.bool() {
                small_buffers(&s);
            }
            let addr = s.local_addr().unwrap();
            let a = b.id(addr);
            b.put("pconnect", vec![("a", J::from(a))]);
            ends.push(End { a, addr, e: 0, s, sent: 0, got: 0, wopen: true, eof: false });
        } else if k < 30 {
            // The service is told to connect: somewhere it has no connection to.
            let addr = match rng.u8(..6) {
                0 => refused,
                1 => nowhere,
                _ => listeners[rng.usize(..listeners.len())].1,
            };
            let mut b = shared.lock().unwrap();
            let a = b.id(addr);
            // Only if every dial to this address has ended.
            let mut open = 0i32;
            for l in &b.lines {
                if let (J::S(op), Some(J::I(x))) = (&l[0].1, l.get(1).map(|x| x.1.clone())) {
                    if x == a as i64 && l[1].0 == "a" {
                        if op == "askdial" {
                            open += 1;
                        } else if op == "disconnected" {
                            open -= 1;
                        }
                    }
                }
            }
            if open == 0 && !(addr != refused && addr != nowhere && ends.iter().any(|e| e.addr == addr && !e.eof)) {
                let listening = addr != refused && addr != nowhere;
                b.put("askdial", vec![("a", J::from(a)), ("ok", J::from(listening))]);
                drop(b);
                let mut what = vec![Do::Connect(addr)];
                while chance(&rng, 20) {
                    what.push(Do::Write(addr, 1 + rng.u64(..2000)));
                }
                if chance(&rng, 12) {
                    what.push(Do::Disconnect(addr));
                }
                send(what, &mut sent, true);
            }
        } else if k < 55 && !ends.is_empty() {
            let i = rng.usize(..ends.len());
            let n = *pick(&rng, &[1, 10, 1000, 30_000, 200_000, 700_000]);
            if ends[i].wopen {
                let n = 1 + rng.u64(..n);
                ends[i].send(&shared, n);
            }
        } else if k < 62 && !ends.is_empty() {
            let i = rng.usize(..ends.len());
            let n = 1 + rng.usize(..100_000);
            ends[i].read(&shared, n);
        } else if k < 66 && !ends.is_empty() {
            let i = rng.usize(..ends.len());
            ends[i].finish(&shared);
        } else if k < 69 && !ends.is_empty() {
            let i = rng.usize(..ends.len());
            if !ends[i].eof {
                ends.swap_remove(i).reset(&shared);
            }
        } else if k < 92 {
            let mut what = vec![];
            for _ in 0..rng.usize(1..4) {
                let k = rng.u32(..100);
                let up: Vec<usize> = shared.lock().unwrap().up.keys().copied().collect();
                if k < 60 && !up.is_empty() {
                    let addr = shared.lock().unwrap().addrs[*pick(&rng, &up)];
                    let n = *pick(&rng, &[1, 100, 5_000, 100_000, 900_000, 8_000_000]);
                    what.push(Do::Write(addr, 1 + rng.u64(..n)));
                } else if k < 68 && !up.is_empty() {
                    let addr = shared.lock().unwrap().addrs[*pick(&rng, &up)];
                    what.push(Do::Disconnect(addr));
                } else if k < 82 {
                    what.push(Do::Timer(*pick(&rng, &[0, 5, 30, 120, 1100])));
                } else {
                    events += 1;
                    what.push(Do::Event(events));
                }
            }
            send(what, &mut sent, chance(&rng, 85));
        } else if k < 96 {
            std::thread::sleep(Duration::from_millis(rng.u64(1..40)));
        } else if let Some(i) = (0..ends.len()).find(|i| ends[*i].wopen && !ends[*i].eof) {
            // Keep the reactor busy for a while.
            let until = Instant::now() + Duration::from_millis(150);
            while Instant::now() < until {
                ends[i].send(&shared, 3000);
                std::thread::sleep(Duration::from_micros(1500));
            }
        }
    }
    // Let everything arrive.
    send(vec![], &mut sent, true);
    let deadline = Instant::now() + Duration::from_secs(60);
    loop {
        accept(&mut listeners, &mut ends, false);
        for e in ends.iter_mut() {
            while !e.eof && e.read(&shared, 1 << 20) {}
        }
        let settled = {
            let b = shared.lock().unwrap();
            let n_recv = |e: &End| match b.up.get(&e.a) {
                Some(u) if u.0 == e.e => u.1 == e.sent && u.2 == e.got && e.wopen && !e.eof,
                _ => e.eof,
            };
            let attempts = |a: &SocketAddr| {
                let Some(a) = b.addrs.iter().position(|x| x == a) else { return 0 };
                b.lines.iter().filter(|l| matches!((&l[0].1, l.get(1).map(|x| &x.1)), (J::S(s), Some(J::I(x))) if s == "attempted" && *x == a as i64)).count() as u64
            };
            listeners.iter().all(|(_, a, e)| attempts(a) <= *e)
                && ends.iter().all(n_recv)
                && b.up.keys().all(|a| ends.iter().any(|e| e.a == *a && !e.eof))
                && b.lines.iter().filter(|l| matches!(&l[0].1, J::S(s) if s == "command")).count() as u64 == sent
                && b.lines.iter().filter(|l| matches!(&l[0].1, J::S(s) if s == "askdial")).count() <= b.lines.iter().filter(|l| matches!(&l[0].1, J::S(s) if s == "attempted" || s == "disconnected")).count()
        };
        let due = outstanding(&shared.lock().unwrap().lines) == 0;
        if Instant::now() > deadline {
            LATE.store(true, Ordering::SeqCst);
        }
        if (settled && due) || LATE.load(Ordering::SeqCst) {
            break;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    std::thread::sleep(Duration::from_millis(10));
    {
        let mut b = shared.lock().unwrap();
        let n: LocalTime = std::time::SystemTime::now().into();
        b.put("settled", vec![("t", J::from((n - now).as_millis() as i64))]);
    }
    // There may be a command waiting at this point.
    if chance(&rng, 50) {
        events += 1;
        send(vec![Do::Event(events)], &mut sent, chance(&rng, 30));
    }
    stop_tx.send(()).unwrap();
    waker.wake().ok();
    let r = done_rx.recv_timeout(Duration::from_secs(60)).unwrap_or_else(|_| "did not stop".into());
    if r != "did not stop" {
        thread.join().ok();
    }
    let mut b = shared.lock().unwrap();
    b.put("stopped", vec![("res", J::from(r))]);
    std::mem::take(&mut b.lines)
}

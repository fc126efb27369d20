//! The protocol state machine in a simulated reactor: every step is one reactor turn.
//!
//! The real reactor hands inputs to the service, then drains its outputs; dialling and closing
//! connections call back into the service while draining. Wake-ups are kept exactly.
use std::borrow::Cow;
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io;
use std::net::{IpAddr, SocketAddr};
use std::ops::RangeInclusive;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::block::filter::{self, FilterHash, FilterHeader, Filters};
use nakamoto_common::block::time::{AdjustedTime, LocalDuration, LocalTime, RefClock};
use nakamoto_common::block::tree::BlockReader;
use nakamoto_common::block::{BlockHash, BlockHeader, Height};
use nakamoto_common::network::Network;
use nakamoto_common::p2p::peer::{self, KnownAddress};
use nakamoto_common::bitcoin::consensus::{deserialize, serialize};
use nakamoto_net::{Disconnect, Io, Link, Service as _, StateMachine as _};
use nakamoto_p2p::{Command, Config, DisconnectReason, Event, StateMachine};

/// Lets the driver look at a store the state machine owns.
pub struct Shared<T>(Rc<UnsafeCell<T>>);
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
impl<T> Shared<T> {
    pub fn new(t: T) -> Self {
        Shared(Rc::new(UnsafeCell::new(t)))
    }
    /// Single-threaded, never held across a call into the state machine.
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}
pub type Book = HashMap<IpAddr, KnownAddress>;
impl peer::Store for Shared<Book> {
    fn get(&self, ip: &IpAddr) -> Option<&KnownAddress> {
        peer::Store::get(self.get(), ip)
    }
    fn get_mut(&mut self, ip: &IpAddr) -> Option<&mut KnownAddress> {
        peer::Store::get_mut(Shared::get(self), ip)
    }
    fn insert(&mut self, ip: IpAddr, ka: KnownAddress) -> bool {
        peer::Store::insert(Shared::get(self), ip, ka)
    }
    fn remove(&mut self, ip: &IpAddr) -> Option<KnownAddress> {
        peer::Store::remove(Shared::get(self), ip)
    }
    fn iter<'a>(&'a self) -> Box<dyn Iterator<Item = (&IpAddr, &KnownAddress)> + 'a> {
        peer::Store::iter(Shared::get(self))
    }
    fn len(&self) -> usize {
        Shared::get(self).len()
    }
    fn clear(&mut self) {
        peer::Store::clear(Shared::get(self))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub type FStore = FilterCache<Memory<StoredHeader>>;
impl Filters for Shared<FStore> {
    fn get_headers(&self, range: RangeInclusive<Height>) -> Vec<(FilterHash, FilterHeader)> {
        Shared::get(self).get_headers(range)
    }
    fn get_header(&self, height: Height) -> Option<(FilterHash, FilterHeader)> {
        Shared::get(self).get_header(height)
    }
    fn import_headers(&mut self, headers: Vec<(FilterHash, FilterHeader)>) -> Result<Height, filter::Error> {
        Shared::get(self).import_headers(headers)
    }
    fn tip(&self) -> (&FilterHash, &FilterHeader) {
        Shared::get(self).tip()
    }
    fn height(&self) -> Height {
        Shared::get(self).height()
    }
    fn rollback(&mut self, height: Height) -> Result<(), filter::Error> {
        Shared::get(self).rollback(height)
    }
    fn clear(&mut self) -> Result<(), filter::Error> {
        Shared::get(self).clear()
    }
}

pub type Tree = BlockCache<Memory<BlockHeader>>;
pub type Clk = RefClock<AdjustedTime<SocketAddr>>;
pub type Fsm = StateMachine<Tree, Shared<FStore>, Shared<Book>, Clk>;

#[derive(Debug)]
pub enum Out {
    Write(SocketAddr, NetworkMessage),
    /// Dialling failed at once?
    Connect(SocketAddr, bool),
    Disc(SocketAddr, DisconnectReason),
    Ev(Event),
}

pub enum In {
    Init,
    Connected(SocketAddr, Link),
    Lost(SocketAddr),
    Msg(SocketAddr, RawNetworkMessage),
    Cmd(Command),
    Timer,
}

/// The node: the state machine itself, or the client's service around it, which is given and
/// yields bytes.
pub enum Sm {
    Plain(Box<Fsm>),
    Client(Box<Wire>),
}
pub struct Wire {
    svc: nakamoto_client::Service<Tree, Shared<FStore>, Shared<Book>, Clk>,
    rng: fastrand::Rng,
    /// Bytes of the next message that were given already, by peer.
    ahead: BTreeMap<SocketAddr, usize>,
    /// What was written is to be cut into messages again.
    magic: u32,
}
macro_rules! on {
    ($s:expr, $m:ident => $e:expr) => {
        match $s {
            Sm::Plain($m) => $e,
            Sm::Client(w) => {
                let $m = &mut w.svc;
                $e
            }
        }
    };
}
impl Sm {
    fn tick(&mut self, t: LocalTime) {
        on!(self, m => m.tick(t))
    }
    fn initialize(&mut self, t: LocalTime) {
        on!(self, m => m.initialize(t))
    }
    fn connected(&mut self, a: SocketAddr, l: &SocketAddr, k: Link) {
        on!(self, m => m.connected(a, l, k))
    }
    fn attempted(&mut self, a: &SocketAddr) {
        on!(self, m => m.attempted(a))
    }
    fn timer_expired(&mut self) {
        on!(self, m => m.timer_expired())
    }
    fn disconnected(&mut self, a: &SocketAddr, d: Disconnect<DisconnectReason>) {
        if let Sm::Client(w) = self {
            if w.rng.u8(..) < 64 && !w.ahead.contains_key(a) {
                // A connection may end in the middle of a message.
                let b = serialize(&RawNetworkMessage { magic: w.magic, payload: NetworkMessage::Ping(7) });
                let n = w.rng.usize(1..b.len());
                w.svc.message_received(a, Cow::Borrowed(&b[..n]));
            }
            w.ahead.remove(a);
        }
        on!(self, m => m.disconnected(a, d))
    }
    pub fn command(&mut self, c: Command) {
        match self {
            Sm::Plain(m) => m.command(c),
            Sm::Client(w) => w.svc.command_received(c),
        }
    }
    /// A message arrives; `next` is the one after it from the same peer, if known.
    fn message(&mut self, a: &SocketAddr, m: RawNetworkMessage, next: Option<&RawNetworkMessage>) {
        match self {
            Sm::Plain(s) => s.message_received(a, Cow::Owned(m)),
            Sm::Client(w) => {
                let b = serialize(&m);
                let mut at = w.ahead.remove(a).unwrap_or(0);
                while w.rng.u8(..) < 80 && at + 1 < b.len() {
                    let n = w.rng.usize(at + 1..b.len());
                    w.svc.message_received(a, Cow::Borrowed(&b[at..n]));
                    at = n;
                }
                let mut rest = b[at..].to_vec();
                if let Some(next) = next {
                    let b = serialize(next);
                    let n = w.rng.usize(0..b.len());
                    rest.extend_from_slice(&b[..n]);
                    w.ahead.insert(*a, n);
                }
                w.svc.message_received(a, Cow::Owned(rest));
            }
        }
    }
    fn next(&mut self) -> Option<Io<RawNetworkMessage, Event, DisconnectReason>> {
        match self {
            Sm::Plain(s) => s.next(),
            Sm::Client(w) => w.svc.next().map(|io| match io {
                Io::Write(a, b) => Io::Write(a, deserialize(&b).unwrap_or_else(|e| panic!("{} wrote what is not a message: {}", "/repo/client/src/service.rs", e))),
                Io::Connect(a) => Io::Connect(a),
                Io::Disconnect(a, r) => Io::Disconnect(a, r),
                Io::SetTimer(d) => Io::SetTimer(d),
                Io::Event(e) => Io::Event(e),
            }),
        }
    }
}

pub struct Node {
    pub sm: Sm,
    pub clock: Clk,
    pub book: Shared<Book>,
    pub filters: Shared<FStore>,
    pub time: LocalTime,
    pub t0: LocalTime,
    pub timers: BTreeSet<LocalTime>,
    /// Open sockets: is the connection established?
    pub socks: BTreeMap<SocketAddr, bool>,
    /// Addresses that can't be dialled.
    pub undialable: BTreeSet<SocketAddr>,
    pub network: Network,
    local: SocketAddr,
}

impl Node {
    #[allow(clippy::too_many_arguments)]
    pub fn new(network: Network, tree: Tree, filters: FStore, book: Book, time: LocalTime, seed: u64, cfg: Config) -> Node {
        let clock: Clk = RefClock::from(AdjustedTime::new(time));
        let book = Shared::new(book);
        let filters = Shared::new(filters);
        let rng = fastrand::Rng::with_seed(seed);
        let sm = if cfg.ping_timeout == Config::default().ping_timeout && seed % 4 != 0 {
            let c = nakamoto_client::Config {
                network: cfg.network,
                domains: cfg.domains,
                connect: cfg.connect,
                user_agent: cfg.user_agent,
                hooks: cfg.hooks,
                services: cfg.services,
                limits: cfg.limits,
                ..Default::default()
            };
            let svc = nakamoto_client::Service::new(tree, filters.clone(), book.clone(), clock.clone(), rng, c);
            Sm::Client(Box::new(Wire { svc, rng: fastrand::Rng::with_seed(seed ^ 0xABCD), ahead: BTreeMap::new(), magic: network.magic() }))
        } else {
            Sm::Plain(Box::new(StateMachine::new(tree, filters.clone(), book.clone(), clock.clone(), rng, cfg)))
        };
        Node {
            sm,
            clock,
            book,
            filters,
            time,
            t0: time,
            timers: BTreeSet::new(),
            socks: BTreeMap::new(),
            undialable: BTreeSet::new(),
            network,
            local: ([127, 0, 0, 1], 9999).into(),
        }
    }

    pub fn now_ms(&self) -> u64 {
        (self.time - self.t0).as_millis() as u64
    }

    /// The next wake-up.
    pub fn next_timer(&self) -> Option<LocalTime> {
        self.timers.iter().next().copied()
    }

    /// One reactor turn at the current time.
    pub fn turn(&mut self, ins: Vec<In>) -> Vec<Out> {
        self.sm.tick(self.time);
        let mut ins = std::collections::VecDeque::from(ins);
        while let Some(i) = ins.pop_front() {
            match i {
                In::Init => self.sm.initialize(self.time),
                In::Connected(a, l) => {
                    self.socks.insert(a, true);
                    self.sm.connected(a, &self.local.clone(), l);
                }
                In::Lost(a) => {
                    if self.socks.remove(&a).is_some() {
                        self.sm.disconnected(&a, Disconnect::ConnectionError(Arc::new(io::Error::from(io::ErrorKind::ConnectionReset))));
                    }
                }
                In::Msg(a, m) => {
                    let next = ins.iter().find(|i| matches!(i, In::Msg(b, _) | In::Lost(b) | In::Connected(b, _) if *b == a));
                    let next = if let Some(In::Msg(_, n)) = next { Some(n) } else { None };
                    self.sm.message(&a, m, next)
                }
                In::Cmd(c) => self.sm.command(c),
                In::Timer => {
                    self.timers = self.timers.split_off(&(self.time + LocalDuration::from_millis(1)));
                    self.sm.timer_expired();
                }
            }
        }
        let mut out = Vec::new();
        while let Some(io) = self.sm.next() {
            match io {
                Io::Write(a, m) => {
                    assert_eq!(m.magic, self.network.magic(), "{} wrote a message for another network", "/repo/p2p/src/fsm");
                    if self.socks.contains_key(&a) {
                        out.push(Out::Write(a, m.payload));
                    }
                }
                Io::Connect(a) => {
                    if self.socks.contains_key(&a) {
                        // Dialling an address with an open socket: the reactor reports nothing.
                        out.push(Out::Connect(a, false));
                    } else if self.undialable.contains(&a) {
                        out.push(Out::Connect(a, true));
                        self.sm.disconnected(&a, Disconnect::DialError(Arc::new(io::Error::from(io::ErrorKind::AddrNotAvailable))));
                    } else {
                        self.socks.insert(a, false);
                        out.push(Out::Connect(a, false));
                        self.sm.attempted(&a);
                    }
                }
                Io::Disconnect(a, r) => {
                    if self.socks.remove(&a).is_some() {
                        out.push(Out::Disc(a, r.clone()));
                        self.sm.disconnected(&a, Disconnect::StateMachine(r));
                    }
                }
                Io::SetTimer(d) => {
                    self.timers.insert(self.time + d);
                }
                Io::Event(e) => out.push(Out::Ev(e)),
            }
        }
        out
    }

    pub fn msg(&self, a: SocketAddr, payload: NetworkMessage) -> In {
        In::Msg(a, RawNetworkMessage { magic: self.network.magic(), payload })
    }

    /// The active chain.
    pub fn chain(&mut self) -> Vec<BlockHash> {
        let v = Arc::new(Mutex::new(Vec::new()));
        let w = v.clone();
        self.sm.command(Command::QueryTree(Arc::new(move |t: &dyn BlockReader| {
            *w.lock().unwrap() = t.iter().map(|(_, h)| h.block_hash()).collect();
        })));
        let r = v.lock().unwrap().clone();
        r
    }
}

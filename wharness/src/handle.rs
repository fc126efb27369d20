//! A stand-in for the client: records what the wallet asks of it.
use nakamoto_client::handle::{Error, Handle};
use nakamoto_client::{chan, Command, Event, Peer};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::Address;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{Script, Transaction, Txid};
use nakamoto_common::block::filter::BlockFilter;
use nakamoto_common::block::tree::{self, BlockReader, ImportResult};
use nakamoto_common::block::{Block, BlockHash, BlockHeader, Height};
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_net::Link;
use std::net::SocketAddr;
use std::ops::{Bound, RangeInclusive};
use std::sync::{Arc, Mutex};

pub type Scan = (Bound<Height>, Bound<Height>, Vec<Script>);
#[derive(Clone, Default)]
pub struct Stub {
    pub scans: Arc<Mutex<Vec<Scan>>>,
}
impl Handle for Stub {
    fn command(&self, cmd: Command) -> Result<(), Error> {
        if let Command::Rescan { from, to, watch } = cmd {
            self.scans.lock().unwrap().push((from, to, watch));
        }
        Ok(())
    }
    fn get_tip(&self) -> Result<(Height, BlockHeader, Uint256), Error> {
        unimplemented!()
    }
    fn get_block(&self, _: &BlockHash) -> Result<Option<(Height, BlockHeader)>, Error> {
        unimplemented!()
    }
    fn get_block_by_height(&self, _: Height) -> Result<Option<BlockHeader>, Error> {
        unimplemented!()
    }
    fn query_tree(&self, _: impl Fn(&dyn BlockReader) + Send + Sync + 'static) -> Result<(), Error> {
        unimplemented!()
    }
    fn find_branch(&self, _: &BlockHash) -> Result<Option<(Height, NonEmpty<BlockHeader>)>, Error> {
        unimplemented!()
    }
    fn request_block(&self, _: &BlockHash) -> Result<(), Error> {
        unimplemented!()
    }
    fn request_filters(&self, _: RangeInclusive<Height>) -> Result<(), Error> {
        unimplemented!()
    }
    fn blocks(&self) -> chan::Receiver<(Block, Height)> {
        unimplemented!()
    }
    fn filters(&self) -> chan::Receiver<(BlockFilter, BlockHash, Height)> {
        unimplemented!()
    }
    fn events(&self) -> chan::Receiver<Event> {
        unimplemented!()
    }
    fn broadcast(&self, _: NetworkMessage, _: fn(Peer) -> bool) -> Result<Vec<SocketAddr>, Error> {
        unimplemented!()
    }
    fn connect(&self, _: SocketAddr) -> Result<Link, Error> {
        unimplemented!()
    }
    fn disconnect(&self, _: SocketAddr) -> Result<(), Error> {
        unimplemented!()
    }
    fn submit_transaction(&self, _: Transaction) -> Result<NonEmpty<SocketAddr>, Error> {
        unimplemented!()
    }
    fn get_submitted_transaction(&self, _: &Txid) -> Result<Option<Transaction>, Error> {
        unimplemented!()
    }
    fn import_headers(&self, _: Vec<BlockHeader>) -> Result<Result<ImportResult, tree::Error>, Error> {
        unimplemented!()
    }
    fn import_addresses(&self, _: Vec<Address>) -> Result<(), Error> {
        unimplemented!()
    }
    fn wait<F: FnMut(nakamoto_p2p::fsm::Event) -> Option<T>, T>(&self, _: F) -> Result<T, Error> {
        unimplemented!()
    }
    fn wait_for_peers(&self, _: usize, _: impl Into<ServiceFlags>) -> Result<Vec<(SocketAddr, Height, ServiceFlags)>, Error> {
        unimplemented!()
    }
    fn wait_for_height(&self, _: Height) -> Result<BlockHash, Error> {
        unimplemented!()
    }
    fn shutdown(self) -> Result<(), Error> {
        unimplemented!()
    }
}

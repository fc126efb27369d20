#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "The active chain is the valid known chain with the most work",
  "After any sequence of header imports, however ordered or batched, the active chain is a hash-linked chain starting at genesis, its reported height, tip and cumulative work agree with its headers, and no branch of known, connected and valid headers carries more cumulative work. A branch with equal work never displaces the active chain on mainnet, and on other networks equal-work branches are resolved deterministically towards the lowest tip hash. A header that arrives before its parent is not lost: the branch competes once the parent arrives.",
  ["histories", "inputs"], "every block tree, every arrival order, batching, duplication and orphaning of its headers, every distribution of work",
  "Existing tests compare a handful of generated trees against a naive model that takes the whole tree in a few random orders; they do not vary work per block, interleave orphans, duplicates and ties, or check after every step.",
  ["chain/src/block/cache.rs", "common/src/block/tree.rs"],
  [("fork choice", "chain/src/block/cache.rs import_block / chain_candidates / switch_to_fork"), ("lookups", "chain/src/block/cache.rs get_block, find_branch, range, iter")],
  [("chain", "active chain", "BlockCache"), ("orphans", "known headers not on the active chain", "BlockCache")],
  ["BlockReader::tip/height/iter/chain_work/get_block/contains/is_known/find_branch after each import"])

p("C02", "Only headers obeying the consensus rules enter the active chain",
  "Every header of the active chain meets, relative to its own ancestors, the required difficulty target (including periodic retargeting with its clamps and the test-network minimum-difficulty exception), has proof of work for it, has a timestamp above the median of its eleven predecessors and at most two hours after the network-adjusted time at import, and equals the checkpoint hash at every checkpointed height. Conversely a header meeting all of these that extends the tip is accepted. Forks that leave the active chain below the last checkpoint reached are refused.",
  ["inputs", "histories"], "every header, every ancestry (on the active chain or on a side branch), every clock value and checkpoint set",
  "Tests validate a fixed mainnet prefix and a few hand-made bad headers on the active tip; they never explore time/target boundaries on side branches or across reorganisations.",
  ["chain/src/block/cache.rs", "common/src/block/tree.rs", "common/src/block.rs", "common/src/block/time.rs"],
  [("header validation", "chain/src/block/cache.rs validate, validate_branch, median_time_past, next_min_difficulty_target"), ("retarget", "common/src/block/tree.rs next_difficulty_target"), ("checkpoint floor", "chain/src/block/cache.rs import_block, last_checkpoint")],
  [("checkpoints", "height to hash", "BlockCache")], ["BlockTree::import_blocks / extend_tip result and the active chain"])

p("C03", "Reported chain changes replay exactly to the active chain",
  "An import that changes the active chain reports exactly the blocks that left the chain (highest first) and exactly those that joined it (lowest first), with their heights, and the new tip; an import that leaves the chain as it was reports no change. A client that applies the node's block-disconnected and block-connected events in order always holds the node's active chain, also when a batch contains several reorganisations or is cut short by an invalid header.",
  ["histories", "inputs"], "every sequence of header batches, with multiple reorganisations, duplicates, orphans and invalid headers per batch",
  "Tests check single reorgs with one batch; they do not fold the event stream against the chain over long histories, nor batches that reorganise back and forth or abort half-way.",
  ["chain/src/block/cache.rs", "p2p/src/fsm/syncmgr.rs"],
  [("aggregation of reverted/connected", "chain/src/block/cache.rs import_blocks"), ("event emission", "p2p/src/fsm/syncmgr.rs import_blocks")],
  [], ["ImportResult", "Event::BlockConnected / BlockDisconnected / BlockHeadersImported"])

p("C04", "Header and filter stores survive crashes and reload what was stored",
  "After any history of appends and rollbacks a store that is reopened contains exactly the sequence last stored, readable by height and in order, and a node restarted on it resumes with the same active chain. If the process dies at any point of a write, opening and healing the file yields a readable prefix of complete entries, all of which were stored, and never invents, reorders or corrupts one; a store whose genesis does not match the network is refused.",
  ["crash_points", "histories", "inputs"], "every sequence of put/rollback/sync/reopen, every byte boundary at which a write is cut short",
  "Tests write a few headers once and truncate once; they do not interleave puts with rollbacks and reopening, nor cut a file at every byte.",
  ["chain/src/block/store/io.rs", "chain/src/block/store/memory.rs", "chain/src/block/cache.rs", "chain/src/filter/cache.rs"],
  [("file store", "chain/src/block/store/io.rs put/rollback/check/heal/iter/get/len"), ("load", "chain/src/block/cache.rs load_with")],
  [], ["Store trait over a scratch file"])

p("C05", "The filter-header chain mirrors the active block chain",
  "The stored filter-header chain is always hash-linked from the network's genesis filter, never extends past the block-header chain, and each entry belongs to the block of the active chain at its height: when blocks are disconnected their filter headers are dropped before new ones are accepted. Filter headers from peers are accepted only if they were asked for, extend the current filter tip and cover the whole range up to the requested block of the active chain. Missing filter headers are requested while an outbound peer that serves filters is connected, and requests that time out are repeated, so that the chain of one honest peer is reached; the node reports itself in sync only when it is. Queries of peers are answered from this chain with exactly the range asked for, or not at all, and a peer that gives or asks for an invalid range is treated as misbehaving.",
  ["schedules", "histories", "inputs"], "every interleaving of header sync, reorganisations, filter-header replies (late, stale, duplicated, wrong), peers and restarts",
  "Tests sync one linear chain from one honest peer; no stale reply across a reorg, no competing peers, no adversarial ranges.",
  ["p2p/src/fsm/cbfmgr.rs", "chain/src/filter/cache.rs", "common/src/block/filter.rs"],
  [("import", "p2p/src/fsm/cbfmgr.rs received_cfheaders"), ("rollback on reorg", "p2p/src/fsm/cbfmgr.rs event handling / rollback"), ("chain", "chain/src/filter/cache.rs import_headers, rollback, verify")],
  [], ["StateMachine filter store after every step", "getcfheaders messages sent", "Event::FilterHeadersImported/Verified"])

p("C06", "Only filters committed to by the filter-header chain are used",
  "A compact filter received from a peer is reported only if it belongs to the block of the active chain at its height and hashes to the stored filter header of that height, and is cached or matched against watched scripts only if it was also requested; any other filter changes nothing, and a peer sending one that contradicts the filter header is treated as misbehaving.",
  ["inputs", "schedules", "histories"], "every filter message (right, tampered, stale, unsolicited, from any peer) at every point of a scan or reorganisation",
  "Tests feed valid filters of one chain; no tampered or stale filter is delivered at arbitrary points of the scan.",
  ["p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/cbfmgr/rescan.rs", "common/src/block/filter.rs"],
  [("filter verification", "p2p/src/fsm/cbfmgr.rs received_cfilter")], [], ["Event::FilterReceived / FilterProcessed, getdata for matched blocks, PeerMisbehaved"])

p("C07", "A rescan processes every block of its range and misses no match",
  "A rescan handles each height of its requested range on the active chain, in ascending order without gaps, whatever the order, timing or source (network or cache) of filter replies, and requests the block of every filter that matches a watched script or all outputs of a submitted, unconfirmed transaction; filters that don't arrive are requested again; after a reorganisation the replaced heights are handled again on the new chain. It reports completion once, and only after every height of the range was handled, and never reports progress beyond a matching block that is still to be delivered; scripts added while it runs are used from then on. With one honest peer it always gets to the end.",
  ["schedules", "histories", "inputs"], "every delivery order, loss, duplication and delay of filter replies; every reorganisation and watch-list change during the scan; every range",
  "The existing property test shuffles filters on a fixed chain; it has no reorg, loss with retry, cached filters, restarted scans or bounded ranges at the same time.",
  ["p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/cbfmgr/rescan.rs", "p2p/src/fsm/filter_cache.rs"],
  [("rescan state machine", "p2p/src/fsm/cbfmgr/rescan.rs"), ("scheduling of requests", "p2p/src/fsm/cbfmgr.rs rescan, get_cfilters, sync")], [],
  ["Event::FilterProcessed/RescanStarted/Completed", "getcfilters and getdata messages"])

p("C08", "Only requested, authentic, active-chain blocks are delivered, in order",
  "A block is delivered to the user only if it was requested, its contents are those its header commits to, and its header is on the active chain at the reported height when delivered; each requested block is delivered once per request, in ascending height order, once no requested block is outstanding, and its request is retried with peers until it arrives or the block leaves the chain. Blocks requested because of a matching filter are reported as matches when delivered. A peer that sends a forged body is treated as misbehaving.",
  ["schedules", "inputs", "histories"], "every order, duplication and loss of block replies, every forged block body, every reorganisation between request and delivery",
  "Tests deliver genuine blocks of a single chain in a few orders; none forges a body, drops replies or reorganises between request and delivery.",
  ["p2p/src/fsm/invmgr.rs", "p2p/src/fsm.rs"],
  [("block queue", "p2p/src/fsm/invmgr.rs received_block / get_block / block_reverted")], [], ["Event::BlockProcessed / BlockMatched", "getdata messages"])

p("C09", "A submitted transaction is announced until confirmed and followed after",
  "A transaction submitted by the user is announced to every connected peer that relays transactions, also one that connects later, by the kind of identifier the peer negotiated, given to any peer that asks for it, and re-announced periodically to peers that have not acknowledged it, until a processed block of the active chain contains it; confirmation is reported once per inclusion with the right block and height, and if that block is disconnected the transaction is reported as reverted and announced again. A peer that repeatedly ignores announcements is dropped, and no transaction is forgotten before it is confirmed.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of submissions, peer arrivals and departures, getdata requests, blocks, reorganisations and timeouts",
  "Tests cover one transaction, one peer set and one reorg each; they do not combine retries, disconnects, several transactions and reorgs.",
  ["p2p/src/fsm/invmgr.rs", "p2p/src/fsm.rs", "p2p/src/fsm/event.rs"],
  [("mempool and announcements", "p2p/src/fsm/invmgr.rs announce, received_wake, received_getdata, received_block, block_reverted")], [], ["Event::TxStatusChanged", "inv and tx messages, disconnects"])

p("C10", "A peer takes part only after a complete, acceptable handshake",
  "A connection becomes a negotiated peer (is counted, reported negotiated with the properties it announced, and takes part in anything) only after its version and then its acknowledgement arrived, each once, with an acceptable protocol version and network and, for connections the node opened, the required services and a chain that is not far behind. The node sends its own version, feature and acknowledgement messages exactly once, at their place, and nothing else before the handshake is complete; what a peer sends before that has no other effect. A violation (a repeated or refused handshake message, a wrong network magic) or a handshake that makes no progress within its timeout ends in disconnection, no peer is disconnected without cause, and for each connection exactly one connected, at most one negotiated and exactly one disconnected report is made, in this order. A reconnected peer starts anew: nothing of the previous connection is used or sent.",
  ["schedules", "inputs", "histories"], "every order, repetition and omission of handshake messages, on both link directions, with every version/services value and every timeout point, over many connections",
  "Tests run the successful handshake and a few single deviations; not arbitrary message sequences or reconnection histories.",
  ["p2p/src/fsm/peermgr.rs", "p2p/src/fsm.rs"],
  [("handshake", "p2p/src/fsm/peermgr.rs received_version, received_verack, received_wake"), ("dispatch", "p2p/src/fsm.rs message_received")], [],
  ["messages sent, Event::PeerConnected/PeerNegotiated/PeerDisconnected, disconnects"])

p("C11", "Connection counts stay within limits and each peer is connected once",
  "The node never keeps more inbound peers than configured. It opens outbound connections by itself only while its outbound peers (connected or being connected) are fewer than one and a half times the target and those with preferred services or not yet known are fewer than the target, never when persistent peers are configured, and only to addresses of allowed networks; it never opens a second connection to an address it is connected or connecting to. An attempt that gets no answer within the connection timeout is given up, and the slot of a failed attempt or a departed peer is free again. While there is room and an untried usable address is known it does not wait longer than a minute to try it. A connection the user asks for is attempted and one the user closes is closed.",
  ["schedules", "histories", "configurations"], "every sequence of inbound and outbound connections, failures, disconnects and timeouts under every limit configuration",
  "Simulation tests run a fixed topology; limits are checked in one configuration and at the end only.",
  ["p2p/src/fsm/peermgr.rs", "p2p/src/fsm/addrmgr.rs"],
  [("maintain connections", "p2p/src/fsm/peermgr.rs maintain_connections, connect, peer_connected")], [], ["Io::Connect, Io::Disconnect, negotiated peers"])

p("C12", "Peers are probed and silent ones are dropped",
  "Every negotiated peer is pinged at once and then two minutes after its last answer, each time with a nonce not used before; a ping from a negotiated peer is answered exactly once, with the same nonce; a peer that does not answer a ping with its nonce within the configured ping timeout is disconnected while one that answers in time is not. A pong counts only for the outstanding ping and only with its nonce.",
  ["schedules", "fault_sequences"], "every timing of ticks, pings, pongs (right, wrong, duplicated, late) and disconnects",
  "Tests run a single exchange with one timing.",
  ["p2p/src/fsm/pingmgr.rs"], [("ping state", "p2p/src/fsm/pingmgr.rs")], [], ["ping/pong messages and disconnects"])

p("C13", "Header queries from peers are answered from the active chain",
  "A header query is answered with consecutive active-chain headers that follow the first locator found on the active chain (genesis if none), up to and including the stop block, never more than the protocol maximum, and with the stop block alone when no locator is given; while the node is itself waiting for headers it may leave queries unanswered. Inbound peers that are behind are told of a new tip. A locator list of its own chain starts at the given height, its first eight entries are consecutive and its gaps then at most double; it never goes below the last checkpoint reached, and goes down to it (to genesis if there is none), so that a peer can find the fork point.",
  ["inputs", "histories"], "every chain shape, locator list, stop hash and limit",
  "Tests use one chain and a few locator lists.",
  ["chain/src/block/cache.rs", "common/src/block.rs", "p2p/src/fsm/syncmgr.rs"],
  [("locate", "chain/src/block/cache.rs locate_headers, locator_hashes"), ("serving", "p2p/src/fsm/syncmgr.rs received_getheaders")], [], ["headers messages"])

p("C14", "The address book offers only usable addresses, fairly spread",
  "Addresses learned from peers or imported by the user enter the book only if they offer the required services, are routable, of an allowed network, not one of the node's own and not of a banned host; those from peers also need a timestamp that is neither missing nor more than an hour in the future, and must come in a message with between 1 and 1000 entries. The book keeps one entry per host, does not overwrite it with a re-announcement, and holds at most 256 entries per address range. For its own connections the node only picks addresses of the book, and never one that is banned, connected, tried without success before, or picked within the last two minutes; attempts and successes are recorded in the entry. A peer that misbehaves is removed from the book and banned. A peer that asks for addresses gets one entry of each address range of the book.",
  ["histories", "inputs"], "every history of address messages, connection outcomes, misbehaviour and time",
  "Tests check insertion rules and sampling frequency one at a time.",
  ["p2p/src/fsm/addrmgr.rs", "common/src/p2p/peer.rs"],
  [("book", "p2p/src/fsm/addrmgr.rs insert, sample, peer_* handlers")], [], ["getaddr/addr handling, Io::Connect targets, stored peers"])

p("C15", "Network time is a bounded median of distinct peers' offsets",
  "Network-adjusted time equals local time plus an offset computed only from samples of distinct peers (the first sample of each, at most 200 peers, counted when the handshake completes). The offset is updated to the median of the samples (including an initial zero) whenever their number is odd and at least five; if the median exceeds 70 minutes either way the offset is zero instead. A single peer, or repeated samples from it, cannot move it.",
  ["inputs", "histories"], "every sequence of samples from every set of sources, every local clock value",
  "Tests sample a fixed short list of offsets.",
  ["common/src/block/time.rs"], [("median filter", "common/src/block/time.rs AdjustedTime")], [], ["AdjustedTime::offset / from / local_time"])

p("C16", "Timers fire once, never early, and never get lost",
  "Every requested wake-up fires exactly once, not before its time and at the first poll at or after it; the reported next wake-up is the earliest one outstanding, and firing one timer does not disturb the others. Only a request that falls within less than a second of one already outstanding may be merged with it.",
  ["schedules", "inputs"], "every sequence of registrations with arbitrary deadlines and every sequence of wake times",
  "One test with four fixed timers.",
  ["net/poll/src/time.rs", "net/poll/src/reactor.rs"], [("timer queue", "net/poll/src/time.rs TimeoutManager")], [], ["TimeoutManager::register/next/wake"])

p("C17", "Message framing does not depend on how bytes arrive",
  "For every stream of encoded messages, cut into chunks at any positions, decoding yields exactly the encoded messages in order and nothing else; incomplete input yields nothing until completed, and input that is not a message yields an error rather than a message, a hang or a crash.",
  ["inputs", "schedules"], "every message sequence, every chunking, every corruption",
  "One test with a fixed chunk sequence of two messages.",
  ["p2p/src/stream.rs", "client/src/service.rs", "net/poll/src/socket.rs"], [("decoder", "p2p/src/stream.rs Decoder")], [], ["Decoder::input/decode_next", "Service::message_received"])

p("C18", "The peer address store reloads exactly what was flushed",
  "Whatever sequence of insertions, updates and removals is applied, reopening the peer store after a flush yields exactly the entries it held, with their metadata (times to the second); an unreadable file is reported as an error rather than silently replaced, and an existing entry is not overwritten by a mere re-announcement.",
  ["histories", "inputs"], "every sequence of insert/update/remove/flush/reopen and every address kind",
  "One test with a few entries.",
  ["client/src/peer.rs", "common/src/p2p/peer.rs"], [("peer cache", "client/src/peer.rs Cache, common/src/p2p/peer.rs KnownAddress json")], [], ["Store trait over a scratch file"])

p("C19", "The wallet's coins and balance follow from the transactions it applied",
  "After any sequence of applied transactions the wallet's unspent outputs are exactly the outputs paying its own addresses that no transaction applied afterwards spent, its balance is their sum, and an address of its own is marked used exactly when it received funds; reopening the database or scanning the same blocks again leaves the same coins. A write the database refuses is reported and not taken for done. A session asks the client to scan from its birth height, watching all its addresses (nothing when offline), and shows the balance that follows from what was applied.",
  ["histories", "inputs", "fault_sequences"], "every sequence of transactions paying to or spending from wallet addresses, over any number of sessions, with repetition and with a database that refuses writes at any point",
  "Tests insert a few rows; none folds random transaction histories or fails a write.",
  ["wallet/src/wallet.rs", "wallet/src/wallet/db.rs"], [("apply", "wallet/src/wallet.rs apply"), ("session", "wallet/src/wallet.rs run"), ("db", "wallet/src/wallet/db.rs")], [], ["Wallet/Db public API", "commands sent to the client handle"])

p("C20", "Every subscriber sees every event, in order",
  "Each subscriber receives every event published after it subscribed and none before, in publication order, mapped as requested; dropping one subscriber affects no other.",
  ["schedules", "histories"], "every interleaving of subscribe, publish and drop",
  "One test with two subscribers and fixed order.",
  ["net/src/event.rs"], [("broadcast", "net/src/event.rs Broadcast, Emitter, Publisher")], [], ["Subscriber::recv"])

p("C21", "Fee estimates follow the active chain across reorganisations",
  "A block's fee estimate is computed from exactly those of its transactions whose inputs are all known, as the order statistics of their fee rates (low \u2264 median \u2264 high), and rolling back up to twelve processed blocks restores the known-output set so that estimates for the new chain equal those of a node that only ever saw the new chain.",
  ["histories", "inputs"], "every sequence of processed blocks and rollbacks up to the snapshot depth",
  "A few tests with one chain and one rollback.",
  ["p2p/src/fsm/fees.rs", "p2p/src/fsm/invmgr.rs"], [("estimator", "p2p/src/fsm/fees.rs process, rollback")], [], ["FeeEstimator::process results, Event::FeeEstimated"])

p("C22", "Persistent peers are reconnected with growing delay",
  "A configured persistent peer is connected at start, and after each disconnection or failed attempt it is retried: after a second at first, with the delay doubling on each further failed attempt up to 60 minutes and starting over once a connection is established. No attempt is made before its delay elapsed, the attempt is made when it has, and attempts never stop.",
  ["schedules", "fault_sequences"], "every sequence of failures, disconnects, successes and timer schedules for several persistent peers",
  "One test with a fixed failure pattern.",
  ["p2p/src/fsm/peermgr.rs"], [("retry", "p2p/src/fsm/peermgr.rs peer_disconnected, maintain_persistent")], [], ["Io::Connect and wake-ups"])

p("C23", "Header sync reaches the best honest chain and cannot be stalled",
  "While a connected outbound peer serves a valid chain with more work than ours, the node keeps requesting and importing headers until it holds that chain, with at most one header request outstanding per peer and a timeout for each; requests that time out are retried elsewhere or given up so that sync continues. Whenever a sync is due and the chain is recent and no peer claims a higher one, the node reports that it is in sync, and only then; with a stale chain it samples its outbound peers periodically. Oversized or unsolicited bulk header messages are not imported, and a peer that sends headers breaking the consensus rules is treated as misbehaving.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of replies, losses, timeouts, peer arrivals and departures, and adversarial header messages",
  "Simulation tests run honest networks with limited latency; lost replies, malicious headers and timeouts are not combined.",
  ["p2p/src/fsm/syncmgr.rs"], [("sync", "p2p/src/fsm/syncmgr.rs sync, received_headers, received_wake")], [], ["getheaders messages, active chain, PeerMisbehaved"])

p("C24", "The filter cache is a bounded window of recent filters",
  "The filter cache's accounted size equals the bytes it holds and never exceeds its capacity after an insertion, it evicts the lowest heights first and no more than needed, and rolling back removes exactly the heights above the given one; a lookup returns only what was stored for that height.",
  ["histories", "inputs"], "every sequence of insertions, evictions, rollbacks and lookups, with every filter size and capacity",
  "A property test checks contiguity of pushes; not size accounting across replacement and rollback.",
  ["p2p/src/fsm/filter_cache.rs"], [("cache", "p2p/src/fsm/filter_cache.rs")], [], ["FilterCache public API"])

p("C25", "The reactor carries every connection, byte and command once and in order",
  "Every connection that is established is reported to the service as connected exactly once - a dialled one only after its attempt was reported, and never if it was refused - followed by every byte the peer sent, in order and without loss, also when the peer closes right after sending, and then by exactly one end. Bytes the service writes reach the peer in order and without loss however slowly it reads, while the connection lasts; a connection is closed when the service says so, and a dial that fails is reported as ended without ever being connected. Commands reach the service and events reach the subscribers exactly once and in order, and a shutdown request ends the run.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of connections, partial reads and writes, slow readers, closes, resets, refused dials, commands, timers and shutdown",
  "The reactor itself has no test; nothing exercises partial writes, resets or simultaneous events.",
  ["net/poll/src/reactor.rs", "net/poll/src/socket.rs", "net/poll/src/fallible.rs", "net/src/lib.rs"],
  [("event loop", "net/poll/src/reactor.rs run, process, handle_events, handle_readable, handle_writable"), ("buffered socket", "net/poll/src/socket.rs push, flush")], [],
  ["calls the reactor makes to the Service", "bytes on real sockets"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")

"""Which rule decides which property."""
import rules_queue as q
def queue(prop):
    def run(P, rep): q.run_queue(P, rep, {prop})
    return run
BASE = ['MIR of the nightly toolchain stands for the stable build', 'library functions behave as modelled in nx/models.py', 'no unsafe code in the crate']
PROPS = {}
def prop(id, run, rule, covers, mir=True, assumes=()):
    PROPS[id] = dict(run=run, rule=rule, covers=covers, mir=mir, assumes=BASE + list(assumes))
QC = 'every path of every public queue operation and of the timeout task through the MIR of the queue broker, helpers inlined, following one arbitrary message per path'
prop('Q01', queue('Q01'), 'simulate the durable operations of a call on the rows of the followed message and compare with what the call left in memory', QC)
prop('Q02', queue('Q02'), 'every send of a durable operation happens while the queue lock of the state change is held', QC)
prop('Q03', queue('Q03'), 'after each critical section the followed message is in exactly one place, and the index of its state lists it under its own key', QC)
prop('Q04', queue('Q04'), 'each call makes only its allowed transition and returns what it did', QC)
prop('Q05', queue('Q05'), 'requeue only under attempts < limit, dead-letter only under attempts >= limit, one attempt per delivery', QC)
import rules_group as g
def group(prop):
    def run(P, rep): g.run_group(P, rep, {prop})
    return run
GC = 'every path of every operation of ConsumerGroup through its MIR, helpers inlined or analysed from every state, following one arbitrary message per path'
GA = ['the log handed to fetch holds message seq at index seq - ram_start (property S01)']
prop('S04', group('S04'), 'a message taken off a list or passed by the delivery position is on another list (or acknowledged, given up, below the head) when the operation returns', GC, assumes=GA)
prop('S05', group('S05'), 'the acknowledged position advances only under facts that exclude every open state of the message it passes', GC)
prop('S06', group('S06'), 'generation, membership and ownership comparisons dominate deliveries and acknowledgements; leases end only under a due or leaving fact', GC)
prop('S08', group('S08'), 'comparisons with max_deliveries and max_ack_pending dominate deliveries and give-ups', GC)
prop('S11', group('S11'), 'is_fetching_cold is false when a member was removed or the group repositioned', GC)
import rules_stream as s, rules_log as l
def many(prop, *runs):
    def run(P, rep):
        for r in runs: r(P, rep, {prop})
    return run
for k in ('S05', 'S06', 'S08'): PROPS[k]['run'] = many(k, g.run_group, s.run_manager)
PROPS['S04']['run'] = many('S04', g.run_group, s.run_manager, l.run_log)
TC = 'every path of TopicState and of every StreamManager operation and background task, group operations abstracted by their specified effect'
LC = 'every path of the storage writer task, append, flush, rotation, group save, and of recovery'
LA = ['writes to the log files themselves do not fail (an error is logged and dropped by the code); failures of flush are covered', 'no power loss between flush and disk (the code never calls fsync)']
prop('S01', many('S01', s.run_topic, s.run_manager, l.run_log), 'each append assigns next_seq, keeps the in-memory window contiguous, and is sent to the writer under the topic lock exactly once; reads index by distance from ram_start', TC + '; ' + LC, assumes=LA)
prop('S02', many('S02', l.run_log), 'symbolic layout of what is written equals the layout of what is read; a record is accepted only under a matching checksum', LC)
prop('S03', many('S03', s.run_topic, s.run_manager, l.run_log), 'recovery walks segments newest to oldest, keeps what it loads, and the restored topic continues behind the last message', TC + '; ' + LC)
prop('S07', many('S07', s.run_topic, s.run_manager, l.run_log), 'eviction from memory only under persisted or retention facts; the persisted mark is set only after a successful flush of what was written', TC + '; ' + LC, assumes=LA)
prop('S10', many('S10', s.run_reads, l.run_log), 'a memory miss in front of the window leads to a disk read from the same number with the same limit; it starts at the segment holding the number, goes through all later ones in order, and every intact record from the number on is returned until the limit is reached', 'every path of StreamManager::{read, fetch} and of the reading of segments (cold_read, read_log_segment, find_segments, and the naming of segments by the writer)', assumes=LA)
prop('S09', many('S09', s.run_manager, l.run_log), 'every operation that may move a position leaves the topic marked dirty; a cleared mark is followed by a save of every group; the file is replaced atomically', TC + '; ' + LC, assumes=LA)
prop('W01', many('W01', s.run_manager, q.run_queue), 'every state change that makes a message available is followed by a notification, and every wait uses a handle taken before the last look at the messages', 'every path of the stream and queue operations')
import rules_qstore as qs
def qstore(prop):
    def run(P, rep): qs.run_qstore(P, rep, {prop})
    return run
QA = ['an SQL statement that fails inside a batch is logged and skipped by the code; only failures of the transaction as a whole are covered', 'SQLite and rusqlite execute the statements they are given; no power loss (synchronous=OFF)']
prop('Q06', qstore('Q06'), 'a received operation leaves the batch only after a commit that followed its execution, in arrival order; closing the channel precedes awaiting the writer precedes removing its files', 'every path of the queue writer task (following one arbitrary operation per path), of QueueStore::new, execute, shutdown and of delete_queue', assumes=QA)
prop('Q07', qstore('Q07'), 'composition of the SQL each operation runs with the SQL and row conversion of recovery is the identity on every field; every row and every database file is put back', 'the SQL and parameters of every StorageOp, the row conversions, QueueStore::recover, build_queue, QueueManager::new and create_queue', assumes=QA + ['serde derives of QueueConfig invert each other'])
prop('Q08', lambda P, rep: q.run_order(P, rep, {'Q08'}), 'the index of ready messages is sorted by priority and keeps arrival order; the message put in flight is the first of the last bucket with messages, none reordered or passed over', 'the type of the index and every path of push, pop, consume_batch, nack and move_to_queue')
import rules_kv as kv
def store(prop):
    def run(P, rep): kv.run_kv(P, rep, {prop})
    return run
KC = 'every path of the operations of the store, its clean-up task, scan, the TCP handler and the HTTP handlers'
prop('K01', store('K01'), 'the key, value and answer of each map operation are the ones asked for; removals only by del or under a passed deadline', KC, assumes=['DashMap operations are atomic per key'])
prop('K02', store('K02'), 'the stored deadline is now + (ttl or default) seconds without a panicking addition; each value given out is dominated by a comparison of its deadline with now', KC)
import rules_pubsub as ps
def pubsub(prop):
    def run(P, rep): ps.run_pubsub(P, rep, {prop})
    return run
PT = 'every path of every walker over the subscription tree, one level at a time from an arbitrary node, and of every operation and background task of the manager'
PA = ['a pattern with # before its last level is outside the property', 'client ids are unique per connection']
prop('P01', pubsub('P01'), 'each walker moves to exactly the child the level selects and adds, removes or reports subscribers only where the pattern ends; publish sends to each reported client once', PT, assumes=PA)
prop('P02', pubsub('P02'), 'registry and tree updates of one operation share a lock; disconnect goes through all subscriptions of the removed entry; a node is pruned only under facts that it is empty', PT, assumes=PA)
prop('P03', pubsub('P03'), 'the retained value and deadline are those of the publish; tree insertion precedes collection precedes sending under the tree lock; collection reports exactly the unexpired messages of matching nodes under their own topic', PT, assumes=PA)
prop('P04', pubsub('P04'), 'a change is followed by the dirty mark, a cleared mark by a complete save or the mark again; what is loaded is what was saved, column by column', PT + '; the SQL and parameters of flush and load_all', assumes=['SQLite executes the statements it is given; no power loss'])
import rules_tcp as tcp
def conn(prop):
    def run(P, rep): tcp.run_tcp(P, rep, {prop})
    return run
TT = 'every path of handle_connection, of the task of a request for each of the 256 opcodes, of the socket task, the push task, the decoder and the encoder'
prop('T01', conn('T01'), 'each read of received bytes is dominated by a comparison showing they are there; a frame is removed from the buffer whole, alone and after its length was compared with the limit', TT, assumes=['tokio-util calls decode again with more bytes, and only then'])
prop('T02', conn('T02'), 'each frame received is handed to one request task, which sends one response with the id of the frame; the encoder writes type, status, id, length and payload of what it is given', TT)
prop('T03', conn('T03'), 'every path of handle_connection that registers a client stops its requests, then signs the client off from pub/sub and streams before it ends', TT, assumes=['the task of a connection is not dropped from outside while the broker runs'])
prop('T04', conn('T04'), 'the operation called, each argument (as a position in the request or a member of its options) and the layout of the answer equal the table of the protocol; a request found malformed calls nothing', TT, assumes=['serde_json reads the members of the options by their camel-case names'])
import rules_locks as lk
prop('L01', lambda P, rep: lk.run_locks(P, rep, {'L01'}), 'the graph of locks held when another is taken has no cycle; no lock is held at a suspension point or blocking call', 'every function of the library: lock guards followed through locals and moves, calls, closures and polled futures, transitively', assumes=['two locks of the same type are not told apart', 'locks taken inside other crates than dashmap are released before they return'])
import rules_views as vw
prop('V01', lambda P, rep: vw.run_views(P, rep, {'V01'}), 'no function reachable from a view stores through, or hands to a changing function, a `&mut` to shared state, changes a shared map, atomic or file, sends a command other than a read, or notifies', 'every function reachable from the GET handlers, from peek and exists, and the arm of the storage writer that serves reads', assumes=['library functions given only shared references to types without interior mutability change nothing'])

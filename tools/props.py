NOTE = 'Deterministic; decides from the compiled source (MIR) on every run, executes none of the code. Trusts rustc, the extractor in driver/, and the library models in nx/models.py; fails closed when an anchor is missing or a path cannot be analysed.'
NA = {
 'N01': 'Bounds on delays quantify over the scheduler, timers and load; nothing in the source bounds them. The structural parts (a waiting consumer is notified of every change, expiry compares the right clock with the right deadline) are W01, Q04, S06 and K02.',
 'N02': 'The code never syncs by design (SQLite runs with synchronous=OFF, log files are flushed to the operating system only), so there is no ordering in the source for a static rule to decide; what a process crash may lose is covered by Q06, S07, S09 and P04.',
 'N03': 'Linearizability is a statement about the values of whole concurrent histories; no static rule in reach bounds it. Its structural parts (effects and log inside one critical section per operation) are Q02, P02 and S01.',
 'N04': 'How many bytes and how much age remain is arithmetic over file sizes and clock readings at run time. What retention may remove, and that it removes nothing else, is decided in S07.',
 'N05': 'How evenly messages spread over consumers is a statistical statement about schedules, with no construct in the source that decides it.',
}
P = []
def prop(id, title, statement, over, for_, why, files, mech, tech, note='', observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, **{'for': for_}, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe))
QF = ['src/brokers/queue/manager.rs', 'src/brokers/queue/domain/queue.rs', 'src/brokers/queue/domain/dlq.rs', 'src/brokers/queue/domain/persistence.rs']
PS = 'path-sensitive abstract interpretation of MIR with a per-message typestate'
prop('Q01', 'Queue state on disk mirrors queue state in memory',
     'Every queue operation hands the storage layer exactly the durable updates that bring the stored form of each message it touched (presence in the queue or the dead-letter queue, payload, priority, attempts, visibility deadline, failure reason) to what the operation left in memory. No operation changes a message in memory without its durable update, or on disk without the change in memory.',
     ['inputs', 'histories', 'crash_points'], 'every queue operation, every message, every path through the operation, including the background timeout task',
     'Tests restart the broker after a few chosen histories; a missing or wrong update on one branch only shows after a restart from exactly that state.',
     QF, [('QueueManager operations and timeout task', 'src/brokers/queue/manager.rs'), ('StorageOp and QueueStore::execute', 'src/brokers/queue/domain/persistence.rs')], PS)
prop('Q02', 'Durable queue updates are logged in the order they took effect',
     'The durable updates of concurrent queue operations on the same queue reach the storage writer in the order in which the operations took effect in memory. No interleaving lets a later change be overwritten on disk by an earlier one.',
     ['schedules', 'crash_points'], 'all interleavings of concurrent operations and the timeout task on one queue',
     'The window is a few instructions wide; tests run operations one after another and would need a crash right after an unlucky preemption.',
     QF, [('queue lock held while logging', 'src/brokers/queue/manager.rs')], 'lockset analysis on MIR paths (send events must lie inside the critical section of the change)')
prop('Q03', 'Every queue message is in exactly one place and never lost',
     'From push until acknowledgement, explicit deletion or purge, a message is in exactly one of: ready for delivery at its own priority, in flight with a timeout pending, or in the dead-letter queue. No operation loses it, duplicates it, strands it where neither delivery nor timeout can find it, or changes its payload, priority or creation time.',
     ['inputs', 'histories'], 'every reachable queue state and every queue operation, including batch consume, timeout expiry and dead-letter replay',
     'The registry and two indexes are updated by hand at many places; tests look at a few histories and mostly at counts.',
     QF, [('registry, dispatch and in-flight indexes', 'src/brokers/queue/domain/queue.rs'), ('dead-letter map', 'src/brokers/queue/domain/dlq.rs')], PS)
prop('Q04', 'Queue operations do what they report, and leases are exclusive',
     'Every queue operation makes only the transition it names and reports it truthfully: a successful push stores the given payload and priority, consume returns exactly the messages it put in flight, ack, nack, replay and delete report success exactly when they changed the requested message. A message in flight is not handed out again, and no one else moves it, until it is acknowledged, rejected or its visibility timeout (delivery time plus the configured timeout) has passed.',
     ['inputs', 'histories', 'schedules'], 'all operations, all message states, all return paths',
     'Return values on rare branches and lease revocation against the clock are sampled by tests at one or two points.',
     QF, [('QueueManager operations', 'src/brokers/queue/manager.rs'), ('take_next, transition_to, process_expired', 'src/brokers/queue/domain/queue.rs')], PS)
prop('Q05', 'Retry limit: dead-lettered exactly when attempts reach the limit',
     'Each delivery counts as exactly one attempt. A message that is rejected or times out goes back to the queue if its attempts are below the configured maximum and to the dead-letter queue otherwise; new and replayed messages start at zero.',
     ['inputs', 'configurations', 'histories'], 'all attempt counts and limits, on rejection and on timeout',
     'Tests use one or two limits; an off-by-one on one of the two paths needs the exact count.',
     QF, [('nack, process_expired', 'src/brokers/queue/domain/queue.rs')], PS + ' (dominating comparison of attempts with the limit)')
prop('Q06', 'Logged queue updates reach the database, once and in order',
     'Every durable update handed to the storage of an open queue is carried out by that queue\'s writer in the order it was handed over, with the next full batch or timer tick. An update is forgotten only after the transaction that carried it out was committed and is not carried out again after that, and when a transaction cannot be started or committed its updates are kept for the next one. Shutting a queue\'s storage down waits until everything handed over was processed, and the database of a deleted queue is removed only after that.',
     ['schedules', 'histories', 'fault_sequences'], 'every arrival order and batch boundary, timer ticks, shutdown at any point, failing transactions',
     'Lost or reordered updates need a failing commit, a batch boundary or a shutdown at the wrong moment, and only show after a restart.',
     QF, [('run_writer, flush_batch', 'src/brokers/queue/domain/persistence.rs'), ('QueueStore::execute, shutdown, new', 'src/brokers/queue/domain/persistence.rs'), ('delete_queue', 'src/brokers/queue/manager.rs')], PS + ' following one logged operation through channel, batch and transaction')
prop('Q07', 'A restart gives back every queue and every stored message',
     'When the server starts, every queue database in its data directory becomes a queue again under its own name, with the settings saved when it was created. Every message and dead-letter message stored there is put back with the id, payload, priority, attempts, visibility deadline, creation time and failure data that were written, each in its own place: in flight if it was delivered and its deadline is still in the future, ready otherwise. What each durable update writes to the tables is what a restart reads for it.',
     ['inputs', 'histories', 'crash_points'], 'every durable update, every field, every queue name and stored row',
     'The write side and the read side are separate SQL texts tied together by column positions; a swapped, narrowed or filtered column only shows for particular values after a restart.',
     QF, [('exec_op, load_all_messages, load_dlq_messages, QueueStore::recover', 'src/brokers/queue/domain/persistence.rs'), ('build_queue, QueueManager::new, create_queue', 'src/brokers/queue/manager.rs')], 'symbolic composition of the SQL write and read sides extracted from MIR, plus path-sensitive dataflow through recovery')
prop('Q08', 'Higher priority first, and first ready first served',
     'While the broker runs, consume takes each message from the highest priority that has messages ready, and among those of one priority the one that has been ready longest. Publishing, rejecting and replaying messages never moves one ahead of those already ready.',
     ['inputs', 'histories'], 'every queue state, single and batch consume, every operation that makes messages ready',
     'Tests publish a few messages in two or three priorities; an order lost only after a rejection, across an emptied priority, or within a batch needs a particular history.',
     QF[:2], [('pop_single, take_batch', QF[1]), ('waiting_for_dispatch', QF[1])], PS + ' following how each delivered message was selected from the index',
     note='The order in which messages become ready after a restart, or in which one timeout pass makes several ready, is not claimed.')
GF = ['src/brokers/stream/domain/group.rs', 'src/brokers/stream/manager.rs']
PG = 'path-sensitive abstract interpretation of MIR with a per-message typestate over the group\'s lists'
prop('S04', 'Consumer groups never lose or skip a stream message',
     'Every message a group is positioned before is delivered in sequence order, and from then on is delivered and awaiting acknowledgement, waiting for redelivery, acknowledged, or given up after the maximum number of deliveries, until a seek or retention removes it. Messages whose acknowledgement time has passed, or whose consumer left, are put up for redelivery, and what a fetch returns is exactly what it recorded as delivered.',
     ['inputs', 'histories'], 'every reachable group state and every group operation, for warm and cold reads',
     'The pending map, redelivery list, attempt counts and positions are updated by hand at many places; a message dropped on one branch is silently never delivered.',
     GF, [('fetch, register_cold_messages, check_redelivery, remove_member, clamp_head', 'src/brokers/stream/domain/group.rs')], PG)
prop('S05', 'A group\'s acknowledged position never passes an open message',
     'The acknowledged position of a consumer group only moves forward over messages that were delivered and are neither awaiting acknowledgement nor waiting for redelivery, or over messages retention removed, or is set by a seek to exactly the requested position. A new group starts at the first retained message and a restored group right behind its saved position.',
     ['inputs', 'histories', 'crash_points'], 'every reachable group state and every operation that moves the position',
     'A position that is one too far loses a message only if the broker restarts before it is acknowledged.',
     GF, [('try_advance_floor, clamp_head, seek_beginning, seek_end, new, restore', 'src/brokers/stream/domain/group.rs')], PG)
prop('S06', 'Deliveries and acks need the current generation, membership and ownership',
     'A group delivers messages and accepts acknowledgements only for a current member with the current generation, records each delivery for that member, and accepts an acknowledgement only from the consumer the message was delivered to, reporting success exactly when it did so. A seek raises the generation and removes all members, and a delivered message is taken from its consumer only when its acknowledgement time has passed, the consumer left, or the message was removed by retention or a seek.',
     ['inputs', 'histories', 'schedules'], 'every group state, caller and generation',
     'Fencing only matters for a consumer that acts late, after a seek or after its message was redelivered; tests exercise one or two such orders.',
     GF, [('ensure_active_consumer, ack, issue_delivery, reset_runtime', 'src/brokers/stream/domain/group.rs')], PG)
prop('S08', 'Stream delivery limits: max_deliveries and max_ack_pending are respected',
     'Each delivery of a stream message to a group counts once; a message is delivered only if it was delivered fewer than max_deliveries times and given up only if it was delivered at least that often, and its count is not forgotten while it is open. No delivery is made without checking that fewer than max_ack_pending messages are awaiting acknowledgement.',
     ['inputs', 'configurations', 'histories'], 'all counts and limits, warm and cold reads, timeout and disconnect',
     'An off-by-one on one of the paths needs the exact count on exactly that path.',
     GF, [('issue_delivery, release_seq, fetch, register_cold_messages', 'src/brokers/stream/domain/group.rs')], PG + ' (dominating comparisons with the limits)')
prop('S11', 'A group is never stuck behind an abandoned disk read',
     'When a member leaves a group, or the group is repositioned, the mark that a disk read is under way is cleared, so that a read abandoned with its consumer never blocks the group from reading from disk again.',
     ['schedules', 'histories'], 'all orders of disconnects, leaves, seeks and disk reads',
     'Needs a consumer to disconnect in the middle of a disk read.',
     GF, [('remove_member, reset_runtime, invalidate_inflight', 'src/brokers/stream/domain/group.rs')], PG)
TF = ['src/brokers/stream/domain/topic.rs', 'src/brokers/stream/manager.rs', 'src/brokers/stream/domain/persistence.rs']
prop('S01', 'A published message gets the next sequence number, in memory and on disk',
     'A successful publish gives the message the next sequence number of its topic, without gaps or repeats, and returns it; the message is readable under that number with its payload, and is handed to the log on disk exactly once, with the same number, timestamp and payload, in the order of the numbers, also under concurrent publishes. The in-memory part of the log stays contiguous, so a read of a number returns that message.',
     ['inputs', 'schedules', 'histories'], 'every topic state, every publish, every interleaving of publishes, evictions and retention',
     'Tests publish a few messages one after another; a wrong index after eviction or two appends in the wrong order need a particular history or preemption.',
     TF, [('append, read, evict, apply_head', 'src/brokers/stream/domain/topic.rs'), ('publish', 'src/brokers/stream/manager.rs'), ('handle_append, flush', 'src/brokers/stream/domain/persistence.rs')], PS + ', symbolic index arithmetic, lockset of the durable append')
prop('S02', 'Stream log records are read back exactly as written; damage is detected',
     'Every message record and every saved group position is decoded by the same layout it was encoded with, so sequence number, timestamp, payload, group name and position come back unchanged. A record is accepted only if its checksum matches the bytes it was computed over, and damaged bytes never make reading panic by reading outside the record.',
     ['inputs', 'crash_points'], 'every payload, group name and position, and every damaged file content',
     'Tests read back a few well-formed files.',
     TF[2:], [('handle_append, read_log_segment, load_segment, save_groups_file, load_groups_file', 'src/brokers/stream/domain/persistence.rs')], 'symbolic layout extraction from the writing and the reading code (abstract interpretation of MIR) and comparison; dominating checksum and length facts')
prop('S03', 'After a restart a topic continues behind its last recovered message',
     'Recovery keeps the messages of the newest segment that holds any, keeps the oldest segment\'s number as head, and the restored topic continues numbering right behind the last recovered message. No segment that holds messages is hidden by a newer empty one, and no restored group position lies beyond the end of the log.',
     ['crash_points', 'histories'], 'every set of segment files a crash may leave behind',
     'Tests restart after clean shutdowns; a crash right after rotation leaves files no test creates.',
     TF, [('recover_topic', 'src/brokers/stream/domain/persistence.rs'), ('TopicState::restore', 'src/brokers/stream/domain/topic.rs'), ('warm start', 'src/brokers/stream/manager.rs')], PS)
prop('S07', 'Messages leave memory only when on disk or removed by retention',
     'A message is dropped from the in-memory log only if it was written to its topic\'s file and that file was flushed successfully, or if retention removed it. A failed flush, file rotation, an evicted file handle or shutdown never lets an accepted message count as stored without having been flushed.',
     ['schedules', 'crash_points', 'histories'], 'every order of appends, flushes, flush failures, evictions and rotations',
     'Needs a flush failure or an eviction at a particular moment; the tests have neither.',
     TF, [('evict, persisted mark', 'src/brokers/stream/domain/topic.rs'), ('flush_all, run_writer, handle_append', 'src/brokers/stream/domain/persistence.rs')], PS + ' with a written/flushed/marked typestate',
     note='Assumes that write calls to the log files succeed; failures of flush are covered.')
prop('S09', 'Every change of a group position is eventually saved, completely and atomically',
     'Every operation that may change the acknowledged position of a group marks its topic to be saved, the mark is cleared only together with saving, and what is saved is every group of the topic under its own name with its own position. The saved file is replaced only by a completely written and flushed new file.',
     ['histories', 'schedules', 'crash_points'], 'every stream operation and background task, every crash during a save',
     'A position that is not saved only shows after a restart; tests restart after one or two operations.',
     TF, [('groups_dirty, save task', 'src/brokers/stream/manager.rs'), ('save_groups_file, load_groups_file', 'src/brokers/stream/domain/persistence.rs')], PS + ' with dirty-mark and file-replacement typestates')
prop('W01', 'No lost wake-up: a waiting consumer learns of every message made ready',
     'Whenever a queue or stream operation makes a message available, it notifies the consumers waiting on that queue or topic after the message became visible. A consumer starts to wait only with a notification handle it took before it last looked for messages, so a message arriving in between is not missed.',
     ['schedules', 'histories'], 'every operation that makes messages ready (publish, push, nack, timeout, replay, redelivery, disconnect, seek) and every interleaving with a waiting consumer',
     'The window between looking and waiting is a few instructions; a missing notification on one path looks like a slow poll.',
     ['src/brokers/queue/manager.rs', 'src/brokers/stream/manager.rs'], [('notify_waiters, notified', 'src/brokers/queue/manager.rs'), ('notify_waiters, notified', 'src/brokers/stream/manager.rs')], PS + ' (obligation to notify; order of handle and check)')
KF = ['src/brokers/store/domain/map.rs', 'src/brokers/store/manager.rs', 'src/brokers/store/tcp.rs', 'src/brokers/store/http.rs']
KA = [('set, get, del, clean-up task', 'src/brokers/store/domain/map.rs'), ('scan', 'src/brokers/store/manager.rs'), ('handle', 'src/brokers/store/tcp.rs')]
prop('K01', 'The store answers a get with exactly what was last set under that key',
     'A set stores exactly the given value under exactly the given key, replacing what was there; a del removes exactly the given key and answers whether it was there; a get answers the stored value of exactly its key, and none only if the key is not there or expired. Nothing else changes or removes an entry except the expiry of that entry, in the store itself and through its TCP commands.',
     ['inputs', 'schedules', 'histories'], 'every key, value and ttl, every interleaving of sets, gets, deletes and the clean-up',
     'Tests set and read back a few keys; a value changed for particular inputs or an entry removed in a race window needs inputs or preemptions they do not produce.',
     KF, KA, PS + ', map-operation summaries with per-entry facts')
prop('K02', 'A stored value lives exactly until its deadline',
     'Every set gives the entry a deadline of now plus the given number of seconds, or of the default when none or zero is given, for every value of the ttl without failing. A value whose deadline was not found to lie ahead is never given out, and an entry is never expired before its deadline was found to have passed.',
     ['inputs', 'schedules', 'configurations'], 'every ttl and default ttl, every moment of every read and clean-up',
     'Tests wait out one ttl of a second; units, zero, huge values and the order of the comparison at the boundary are not sampled.',
     KF, KA, PS + ' with deadline-comparison facts')
BF = ['src/brokers/pub-sub/manager.rs', 'src/brokers/pub-sub/domain/radix_tree.rs', 'src/brokers/pub-sub/domain/retained.rs', 'src/brokers/pub-sub/domain/persistence.rs']
BA = [('publish, subscribe, unsubscribe, disconnect', BF[0]), ('insert_subscriber, remove_subscriber, match_subscribers', BF[1])]
prop('P01', 'A publish reaches every client with a matching pattern exactly once',
     'A published message is sent, with its topic and data unchanged, exactly once to every connected client that has a subscription whose pattern matches the topic level by level (a literal level matches itself, + any one level, a final # everything from there on, levels may be empty), and to nobody else. A client is dropped by a publish only if sending to it failed or it is no longer registered.',
     ['inputs', 'histories'], 'every tree of subscriptions, every topic and pattern, every set of clients',
     'Tests match a handful of patterns against short topics; empty levels, a # at the end of a topic, clients matching several times and branches shared with other patterns need particular combinations.',
     BF[:2], BA, PS + ' of the tree walkers (one step against the meaning of the level, by induction over the levels) and of the manager operations')
prop('P02', 'The client registry and the subscription tree stay in agreement',
     'Subscribing and unsubscribing change the registry entry of the client and the subscription tree for the same pattern in one step that no other operation for that client can split, and do nothing for an unknown client. A disconnect removes the client and every one of its subscriptions from the tree, and no operation removes subscriptions of others, not even when branches are pruned.',
     ['schedules', 'histories'], 'every interleaving of subscribe, unsubscribe, publish and disconnect of every client, every shape of the tree',
     'A subscription left behind or pruned away needs a preemption between two updates or a branch shared between particular patterns.',
     BF[:2], BA, PS + ' with locksets and pruning facts')
prop('P03', 'A new subscriber gets the current retained message of each matching topic',
     'A publish with the retain flag replaces the retained message of exactly its topic, empty data removes it, and no other publish changes it; it lives for the given or the default number of seconds, for every such number. A new subscriber is sent the retained message of every topic its pattern matches that has not expired, under its own topic, and misses no retained message published meanwhile.',
     ['inputs', 'schedules', 'histories'], 'every pattern, topic, lifetime and tree of retained messages, every interleaving of publish and subscribe',
     'Tests retain one or two messages and subscribe afterwards; a message lost between the look-up and the subscription, odd levels and huge lifetimes are not sampled.',
     BF[:3], [('publish, subscribe', BF[0]), ('set_retained, collect_retained_for_pattern, cleanup_expired_retained', BF[1]), ('RetainedMessage::new, is_expired', BF[2])], PS + ' of the tree walkers and the manager operations, with deadline facts and lock order of tree update, collection and sending')
prop('P04', 'Retained messages survive a restart as they were last set',
     'Every change of a retained message is followed by a save of all retained messages, one that fails is repeated, and a save replaces the stored ones completely in one transaction. After a restart each message that was saved and has not expired is back under its topic with its data and its remaining lifetime, and one that expired while the broker was down does not come back.',
     ['crash_points', 'schedules', 'histories'], 'every history of retained publishes, expiries and save failures, every crash point between saves',
     'Only a restart shows a message that was not saved; tests do not fail a save or change a message during one.',
     BF, [('flush and clean-up tasks, new', BF[0]), ('collect_all_retained', BF[1]), ('flush, load_all', BF[3]), ('from_persisted', BF[2])], PS + ' with a dirty-mark typestate, and composition of the SQL that saves with the SQL that loads',
     note='Covers what happens once a save runs; that the timer of the task fires is assumed. Messages published before the first save after a failed load are outside it.')

CF = ['src/transport/tcp/connection.rs', 'src/transport/tcp/dispatcher.rs', 'src/transport/tcp/protocol/codec.rs', 'src/transport/tcp/protocol/cursor.rs', 'src/brokers/queue/tcp.rs', 'src/brokers/stream/tcp.rs', 'src/brokers/pub-sub/tcp.rs', 'src/brokers/store/tcp.rs']
prop('T01', 'Frames are cut out of the byte stream exactly, whatever the peer sends',
     'However the bytes of a connection arrive, each frame is taken from them exactly as its header says: whole, once, in order, without eating into the next one or waiting for more than it needs. A length above the configured maximum is refused before the payload is waited for, and no content of a request, however short or malformed, makes the broker read beyond it or panic.',
     ['inputs', 'schedules'], 'every byte stream and every way it is split into reads, every request payload for each of the 256 opcodes',
     'Tests send well-formed frames whole; frames split at particular bytes, several at once, and truncated or oversized ones are not tried at every position.',
     CF[2:], [('decode', CF[2]), ('read_string, read_u32, read_u64, read_uuid_bytes', CF[3]), ('dispatch', CF[1])], PS + ' of the decoder (positions as linear terms over the payload length, bounds by dominating comparisons) and of the request handler for each opcode',
     note='The sizes of numbers a client chooses inside a well-formed request are outside it.')
prop('T02', 'Every request is answered once, under its own id',
     'Every frame received is handled, and answered with exactly one response that carries its id, also when the request is malformed, unknown or fails; no answer and no published message is dropped or changed on its way to the socket while the connection lasts. What is written is the frame layout of the protocol: type, status, id, length and the payload itself; a push is the length of the topic, the topic and the data.',
     ['inputs', 'schedules'], 'every request of every opcode, every interleaving of the tasks of a connection, every outgoing frame',
     'Tests await the answers of well-formed requests one after the other; an answer lost on an error path or under a full channel hangs only the client that meets it.',
     CF[:3], [('handle_connection, run_socket', CF[0]), ('encode', CF[2])], PS + ' of the tasks of a connection with a typestate of the received frame, and symbolic layout of what the encoder writes')
prop('T03', 'A connection that ends is signed off everywhere',
     'Whatever way a connection ends (the peer closes it, the socket fails, a protocol error, a full or broken channel), its client is removed from pub/sub with all of its subscriptions and from every consumer group it had joined. This happens after its running requests have stopped, so that none of them registers it again.',
     ['schedules', 'fault_sequences'], 'every end of a connection, every moment at which requests are running',
     'Tests close idle connections; an error path without the clean-up, or a request that joins a group during it, needs a failing socket or a preemption.',
     CF[:1], [('handle_connection', CF[0])], PS + ' of the connection task with a typestate of registration, running requests and sign-off')
prop('T04', 'A request does what its opcode and fields say, and nothing else',
     'A well-formed request executes exactly the operation its opcode names, once, with each field and option of the request as the argument it stands for (the documented default where an option is absent), on behalf of the client of its own connection. Its answer is the result of that operation in the layout of the protocol; a malformed or unknown request is answered with an error and has no effect.',
     ['inputs'], 'every opcode, every payload, every result of the operation',
     'Tests exercise each command with typical options; exchanged fields, a default that is not applied, an answer that says ok for a refusal, or a wrong length in an answer need particular requests.',
     CF[1:2] + CF[4:], [('dispatch', CF[1]), ('handle, parse, to_wire', CF[4])], PS + ' of the request handler for each of the 256 opcodes, with arguments as positions in the payload and answers as symbolic layouts, against a table of the protocol')

LF = ['src/brokers/queue/manager.rs', 'src/brokers/stream/manager.rs', 'src/brokers/pub-sub/manager.rs', 'src/brokers/queue/domain/persistence.rs', 'src/brokers/store/domain/map.rs']
prop('L01', 'No interleaving of operations deadlocks the broker',
     'Whatever operations, connections and background tasks run concurrently, they never block one another forever on the locks of the brokers. Locks that are held together are always taken in the same order, none is taken again by its holder, and none is held while its holder waits for anything else.',
     ['schedules'], 'all interleavings of all operations and background tasks of the four brokers',
     'A lock cycle hangs only under one unlucky interleaving of two rarely concurrent operations; tests that run them one after another always pass.',
     LF, [('queue and sender locks', LF[0]), ('topic locks', LF[1]), ('client registry and subscription tree', LF[2])], 'flow-sensitive may-hold analysis of lock guards on MIR with call summaries, and a lock-order graph')

VF = ['src/brokers/queue/http.rs', 'src/brokers/stream/http.rs', 'src/brokers/pub-sub/http.rs', 'src/brokers/store/http.rs', 'src/brokers/queue/manager.rs', 'src/brokers/stream/manager.rs', 'src/brokers/pub-sub/manager.rs', 'src/brokers/store/manager.rs']
prop('V01', 'Looking at the broker changes nothing',
     'A request that only looks leaves everything as it was: listing or searching queues, their messages and dead letters, streams and their messages, subscriptions or stored values over HTTP, peeking at dead letters, and asking whether a queue or a topic exists. Whatever is there and whatever is asked for, no message, lease, attempt count, position, subscription, retained message or stored value is changed or removed by it. Nothing is created, no file is written, and no waiting client is woken.',
     ['inputs', 'histories'], 'every viewing request with any parameters in every state of the broker',
     'A view that cleans up, counts or reorders on the way is right about what it shows, and tests look at what it shows in a few states.',
     VF, [('HTTP handlers', VF[0]), ('views of the managers', VF[4]), ('reads from disk', 'src/brokers/stream/domain/persistence.rs')],
     'interprocedural effect analysis on MIR: `&mut` to shared state followed from lock guards, interior mutability, channels, file system')

prop('S10', 'Reading back old messages leaves none out',
     'A read from a number returns the messages from that number on (or from the oldest kept) in order and without leaving out any that is intact on disk, up to the requested count, wherever they are: what is no longer in memory is read from disk, from the segment that holds the number and then from the segments behind it. A consumer group whose next message is no longer in memory likewise has it read from disk, from exactly that message on. Reading ends only at the requested count or at the end of the log.',
     ['inputs', 'histories', 'crash_points'], 'every start, every count, every division of the log into segments and memory, damaged records in between',
     'Tests read logs of one or two segments from the beginning; a wrong segment border, limit or memory border needs a read that crosses exactly that place.',
     TF[1:], [('read, fetch, try_fetch_once, cold_fetch', 'src/brokers/stream/manager.rs'), ('cold_read, read_log_segment, find_segments, handle_append', 'src/brokers/stream/domain/persistence.rs')], 'abstract interpretation of MIR: facts about numbers, limits and segment borders at each segment read and at each return')

# properties static analysis cannot decide here (listed under not_applicable)
prop('N01', 'Redelivery and expiry happen in bounded time',
     'A message whose lease ran out is offered again, and an expired key or retained message is gone, within a bounded time after its deadline, whatever the load.',
     ['schedules'], 'all schedules and loads', 'Tests wait for a few expiries on an idle machine.',
     ['src/brokers/queue/manager.rs', 'src/brokers/stream/manager.rs', 'src/brokers/store/domain/map.rs'], [('timeout and clean-up tasks', 'src/brokers/queue/manager.rs')], '')
prop('N02', 'Acknowledged data survives a power loss',
     'Whatever the broker confirmed as stored is there after the machine loses power at any moment.',
     ['crash_points', 'fault_sequences'], 'every power-loss point', 'Tests stop the process at most.',
     ['src/brokers/stream/domain/persistence.rs', 'src/brokers/queue/domain/persistence.rs'], [('writers', 'src/brokers/stream/domain/persistence.rs')], '')
prop('N03', 'Concurrent histories are linearizable',
     'Every concurrent history of operations on one queue, topic or key is equivalent to a sequential one that respects real-time order.',
     ['histories', 'schedules'], 'all concurrent histories', 'Tests observe a handful of histories.',
     ['src/brokers/queue/manager.rs', 'src/brokers/stream/manager.rs', 'src/brokers/store/domain/map.rs'], [('operations', 'src/brokers/queue/manager.rs')], '')
prop('N04', 'Retention keeps within the configured bytes and age',
     'After each retention pass a topic keeps no more closed segments than its byte limit allows and none older than its age limit, and always keeps the newest.',
     ['inputs', 'histories', 'configurations'], 'all topics, sizes and ages', 'Tests fill one topic once.',
     ['src/brokers/stream/domain/persistence.rs'], [('apply_retention', 'src/brokers/stream/domain/persistence.rs')], '')
prop('N05', 'Consumers of a group share the load fairly',
     'Active consumers of a group or queue that ask equally often receive about equally many messages.',
     ['schedules'], 'all schedules', 'Tests only see that each consumer receives something.',
     ['src/brokers/stream/domain/group.rs'], [('fetch', 'src/brokers/stream/domain/group.rs')], '')

"""The properties. gen.py writes properties.jsonl and MANIFEST.json from this list and checks.py."""

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


ENGINE = ['db.go', 'db_internal.go', 'db_sync.go', 'block_writer.go', 'block_reader.go', 'time_window.go',
          'time_window_writer.go', 'trie.go', 'memdb/db.go', 'memdb/block.go']

prop('P01', 'A query returns exactly the stored messages of its topic, newest first',
     'After any history of puts and queries on one open database, a query for a topic without wildcards returns every '
     'message put under that topic (or under a stored wildcard topic that matches it) and no other, each exactly once, with '
     'the payload byte for byte as it was put and in newest-first order. This holds whether a message is still only in '
     'memory, is just being synced in the background, or was synced to the index and data files long ago, and a message is '
     'visible to every query issued after its put returned.',
     ['histories', 'inputs'],
     'All histories of Put/PutEntry, waits of any length and explicit Sync calls, for any set of topics, payloads of 1 byte to '
     'several pages, and any number of messages per topic (several window blocks and index blocks).',
     'The tests put a handful of messages on one topic and read them back once, after a fixed wait; none crosses a time '
     'block, a window block of 335 entries or an index block of 255 entries, or reads while background sync moves messages.',
     ENGINE,
     [('query path: in-memory window, window file, index, data', 'db.go Get, db_internal.go lookup/readEntry, time_window.go ilookup/lookup'),
      ('background sync of time blocks to window, index and data files', 'db_sync.go Sync, time_window_writer.go append/write, block_writer.go append/write')],
     observe=['results of DB.Get after every operation, compared with a reference model'])

prop('P02', 'Nothing is lost, duplicated or altered by closing and reopening',
     'For any history of operations interleaved with clean Close/Open cycles, a reopened database answers every query exactly '
     'as the database that was closed would have. Messages put just before Close, committed batches and deletions made just '
     'before Close are included, new messages get sequences and ids that were never given out before, and opening a '
     'cleanly closed database never fails.',
     ['histories', 'inputs', 'configurations'],
     'All histories of puts, batches, deletes, expiries, waits and syncs with Close/Open at any point, including several '
     'reopens in a row, within one time block, and after topics have grown over several blocks.',
     'The tests reopen a database at most once with a few entries; the path a message takes over a restart depends on which '
     'of its stages (buffer, log, recovered block, window block, index) Close happens to catch it in.',
     ENGINE + ['recovery.go', 'db_info.go', 'leasing.go', 'memdb/recovery.go', 'wal/wal.go', 'wal/reader.go', 'wal/writer.go'],
     [('flush of the write ahead log on close and recovery on open', 'memdb/tiny_log.go, memdb/recovery.go, recovery.go'),
      ('reload of topics and window chain', 'db_internal.go loadTrie, time_window_reader.go')],
     observe=['results of DB.Get and DB.Count after every reopen'])

prop('P03', 'A crash loses nothing acknowledged and leaves a database that opens',
     'If the process dies at any point between two file operations, or within a write that crosses a page, the database opens again, without error. It '
     'then returns every message whose put returned at least a second before, every batch that was committed (whole or, if it was not '
     'yet committed, not at all), no message whose delete returned at least a second before, no message twice and nothing that was never put or had expired. It is fully '
     'usable afterwards, and the same holds if it crashes again while it recovers.',
     ['crash_points', 'histories', 'configurations'],
     'All histories of puts, batches, deletes, encrypted messages and messages with a time to live, with syncs and clean reopens, and every '
     'crash point of each, including those within Open, Sync, Close and recovery itself.',
     'No test crashes; all of them close the database, so recovery from the log runs on at most a handful of messages, never on half written files.',
     ENGINE + ['wal/wal.go', 'wal/writer.go', 'wal/reader.go', 'memdb/recovery.go', 'memdb/tiny_log.go', 'leasing.go', 'filter.go', 'file.go', 'db.go'],
     [('write-ahead log of time blocks', 'memdb/tiny_log.go, wal/writer.go'), ('recovery of log and index', 'memdb/recovery.go, db_internal.go/db_sync.go recovery, wal/reader.go'),
      ('order of window, index, data, info and release of the log', 'db_sync.go Sync')],
     observe=['the error of DB.Open and results of DB.Get on directories rebuilt as they were at a crash point'])

prop('P04', 'Topics match level by level, and wildcards match what is documented',
     'A query for a topic without wildcards returns the messages stored under exactly that sequence of parts, plus those '
     'stored under topics in which "*" stands for any one part at that level, and those stored under "prefix..." for every '
     'topic strictly below the prefix; it returns no message of any other topic, such as one that is a prefix, an extension, '
     'a permutation or a near spelling of it.',
     ['inputs', 'histories'],
     'All sets of stored topics (with and without wildcards, any depth and shared parts in any order) and all queries '
     'without wildcards, before and after sync and reopen.',
     'The wildcard test stores three topics and asks three queries; matching depends on the whole set of stored topics.',
     ['trie.go', 'message/topic.go', 'db_internal.go', 'query.go'],
     [('topic parsing and part hashing', 'message/topic.go ParseKey/Parse/AddContract/GetHash'),
      ('topic trie', 'trie.go add/lookup/ilookup')],
     observe=['results of DB.Get for all stored topics and for probes around them'])

prop('P05', 'Contracts isolate messages from each other',
     'A query made with one contract returns only messages that were put with that contract, and all of those; the same '
     'topic, and the same wildcard topic, under two contracts are two unrelated streams. A message without a contract '
     'belongs to the default contract only. This holds for messages in memory, synced, recovered and put in batches.',
     ['inputs', 'histories'],
     'All sets of contracts (32 bit values) sharing the same topics, with puts, batches with and without a batch contract, '
     'syncs and reopens in any order.',
     'No test puts messages with two contracts under one topic.',
     ['message/topic.go', 'message/id.go', 'db.go', 'db_internal.go', 'batch.go', 'query.go'],
     [('contract as salt of topic hashes', 'message/topic.go AddContract/GetHash'),
      ('contract in the message ID', 'message/message_id.go SetContract/EvalPrefix')],
     observe=['results of DB.Get per topic and contract'])

prop('P06', 'Limits and time ranges select the most recent messages',
     'A query with a limit of n returns the n most recent live messages of the topic (all of them if there are fewer), '
     'whatever mixture of expired, deleted, synced and unsynced messages the topic holds, and a query without a limit applies the default limit of the '
     'database. A query for the last period returns every live message put within the period, up to its limit, and none put '
     'before it, apart from messages at the edge of the period; of messages put within seconds of each other, of which some are of batches or under reserved IDs, any may count as more recent.',
     ['inputs', 'histories', 'configurations'],
     'All limits from 1 to above the number of messages, given as option of the query or of the topic, all periods, and all '
     'histories of puts, deletes, expiries and syncs.',
     'The tests query with a limit that is larger than the number of messages or check only the number of results.',
     ['query.go', 'db.go', 'db_internal.go', 'time_window.go', 'message/topic.go', 'message/id.go'],
     [('limit applied per topic and over topics', 'db_internal.go lookup, time_window.go ilookup/lookup'),
      ('cutoff by time', 'query.go WithLast/parse, message/message_id.go EvalPrefix, time_window.go cutoff')],
     observe=['results of DB.Get with limit and last options'])

prop('P07', 'Messages expire at their time to live, not before, and stay expired',
     'A message with a time to live, however it was given, is returned by queries until it expires and never afterwards, '
     'including after syncs and reopens and while it is recovered from the log. Expired messages never affect others: '
     'messages without or with a longer time to live stay, also when expired ones are removed in the background, and removal takes off '
     'Count exactly the expired messages that queries came across.',
     ['histories', 'inputs', 'configurations'],
     'All histories of puts with and without time to live (entry option, topic option, absolute expiry), waits, syncs, '
     'reopens and background expiry cycles.',
     'The expiry test puts entries that are already expired and queries once; time only moves a second in it.',
     ['expiry_window.go', 'time_window.go', 'db_sync.go', 'entry.go', 'message/topic.go', 'block_writer.go'],
     [('expiry check on lookup', 'time_window.go isExpired/expired'), ('background expiry', 'db_sync.go expireEntries, expiry_window.go')],
     observe=['results of DB.Get around the expiry times'])

prop('P08', 'A deleted message never comes back, and only it is deleted',
     'After a delete of a message by its id returned, no query returns that message again, whether it was in memory, synced or recovered, '
     'and after any later syncs and reopens; every other message stays. Deleting twice, or deleting an id never put, changes '
     'nothing, and a database opened immutable (the default) refuses deletes.',
     ['histories', 'inputs'],
     'All histories of puts with reserved ids, deletes singly and in batches at any distance from the put, syncs, reopens.',
     'The tests delete entries and check nothing but the returned error.',
     ['db.go', 'db_internal.go', 'batch.go', 'block_writer.go', 'block_reader.go', 'memdb/db.go', 'memdb/recovery.go'],
     [('delete from memory, log and index', 'db_internal.go delete, memdb/db.go Delete/move, block_writer.go del/free')],
     observe=['results of DB.Get after every delete, sync and reopen'])

prop('P09', 'A batch is written as a whole or not at all',
     'If the function of a batch returns nil and the batch call returns nil, all its messages are stored, in the order of the batch and with its contract and '
     'encryption options; if the function returns an error the batch call returns that error and none of its messages ever becomes visible, also '
     'after explicit writes within the batch and after a reopen. Messages put outside the batch at the same time are not affected.',
     ['histories', 'inputs'],
     'All histories of committed and aborted batches of any size, with and without explicit writes, mixed with single puts, '
     'syncs and reopens.',
     'The batch tests commit one small batch and never abort one.',
     ['batch.go', 'memdb/batch.go', 'memdb/tiny_log.go', 'db.go'],
     [('batch buffer, time block of the batch, commit and rollback', 'batch.go Write/Commit/Abort, memdb/batch.go')],
     observe=['results of Batch and of DB.Get after it'])

prop('P10', 'Encrypted messages are returned in clear and stored only encrypted',
     'A message put with encryption, chosen for the entry, its batch or the database (also by an earlier session), is returned byte for byte by queries '
     'before and after syncs and reopens, whatever its size, but none of its payload beyond the first four stored bytes is ever written to any file, log included. With another key '
     'a query that comes across it returns an error, while messages that are not encrypted are still returned. Altered data '
     'is never returned in place of it, and encryption changes neither its argument nor the stored data.',
     ['histories', 'inputs', 'configurations'],
     'All histories of plain and encrypted puts and batches, syncs and reopens with the same or another key, payloads of 1 byte to pages; '
     'all single-byte alterations of encrypted messages.',
     'The encryption tests put a few messages of one size and read them back; no test looks at what is stored.',
     ['crypto/mac.go', 'db.go', 'db_internal.go', 'batch.go', 'options.go', 'db_info.go'],
     [('authenticated encryption', 'crypto/mac.go Encrypt/Decrypt'), ('encryption flag of DB, batch and entry', 'db_internal.go setEntry, batch.go PutEntry, db_info.go')],
     observe=['results of DB.Get', 'all buffers written through the os package and all files'])

prop('P11', 'Concurrent use never loses, duplicates, reorders or corrupts messages',
     'When any number of goroutines put, delete, commit or abort batches, query, sync and read statistics on one database at the '
     'same time, while background sync moves messages to disk, every query returns only messages put to that topic (and not '
     'deleted, or of an aborted batch, before it started), none twice, newest first, and all messages whose put or commit '
     'returned before the query started. Once all is quiet, and again after a sync and after a reopen, each topic holds exactly the messages '
     'put and not deleted, Count is their number, and no two reserved ids are equal. Closing the database while others still use it '
     'makes their calls fail with an error at most: nothing hangs or panics and nothing acknowledged before Close is lost.',
     ['schedules', 'histories', 'configurations'],
     'All interleavings of the operations of 1-12 goroutines with each other, with the log writer, the syncer and the expirer, and '
     'with Close, under any sync interval and free-block size.',
     'The tests use one goroutine (one stress test only counts); a race between a put and the sync of its time block '
     'needs a particular interleaving, and losing one message of thousands changes nothing a test looks at.',
     ENGINE + ['batch.go', 'memdb/tiny_log.go', 'memdb/batch.go', 'memdb/time_mark.go', 'mutex.go'],
     [('time blocks accept, seal and release entries', 'memdb/db.go Put/BlockIterator/Free, memdb/db_internal.go currentBlock/releaseLog'),
      ('log manager: shared and batch logs', 'memdb/tiny_log.go, memdb/batch.go'),
      ('sync lock and close', 'db_internal.go syncLock/close, db_sync.go')],
     observe=['results of concurrent DB.Get calls with start and end stamps, judged offline against all operations of the history',
              'all topics after quiescence, after Sync and after Close/Open'])

prop('P12', 'Concurrent use of a database is free of data races',
     'No two goroutines of the engine or of its users access the same memory without synchronisation, at least one of them '
     'writing, whatever calls of the exported API (put, delete, batch, query, sync, statistics, close) run at the same time, also with the same query.',
     ['schedules', 'histories'],
     'All interleavings of concurrent calls of the exported API of DB and Batch with each other and with the background goroutines.',
     'The test suite is not run under the race detector and uses one goroutine; a data race has undefined effects that rarely '
     'show up as a wrong result.',
     ENGINE + ['batch.go', 'filter.go', 'leasing.go', 'meter.go', 'wal/wal.go', 'wal/writer.go', 'memdb/tiny_log.go'],
     [('locks of time blocks, windows, trie, free list, files and counters', 'memdb/db.go, time_window.go, trie.go, lease.go, file.go, db_internal.go')],
     observe=['reports of the Go race detector (ThreadSanitizer) on the real code under the concurrent workloads'])

prop('P14', 'A database has one handle at a time, and Open and Close leave nothing behind',
     'Whatever the schedule of goroutines and processes that open, close or get killed, at most one handle of a database is open at a time, another Open fails and changes '
     'nothing, and once the holder has closed it or has died Open succeeds and all that was put before a Close is there. An Open that fails (because it is open, the key is bad, or any '
     'file operation of it fails) returns an error, leaves no open file, goroutine or lock, creates nothing outside the directory and loses nothing: a later Open finds all messages. '
     'Close stops all goroutines and closes all files, and later calls on the handle return an error, never panic or hang, and change nothing.',
     ['schedules', 'fault_sequences', 'histories'],
     'All schedules of 2-7 holders of a database in one or more processes, kills at any time, failures of every file operation of Open, all calls after Close.',
     'The tests open a database one at a time; whether two handles can be open at once depends on the moment between opening, locking and removing the lock file.',
     ['db.go', 'db_internal.go', 'file.go', 'file_unix.go', 'recovery.go', 'memdb/db.go', 'wal/wal.go'],
     [('lock file', 'file_unix.go'), ('Open and Close', 'db.go Open/Close, db_internal.go close, memdb/db.go, wal/wal.go')],
     observe=['errors of Open and of calls on a closed DB', 'descriptors, goroutines and files of the process', 'messages found by later handles'])

prop('P15', 'Arguments that cannot be served get an error, and change nothing',
     'Whatever the bytes of a topic, payload, ID, period, limit or option, no call panics or hangs: a topic without key, above 65536 bytes or with more parts than can be counted, a payload '
     'that is empty or above 1 GB, an ID that the DB did not generate, a Delete of an immutable DB and a key that is not 32 bytes are refused with an error, everything else is accepted. '
     'A refused call changes nothing that can be read, then or after syncs and reopens, also within a batch, which goes on without it, and an entry that was refused can be put right and put again; '
     'what was accepted reads back byte for byte under its topic, and queries return payloads that were put only.',
     ['inputs', 'histories'],
     'All byte strings as topics, payloads and IDs, all periods, limits and options, in any history of other calls.',
     'The tests use a few well-formed topics; whether an argument at a bound corrupts the log, a filter or the trie shows only with that argument, and often only after a sync or reopen.',
     ['db.go', 'batch.go', 'entry.go', 'query.go', 'db_internal.go', 'message/topic.go', 'message/id.go', 'options.go'],
     [('validation of entries and IDs', 'db_internal.go setEntry, entry.go, message/id.go'), ('parsing of topics', 'message/topic.go'), ('queries', 'query.go, db.go Get')],
     observe=['error or panic of every call', 'answers of Get for all topics'])

prop('P16', 'memdb answers as a map of time blocks to keys and values',
     'After any sequence of puts, batches, deletes, iterations and frees, memdb.Get returns the value put last for a key, Lookup the value the key has in a time block, and neither '
     'anything that is deleted, overwritten in the block, freed or of an aborted batch. Keys and Size list exactly the entries that are left, deleting a missing key is an error, and '
     'BlockIterator hands over each time block that is completely in the log once, with exactly its keys, and nothing of an uncommitted batch.',
     ['histories', 'inputs', 'configurations'],
     'All histories of puts, batches (committed, aborted, written in parts), deletes, iterations and frees, any key and value sizes, log and block intervals, and any time between operations.',
     'The tests put a few keys into one or two time blocks; overwriting, deleting across blocks and freeing while a batch is pending are not tested.',
     ['memdb/db.go', 'memdb/db_internal.go', 'memdb/block.go', 'memdb/batch.go', 'memdb/time_mark.go', 'memdb/tiny_log.go'],
     [('time blocks and filters', 'memdb/db.go, memdb/block.go'), ('batches', 'memdb/batch.go'), ('release of blocks', 'memdb/db_internal.go releaseLog/releaseOrder')],
     observe=['results of memdb.Put/Get/Lookup/Keys/Size/Delete/BlockIterator/Free and of batches'])

prop('P17', 'memdb is linearizable per key and hands every entry over exactly once',
     'When goroutines put, get and delete keys of one memdb at the same time, the operations on each key have an order that respects real time and explains all results. While a '
     'syncer takes time blocks over and frees them, each entry whose put or commit was acknowledged and that is not deleted is handed over exactly once with its value, or is still there '
     'afterwards and after a Close and Open; a deleted entry is not handed over after its delete, nor an aborted batch ever, and there is no data race.',
     ['schedules', 'histories'],
     'All interleavings of 2-5 goroutines with a syncer, the log writer and each other, for any log and block intervals.',
     'The tests use memdb from one goroutine; losing or doubling an entry takes a put between the moment its block is handed over and is freed.',
     ['memdb/db.go', 'memdb/db_internal.go', 'memdb/block.go', 'memdb/batch.go', 'memdb/time_mark.go', 'memdb/tiny_log.go', 'memdb/time_lock.go'],
     [('current block, sealing, release', 'memdb/db_internal.go currentBlock/releaseLog, memdb/db.go BlockIterator'), ('log writer', 'memdb/tiny_log.go, memdb/db_internal.go tinyWrite')],
     observe=['results of concurrent calls with start and end stamps', 'entries handed over by BlockIterator and All', 'reports of the Go race detector'])

prop('P18', 'memdb recovers exactly what its logs hold',
     'After a Close and Open memdb holds exactly the entries it had, in any number of restarts and with any part of them handed over and freed in between; no deleted or freed entry and no '
     'aborted batch comes back. From a copy of the directory of a running DB it recovers each entry that was put a few log intervals before, or committed, and none that was '
     'deleted that long before, and a log that is cut at any byte is skipped without loss of the others.',
     ['crash_points', 'histories', 'configurations'],
     'All histories with restarts and copies at any time, any log cut at any byte, any log and block intervals.',
     'The tests reopen a memdb once with a few keys; deletes whose key is in the log of another block, restarts with half of the blocks freed and cut logs are not tested.',
     ['memdb/recovery.go', 'memdb/db.go', 'memdb/db_internal.go', 'memdb/tiny_log.go', 'memdb/block.go', 'wal/wal.go', 'wal/reader.go', 'wal/writer.go'],
     [('recovery', 'memdb/recovery.go startRecovery/All'), ('deleted keys in logs of later blocks', 'memdb/db_internal.go move/releaseOrder/releaseEmpty')],
     observe=['blocks, keys and values returned by All and Lookup after Open', 'log files'])

prop('P19', 'The write ahead log yields each unapplied log whole and once',
     'Whatever goroutines write and apply logs at the same time, a WAL that is opened again yields to its readers exactly the logs whose write was acknowledged and that were not '
     'signalled as applied, each once, in ascending order of IDs and with all its records in the order they were appended. That holds after Close and after a crash at any point, '
     'where a log whose write or release was under way is either yielded whole or not at all, and a log file that is cut short at any byte, or a write that fails, takes nothing from the '
     'others. A reset WAL yields nothing, and calls after Close or in the wrong order return errors, leave no open file and change nothing.',
     ['crash_points', 'schedules', 'fault_sequences', 'histories'],
     'All sequences of sessions in which 1-8 goroutines write, apply and reset logs of any records, a crash between any two file operations, any write that fails, any log cut at any byte.',
     'The tests write one log and read it back; half-written files, releases under way and readers that stop half way are not tested.',
     ['wal/wal.go', 'wal/writer.go', 'wal/reader.go', 'wal/file.go'],
     [('log files: temporary file, rename, remove', 'wal/file.go'), ('states of a log', 'wal/wal.go, wal/writer.go'), ('reading and recovery', 'wal/reader.go, wal/wal.go')],
     observe=['records that Reader.Iterator yields', 'errors', 'files and descriptors'])

prop('P20', 'Statistics count what was done',
     'After any history, also of operations at the same time, Varz and HandleVarz of the DB report exactly the messages put, the messages and stored bytes that queries returned, the IDs '
     'taken, the deletions and the sequence number, and once all is synced the number of messages in it and no more or fewer synced messages than there were, whereas calls that are refused change nothing. '
     'When nothing is under way, those of the server report exactly the connections that are open, the topics subscribed to on them, and the messages and payload bytes published, however connections ended and whatever requests were refused.',
     ['histories', 'schedules'],
     'All histories of puts, batches, queries, deletes and restarts, sequential or concurrent, and all runs of the server in which clients connect, subscribe, publish, are refused and leave in any way.',
     'No test reads the statistics; counts that drift do so after particular sequences: retries of a query, requests that fail half way, connections that end without unsubscribing.',
     ['monitor.go', 'meter.go', 'db.go', 'server/internal/monitor.go', 'server/internal/conn.go'],
     [('counters of the DB', 'meter.go, db.go, db_internal.go'), ('Varz and HandleVarz', 'monitor.go'), ('counters of the server', 'server/internal/conn.go, server/internal/monitor.go')],
     observe=['fields of Varz', 'JSON of HandleVarz'])

prop('P21', 'Keys are spread over working blocks and nodes, and move only when they must',
     'For every capacity, number of used blocks and sequence of additions and removals, FindBlock gives each key one working block, the same for everyone who made the same changes, GetPath ends there, keys are spread evenly, '
     'a removal moves only keys of the removed block, an addition (of the block removed last) moves keys only to it, and brings back the assignment from before its removal. '
     'A ring assigns each key to one of its nodes, equally for nodes added in any order and however hashes collide, a new node takes keys and moves no others, and signatures are equal exactly if nodes and replicas are.',
     ['inputs', 'histories'],
     'All sizes, all sequences of additions and removals of blocks or nodes, all keys.',
     'The tests follow one example and small removals from full tables; wrong tables show for few keys after particular sequences, for example when blocks that were not used at first are added.',
     ['hash/consistent.go', 'hash/rand.go', 'hash/modulo.go', 'server/internal/pkg/hash/ringhash.go'],
     [('consistent hash of the engine, its locks and memdb', 'hash/consistent.go'), ('ring of the cluster', 'server/internal/pkg/hash/ringhash.go')],
     observe=['results of FindBlock, GetPath, AddBlock, Ring.Get, Ring.Signature'])

prop('P22', 'Performance series report the statistics of the latest events',
     'A series of events, read directly or through a snapshot, at any length from none on and after any reset, reports the sum, mean, harmonic mean, standard deviation, extremes, range, percentiles and the averages of its '
     'longest and shortest 5% as they are for the latest events that fit its size, also when goroutines record at the same time, and a snapshot does not change. '
     'A metric registered under a name is one object for all who ask for it until it is unregistered, counters lose no change and gauges hold the last value.',
     ['histories', 'schedules', 'inputs'],
     'All sequences of events, resets and snapshots, recorded and read by any number of goroutines, for all sizes; all interleavings of registrations.',
     'No test reads these numbers; off-by-one ranks, a ring that wraps, empty series and snapshots taken during recording show in particular lengths and interleavings only.',
     ['metrics/sample.go', 'metrics/timeseries.go', 'metrics/metrics.go', 'metrics/counter.go', 'server/internal/pkg/metrics/sample.go'],
     [('series', 'metrics/sample.go, metrics/histogram.go, metrics/timeseries.go and their copies in server/internal/pkg/metrics'), ('registry', 'metrics/metrics.go')],
     observe=['statistics of series, histograms and snapshots', 'registered objects', 'data races'])

prop('P26', 'A published message reaches exactly the matching subscriptions, once each',
     'When a client publishes, each connected client of the same contract receives the payload, unaltered and under its topic, once for each of its subscriptions whose topic (with '
     'wildcards) matches, and no client of another contract or without such a subscription receives it. Messages reach a subscriber with the stronger flow (NOTIFY, RECEIVE, PUBLISH, '
     'RECEIPT, COMPLETE) only if publisher and subscription ask for it. Every CONNECT, SUBSCRIBE, UNSUBSCRIBE, PUBLISH and PINGREQ is acknowledged exactly once, whatever other clients do '
     'at the same time.',
     ['schedules', 'histories', 'configurations'],
     'All sequences of subscribe, unsubscribe and publish requests of any number of clients and contracts, with and without keys, wildcards, delays and batches, and all interleavings of their requests.',
     'The tests of the server publish a message to one subscriber; several publishers at a time, shared and dropped subscriptions and contracts are not tested.',
     ['server/internal/conn.go', 'server/internal/hdl_conn.go', 'server/internal/batch.go', 'server/internal/message/sub.go', 'server/internal/service.go'],
     [('routing', 'server/internal/hdl_conn.go onPublish/publish'), ('subscriptions', 'server/internal/conn.go subscribe/unsubscribe')],
     observe=['frames received by every client', 'payloads and topics'])

prop('P27', 'Delivery flows run to their end across reconnects and restarts, once',
     'A message that reached the session of a client goes through its delivery flow exactly once: a PUBLISH follows a RECEIVE, a COMPLETE a RECEIPT, no identifier is used for two '
     'messages at a time, and nothing is sent twice on a connection. If the connection ends before the flow is complete the message is notified again when the session is resumed, with the same '
     'identifier and payload, however often the client or the server, closed or killed, is started in between; a message that was completed or acknowledged never comes back. A clean '
     'session starts with nothing.',
     ['histories', 'crash_points', 'schedules'],
     'All histories of connections, flows held back at any state, publishes, and restarts of the server, of several clients and contracts.',
     'The tests connect clients once; no test resumes a session or restarts the server.',
     ['server/internal/conn.go', 'server/internal/hdl_conn.go', 'server/internal/message/messageids.go', 'server/internal/store/store.go', 'memdb/recovery.go'],
     [('message log of a session', 'server/internal/store/store.go SessionStore/MessageLog'), ('flow', 'server/internal/hdl_conn.go, server/internal/conn.go')],
     observe=['frames received by every client', 'frames received after a reconnect'])

prop('P24', 'A key allows exactly what it was generated for',
     'A client on a secure connection may publish to a topic only with a key that was generated for this topic by a client of its contract and with the permission to write, and subscribe to it, unsubscribe from it or '
     'have its stored messages relayed only with one with the permission to read; such a request is granted with any such key, at any time. A request without a key, with a malformed one, or with '
     'one of another topic, contract or permission is answered with an error that names it, is not acknowledged, and has no effect.',
     ['inputs', 'histories', 'configurations'],
     'All requests with keys of any topic (with wildcards or not), contract and type, altered, cut or missing keys, in any order and of several clients.',
     'The tests use a key for the one topic it was made for; no test sends a request that must be refused.',
     ['server/internal/hdl_conn.go', 'server/internal/message/security/key.go', 'server/internal/conn.go'],
     [('checks of keys', 'server/internal/hdl_conn.go, server/internal/message/security/key.go ValidateTopic/HasPermission'), ('generation', 'server/internal/hdl_conn.go onKeyGen, server/internal/message/security/key.go GenerateKey')],
     observe=['errors and acknowledgements of every request', 'payloads received and relayed'])

prop('P25', 'A client is who its identifier says, and only identifiers given out get in',
     'The server gives out no identifier twice, and a primary client may have secondary ones made for its contract, which a secondary client may not. A CONNECT with an identifier that the server gave out is '
     'accepted at any time, also after restarts, and always gets the same contract and epoch. One with an identifier that was altered, cut or made up gets no connection: it is told so or '
     'disconnected and nothing it sends has an effect.',
     ['inputs', 'histories'],
     'All identifiers given out to any number of clients and contracts, and all strings derived from them, in any order of connections and restarts.',
     'The tests connect with the identifier they just got.',
     ['server/internal/hdl_conn.go', 'server/internal/pkg/uid/clientid.go', 'server/internal/pkg/crypto/mac.go', 'server/internal/conn.go'],
     [('identifiers', 'server/internal/pkg/uid, server/internal/hdl_conn.go onClientIDRequest'), ('CONNECT', 'server/internal/hdl_conn.go')],
     observe=['CONNACK frames', 'what clients receive', 'identifiers'])

prop('P28', 'No client brings the server down or disturbs others',
     'Whatever bytes a client sends, and however it reads, stalls or ends its connection, the server neither crashes nor stops: every other client gets its acknowledgements and exactly the messages it '
     'would get otherwise, and new clients are served. Frames of any length, order and content are either handled or end that one connection. Once a connection has ended nothing of it is '
     'left behind.',
     ['inputs', 'schedules', 'histories'],
     'All byte sequences, any frames in any order, any values of their fields, from any number of connections at the same time as others are served.',
     'The tests have no hostile client.',
     ['server/internal/conn.go', 'server/internal/hdl_conn.go', 'server/internal/batch.go', 'server/internal/service.go', 'server/internal/net/message.go', 'server/internal/message/security/key.go'],
     [('reader and writer of a connection', 'server/internal/hdl_conn.go'), ('decoding of frames', 'server/internal/net/message.go, server/utp')],
     observe=['panics and fatal errors', 'reports of the Go race detector', 'what other clients receive', 'goroutines that are left'])

prop('P29', 'A relay returns exactly the live stored messages of a topic',
     'A RELAY of a topic for the last period of time returns each message that was published to this topic in this contract within the period and whose ttl is not over, once and unaltered; it returns no message of another '
     'topic or contract, no older and no expired one. That holds for messages published before the server was closed, or killed a few seconds later, and started again, and '
     'relaying does not change what is stored.',
     ['histories', 'crash_points', 'configurations'],
     'All histories of publishes with and without ttl, relays of any period by any client, and restarts.',
     'No test of the server relays messages.',
     ['server/internal/hdl_conn.go', 'server/internal/store/store.go', 'server/internal/db/unitdb/adapter.go', 'db.go', 'db_internal.go'],
     [('relay', 'server/internal/hdl_conn.go onRelay'), ('message store', 'server/internal/store/store.go, server/internal/db/unitdb/adapter.go')],
     observe=['frames received after a RELAY'])

prop('P30', 'Batches and delays deliver each message in time and once',
     'A message for a subscription with delivery mode batch or with a delay is delivered after the delay and no later than the batch duration of its client after that; other messages are delivered '
     'at once. A batch holds no more messages and bytes than its client asked for, except for the last message, and one that is full is sent at once. Every message is delivered exactly once, however '
     'many batches are pending at the same time.',
     ['schedules', 'histories', 'configurations'],
     'All sequences of publishes to subscribers with any delays, batch durations and thresholds, and all interleavings of batches that get full and that get due.',
     'The tests of the server publish single messages to one subscriber.',
     ['server/internal/batch.go', 'server/internal/hdl_conn.go', 'server/internal/conn.go'],
     [('batches', 'server/internal/batch.go')],
     observe=['times and frames in which payloads are received'])

prop('P23', 'Every message survives the wire, and nothing else is made of it',
     'A message that is encoded and decoded again comes out as it was, with all its fields, on either side of any split of the stream into reads; messages that follow one another are told apart, and '
     'the bytes are those that the published definition of the protocol prescribes. A frame that is cut short is an error and no message, and no sequence of bytes makes the decoder panic, '
     'take more memory than what it is sent calls for, or go on without end.',
     ['inputs'],
     'All messages of every type with any values of their fields, any splits, all prefixes, all byte sequences.',
     'The tests send one message of some of the types.',
     ['server/internal/net/message.go', 'server/utp/message.go', 'server/utp/connect.go', 'server/utp/publish.go', 'server/utp/subscribe.go', 'server/utp/flow_control.go'],
     [('decoding', 'server/internal/net/message.go Read'), ('encoding', 'server/utp ToBinary/FromBinary')],
     observe=['encoded bytes', 'decoded messages', 'errors'])

prop('P31', 'Clients are served the same over TCP, WebSocket and gRPC',
     'A connection by WebSocket or gRPC carries the bytes that either side writes as TCP does: each once, in order and unaltered, however they are split into writes, packets and reads, at any size and from '
     'concurrent writers, and the end of the connection on one side is seen on the other. So whichever way clients connect, alone or mixed, also to one port that serves several protocols, '
     'what they are acknowledged and delivered is the same.',
     ['inputs', 'schedules', 'configurations'],
     'All sequences of writes and reads of any size on either side, all endings, any mix of transports of the clients of a server.',
     'The tests connect by TCP only.',
     ['server/internal/net/server.go', 'server/internal/net/hdl_grpc.go', 'server/internal/net/hdl_grpc_web.go', 'server/internal/net/listener/listener.go', 'server/internal/service.go'],
     [('gRPC', 'server/internal/net/hdl_grpc.go'), ('WebSocket', 'server/internal/net/hdl_grpc_web.go'), ('protocols on one port', 'server/internal/net/listener')],
     observe=['bytes read from every connection', 'ends of connections', 'what clients receive'])

prop('P32', 'Filters deny no key they hold, and encoded identifiers decode to themselves',
     'A filter block made from any number of keys, appended by any number of goroutines, accepts each of these keys, and denies nine of ten others up to 10000 keys. '
     'Encode8 and Encode32, of the engine and of the server, encode every identifier as base32 text in their alphabet, Decode8 and Decode32 give it back, also in place, and neither these nor the hashes change their input; a hash differs if a byte does.',
     ['inputs', 'schedules'],
     'All sets of keys and orders of appending them, and all identifiers of 8 and 32 bytes.',
     'No test covers them; one wrong shift in the unrolled code affects single bits of an identifier, and a filter that loses a bit denies few keys.',
     ['filter/bloom.go', 'filter/filter.go', 'encoding/base32.go', 'encoding/base8.go', 'server/internal/pkg/encoding/base32.go', 'hash/hash.go'],
     [('bloom filter', 'filter/bloom.go'), ('unrolled base32', 'encoding/base32.go, encoding/base8.go, server/internal/pkg/encoding')],
     observe=['results of Test, Encode and Decode'])

prop('P33', 'A cluster has at most one leader per term and agrees on its live nodes',
     'In a cluster with failover, a node votes once per term, for no term it has left, and only a node that a majority voted for acts as leader of a term; the list of nodes that a leader announces '
     'always goes with the ring made of exactly these nodes. Whatever links failed, in whatever order, all nodes that remain keep running, and as long as a majority is connected again by good links it comes to have one leader '
     'and every node of it the ring of exactly the connected nodes, nodes that return included.',
     ['schedules', 'faults'],
     'All orders of elections, pings, partitions, recoveries and delays among three to five nodes.',
     'There are no tests of the cluster.',
     ['server/internal/cluster.go', 'server/internal/cluster_leader.go', 'server/internal/pkg/hash/ringhash.go'],
     [('election', 'server/internal/cluster_leader.go run, electLeader'), ('failover', 'server/internal/cluster_leader.go sendPings'), ('connections', 'server/internal/cluster.go reconnect, call, callAsync')],
     observe=['calls between nodes', 'answers of nodes about their ring'])

prop('P34', 'Metrics sent to statsd arrive once, whole and in order',
     'Every metric that goroutines hand to a client of statsd while its server listens arrives there once, with its prefix, name, value and tags as given, after the earlier ones of its goroutine, '
     'within the flush interval or when Unregister is called, and no packet with several metrics exceeds the configured size. A full queue or a server that is away costs whole packets only, metrics arrive again once it is back, '
     'and Unregister returns after all pending metrics were sent and leaves no goroutine behind.',
     ['inputs', 'schedules', 'configurations', 'faults'],
     'All metrics and options, all interleavings of goroutines with the flush timer, the senders and the pool of buffers, absences of the server at any time.',
     'No test covers the client; buffers are recycled between senders and writers, so that one handed on too early alters metrics only under load.',
     ['server/internal/pkg/stats/stats.go', 'server/internal/pkg/stats/buffers.go', 'server/internal/pkg/stats/tags.go'],
     [('packets', 'server/internal/pkg/stats/buffers.go'), ('metrics', 'server/internal/pkg/stats/stats.go'), ('tags', 'server/internal/pkg/stats/tags.go')],
     observe=['packets a UDP server receives', 'goroutines left'])

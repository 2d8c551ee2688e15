"""The checks: which jobs decide which property, and what they must observe."""

CHECKS = {}


def check(prop, jobs, technique, note, rule, level='exploration', evaluations=('cases',), distinct=('histories',),
          require=None, assumptions=()):
    CHECKS[prop] = dict(jobs=jobs, technique=technique, note=note, rule=rule, level=level, evaluations=list(evaluations),
                        distinct=list(distinct), require=require or {}, assumptions=list(assumptions))


def q(tier, quick, thorough):
    return quick if tier == 'quick' else thorough


MODEL = 'reference-model monitor over generated histories of the real engine in virtual time'



def eng(name, n, weight=1, **params):
    """one profile of the engine monitor"""
    return dict(name=name, kind='engine', n=n, params=params, weight=weight)


def job(kind, name, n, weight=1, variant='plain', **params):
    return dict(name=name, kind=kind, n=n, params=params, weight=weight, variant=variant)


BIG = dict(small=True, put=200, ops=3000, checkevery=50)
HIST = ('A case is a generated history over 1-6 topics; the answer of every query is compared with a sequential reference '
        'model. A history is non-trivial if its log of operations and results differs from all others.')
VTIME = ('the engine runs in virtual time (testing/synctest), so background goroutines run at the points where the history waits',)

check('P01',
      lambda t: [eng('put-sleep-sync', q(t, 160, 6000)),
                 eng('config', q(t, 80, 3000), config=True, sync=4),
                 eng('long', q(t, 16, 300), 5, ntopics=1, config=True, **BIG),
                 eng('long2', q(t, 16, 300), 5, ntopics=2, **BIG)],
      MODEL, 'Every Get of every generated history is compared with a sequential reference model.', HIST,
      require={'gets_checked': 10000, 'syncs': 500, 'puts': 10000, 'entries_put_again': 1000, 'arguments_overwritten': 5000, 'queries_reused': 2000}, assumptions=VTIME)

check('P02',
      lambda t: [eng('reopen', q(t, 160, 6000), reopen=3),
                 eng('reopen-config', q(t, 80, 3000), reopen=2, config=True),
                 eng('reopen-all', q(t, 80, 3000), reopen=2, putc=10, ttl=3, batch=3, abort=1, newid=8, deldup=1, bdel=1, enc=2, **{'del': 3}),
                 eng('reopen-long', q(t, 16, 300), 5, ntopics=2, reopen=2, **BIG),
                 eng('reopen-del-long', q(t, 16, 300), 5, ntopics=2, reopen=2, newid=100, config=True, **dict(BIG, **{'del': 40}))],
      MODEL, 'Every history is interleaved with Close/Open; all topics are compared with the model after every reopen.', HIST,
      require={'gets_checked': 10000, 'reopens': 1000, 'puts': 10000}, assumptions=VTIME)

check('P03',
      lambda t: [job('crash', 'crash', q(t, 32, 600), 3, variant='os', put=20, sync=4, reopen=1, config=True),
                 job('crash', 'crash-batch', q(t, 32, 600), 3, variant='os', batch=6, abort=3, newid=6, bdel=3, reopen=1, **{'del': 4}),
                 job('crash', 'crash-del', q(t, 32, 600), 3, variant='os', reopen=1, batch=4, newid=6, putc=5, sync=3, **{'del': 3}),
                 job('crash', 'crash-ttl', q(t, 16, 400), 3, variant='os', ttl=8, newid=8, config=True, reopen=1, **{'del': 4}),
                 job('crash', 'crash-enc', q(t, 16, 400), 3, variant='os', enc=5, putc=5, config=True, batch=3, abort=2, reopen=2),
                 job('crash', 'crash-free', q(t, 24, 400), 3, variant='os', put=10, newid=40, allids=True, purge=1, free=600, sync=4, ops=60, sleep=20,
                     reopen=2, **{'del': 20}),
                 job('crash', 'crash-long', q(t, 16, 300), 5, variant='os', small=True, ntopics=2, put=60, batch=6, newid=40, ops=250, points=80,
                     reopen=1, **{'del': 10}),
                 job('crash', 'crash-freelist', q(t, 16, 300), 5, variant='os', small=True, ntopics=2, put=5, newid=100, allids=True, ops=1500, points=30,
                     reopen=3, sleep=20, **{'del': 50})],
      'crash-point enumeration over the recorded file operations of the real engine, recovery judged against what was acknowledged',
      'The os package is overlaid to record every operation that changes a file. The directory is rebuilt as it was between every two operations, and within '
      'writes that cross pages; the real engine opens it, its answers are compared with what was acknowledged, and it is used further. Some recoveries crash again.',
      'A case is a history; every crash point of it is an evaluation. A history is non-trivial if its log of operations and results differs from all others.',
      evaluations=('recoveries',), distinct=('histories', 'crash_kinds'),
      require={'recoveries': 8000, 'recovered_messages': 50000, 'nested_crashes': 1500, 'torn_writes': 60, 'batches_judged': 3000},
      assumptions=VTIME + ('a crash of the process: completed file operations survive in their order',
                           'a write is cut by a crash only at a page boundary of the file'))

check('P04',
      lambda t: [eng('tree', q(t, 120, 4000), tree=12, reopen=1, sync=4),
                 eng('wild', q(t, 120, 4000), wild=10, reopen=1, sync=4),
                 eng('wild-contracts', q(t, 80, 3000), wild=8, putc=20, reopen=1)],
      MODEL, 'Topics are drawn over a small alphabet so that they share parts in every order; matching is that of the documentation, level by level.',
      HIST + ' Topics, with and without wildcards, and query topics are drawn over an alphabet of 4 parts.',
      require={'gets_checked': 10000, 'puts': 5000}, assumptions=VTIME)

check('P05',
      lambda t: [eng('contracts', q(t, 120, 4000), putc=20, put=10, reopen=1),
                 eng('contracts-batch', q(t, 100, 4000), putc=10, batch=6, reopen=1),
                 eng('contracts-wild', q(t, 80, 3000), wild=6, putc=20, reopen=1),
                 eng('contracts-del', q(t, 60, 2000), putc=10, newid=12, reopen=1, **{'del': 4})],
      MODEL, 'Each topic is used with four contracts; every query is compared with the model for its contract.', HIST,
      require={'gets_checked': 10000, 'puts': 5000}, assumptions=VTIME)

check('P06',
      lambda t: [eng('limits', q(t, 120, 4000), last=1, deflimit=True),
                 eng('periods', q(t, 80, 3000), last=1, maxsleep=9000, ops=200, reopen=1),
                 eng('limits-mixed', q(t, 100, 3000), last=1, newid=8, ttl=4, reopen=1, deflimit=True, **{'del': 5}),
                 eng('limits-long', q(t, 16, 200), 5, last=1, ntopics=2, ttl=40, newid=40, reopen=1, **dict(BIG, **{'del': 20})),
                 eng('limits-batch', q(t, 60, 2000), last=1, batch=5, newid=5, reopen=1, deflimit=True),
                 eng('limits-wild', q(t, 60, 2000), last=1, wild=8, deflimit=True)],
      MODEL, 'Limits from 1 to above the number of messages and periods, given in every way, on topics with live, expired, deleted, synced and unsynced messages.',
      HIST, require={'gets_checked': 8000, 'last_checked': 3000, 'last_checked_partial': 300, 'last_n_checked': 800}, assumptions=VTIME)

check('P07',
      lambda t: [eng('ttl', q(t, 120, 4000), ttl=15, reopen=1, config=True),
                 eng('ttl-batch', q(t, 100, 4000), ttl=8, batch=6, newid=6, reopen=1, config=True, sync=1),
                 eng('ttl-bg', q(t, 120, 4000), ttl=15, bgexp=True, sync=4),
                 eng('ttl-bg-mixed', q(t, 80, 3000), ttl=12, bgexp=True, reopen=1, newid=8, config=True, putc=5, **{'del': 4}),
                 eng('ttl-bg-long', q(t, 16, 200), 5, small=True, ntopics=2, put=80, ttl=80, ops=1500, checkevery=20, reopen=1, bgexp=True)],
      MODEL, 'Queries are made before, around and after the expiry of every message; Count is compared once background expiry ran.', HIST,
      require={'gets_checked': 5000, 'expired_removed_checked': 2000, 'puts': 5000, 'entries_put_again_ttl': 200}, assumptions=VTIME)

check('P08',
      lambda t: [eng('delete', q(t, 160, 5000), newid=14, reopen=2, **{'del': 6}),
                 eng('delete-batch', q(t, 100, 4000), newid=14, bdel=4, deldup=4, reopen=2, config=True, **{'del': 4}),
                 eng('delete-mixed', q(t, 80, 3000), newid=10, bdel=2, deldup=2, reopen=2, putc=10, ttl=3, batch=2, config=True, **{'del': 4}),
                 eng('delete-long', q(t, 16, 200), 5, ntopics=2, newid=100, bdel=10, reopen=2, config=True, **dict(BIG, **{'del': 40})),
                 eng('delete-all', q(t, 12, 200), 5, ntopics=2, newid=300, allids=True, purge=1, reopen=1, config=True, **dict(BIG, put=20))],
      MODEL, 'Deletes at any distance from the put, followed by syncs and reopens; every answer is compared with the model.', HIST,
      require={'gets_checked': 10000, 'deletes': 2000, 'reopens': 500, 'void_deletes': 200}, assumptions=VTIME)

check('P09',
      lambda t: [eng('batch', q(t, 160, 5000), batch=10, abort=4),
                 eng('batch-reopen', q(t, 120, 4000), batch=10, abort=4, reopen=2, putc=5),
                 eng('batch-mixed', q(t, 80, 3000), batch=8, abort=3, enc=3, putc=5, ttl=2, config=True, newid=5, bdel=2, reopen=1),
                 eng('batch-long', q(t, 16, 200), 5, small=True, ntopics=2, put=20, batch=60, abort=10, ops=600, checkevery=20, reopen=2)],
      MODEL, 'Committed and aborted batches, with and without explicit writes; every answer is compared with the model.', HIST,
      require={'gets_checked': 10000, 'batches': 3000, 'batch_aborts': 1000}, assumptions=VTIME)

check('P10',
      lambda t: [job('crypt', 'crypt', q(t, 160, 4000), variant='os'),
                 job('crypt', 'crypt-long', q(t, 16, 300), 4, variant='os', ops=400),
                 job('mac', 'mac', q(t, 600, 20000), 0.01)],
      'reference-model monitor of answers, scanning monitor of every byte written, tampering and other keys',
      'The os package is overlaid so that every buffer written by the engine is searched for the marked payloads of encrypted messages; answers are compared with the '
      'model, also with another key and after altering single bytes of the data file. The library is checked for all small sizes and every altered byte.',
      'A case is a history of plain and encrypted puts over 1-6 topics with syncs and reopens, or a message of the library check. Non-trivial histories differ in their logs.',
      evaluations=('gets_checked', 'other_key_gets', 'tamper_gets', 'roundtrips', 'alterations'),
      require={'encrypted': 3000, 'clear_marks_seen': 500, 'written_bytes_scanned': 10000000, 'other_key_gets': 500, 'tamper_refused': 300, 'roundtrips': 500, 'alterations': 20000, 'databases encrypted later': 15},
      assumptions=VTIME + ('the first bytes of a message (up to 4 of its compressed form) are stored in clear by design',))


check('P11',
      lambda t: [job('conc', 'conc', q(t, 80, 2000)),
                 job('conc', 'conc-config', q(t, 80, 2000), variant='os', delay=8, config=True, contracts=True, workers=8),
                 job('conc', 'conc-few', q(t, 60, 2000), variant='os', delay=4, ntopics=1, workers=4),
                 job('conc', 'conc-batch', q(t, 60, 2000), variant='os', delay=6, put=4, batch=14, abort=5, workers=10),
                 job('conc', 'conc-del', q(t, 60, 2000), variant='os', delay=6, newid=14, **{'del': 10}),
                 job('conc', 'conc-close', q(t, 80, 2000), variant='os', delay=8, close=True, config=True, workers=8),
                 job('concreal', 'real', q(t, 32, 600), 4, variant='os', delay=8, config=True, workers=8),
                 job('concreal', 'real-close', q(t, 32, 600), 4, variant='os', delay=8, close=True, config=True, workers=8)],
      'offline checker over recorded concurrent histories of the real engine, with delays injected into file operations',
      'Each recorded query is judged against the stamps of all operations; the quiescent, synced and reopened states are compared with what was acknowledged.',
      'A case is a history of 4-12 goroutines over 3 rounds; a schedule is non-trivial if the sequence of newest messages its queries returned differs from all others.',
      distinct=('schedules',), evaluations=('conc_gets_judged', 'quiet_gets'),
      require={'conc_gets_judged': 20000, 'quiet_gets': 3000, 'delayed_file_ops': 2000, 'counts_checked': 300},
      assumptions=('schedules are sampled: real parallelism of 8 cores and delays injected at file operations',))

check('P12',
      lambda t: [job('conc', 'race', q(t, 48, 1500), variant='race', norecord=True, workers=8),
                 job('conc', 'race-config', q(t, 48, 1500), variant='race', norecord=True, workers=8, config=True, contracts=True),
                 job('conc', 'race-close', q(t, 48, 1500), variant='race', norecord=True, workers=8, close=True, config=True),
                 job('concreal', 'race-real', q(t, 24, 500), 3, variant='race', norecord=True, workers=8, config=True, ntopics=2),
                 job('concreal', 'race-real-close', q(t, 24, 500), 3, variant='race', norecord=True, close=True, config=True)],
      'Go race detector (ThreadSanitizer) on the real engine under concurrent workloads',
      'Workers do not synchronise with each other (no stamps, counters kept per worker), so that the harness adds no happens-before edges.',
      'A case is a history of 6-8 goroutines over 3 rounds. Evaluations are operations executed under the race detector.',
      distinct=('schedules', 'race_mix'), evaluations=('conc_ops',), require={'conc_ops': 80000, 'quiet_gets': 1000, 'shared_queries': 3000})

check('P14',
      lambda t: [job('life', 'life', q(t, 24, 500), 3, variant='os'),
                 job('life', 'life-long', q(t, 8, 200), 6, variant='os', ops=80),
                 job('handles', 'handles', q(t, 48, 1500), 2, variant='os'),
                 job('handles', 'handles-procs', q(t, 16, 500), 6, variant='os', procs=True)],
      'monitor of descriptors, goroutines, files and results around Open and Close, with a fault injected at every file operation of Open; holders that race for the handle',
      'Every handle of racing goroutines and processes also takes a lock of the harness, which shows when two are open at once; processes are killed at random times. Open is repeated on '
      'copies of closed and of crashed databases with the k-th file operation failing, once or lastingly, and must then leave no file, goroutine or lock, and lose nothing.',
      'A case is a history with three closes, each followed by a sweep over all operations of Open, or a race of 2-7 holders. Non-trivial histories differ in their logs, races in the order of holders.',
      distinct=('histories', 'schedules'), evaluations=('failed_opens', 'faults', 'closed_calls', 'second_opens', 'handles', 'refused_opens', 'fd_checks', 'goroutine_checks'),
      require={'faults': 2000, 'failed_opens': 2000, 'closed_calls': 500, 'second_opens': 60, 'handles': 500, 'refused_opens': 300, 'goroutine_checks': 2000, 'acked_checked': 400, 'killed': 5},
      assumptions=('faults are errors returned by file operations; a write that is done partly and a failing fsync or unlock are not injected',))

check('P15',
      lambda t: [job('input', 'input', q(t, 240, 8000)),
                 job('input', 'input-long', q(t, 24, 400), 5, ops=400)],
      'judging monitor of the result of every call with hostile arguments, and reference-model monitor of all other messages',
      'Topics, payloads, IDs, contracts, periods, limits and options at and beyond their bounds are given to every call; each result is compared with what the documentation says of the argument. '
      'After each call a topic, and at times all topics, are compared with the model, as are those that hold what was accepted; refused entries are put right and put again.',
      'A case is a history of hostile and ordinary calls with syncs and reopens. A history is non-trivial if its log of calls and results differs from all others.',
      evaluations=('puts_judged', 'deletes_judged', 'gets_judged', 'options_judged', 'gets_checked'),
      require={'puts_judged': 3000, 'refused': 1500, 'accepted': 500, 'put_right': 300, 'deletes_judged': 2000, 'gets_judged': 2000, 'options_judged': 60, 'accepted_checked': 5000,
               'gets_checked': 10000},
      assumptions=VTIME + ('IDs that the DB handed out and that were used before are given to Delete only',))

check('P16',
      lambda t: [job('mem', 'mem', q(t, 480, 5000), 0.5, ops=200, reopen=0),
                 job('mem', 'mem-nodel', q(t, 480, 5000), 0.5, ops=200, reopen=0, **{'del': 0}),
                 job('mem', 'mem-iter', q(t, 480, 5000), 0.5, ops=200, reopen=0, iter=10, **{'del': 20}),
                 job('mem', 'mem-long', q(t, 16, 500), 3, ops=1500, reopen=0)],
      'reference-model monitor over generated histories of the real memdb in virtual time',
      'Every Get, Lookup, Keys, Size and BlockIterator is compared with a model of time blocks, each of which maps keys to versions.',
      'A case is a history of puts, batches, deletes, iterations and frees over 3-300 keys. A history is non-trivial if its log of operations and results differs from all others.',
      evaluations=('gets_checked', 'lookups_checked', 'checks', 'blocks_handed'),
      require={'gets_checked': 50000, 'lookups_checked': 30000, 'blocks_handed': 3000, 'dels': 5000, 'batches': 1500, 'aborts': 500, 'frees': 3000},
      assumptions=('memdb runs in virtual time (testing/synctest), so its log writer runs at the points where the history waits',))

check('P17',
      lambda t: [job('memlin', 'lin', q(t, 1000, 20000), 0.2),
                 job('memlin', 'lin-race', q(t, 80, 3000), 0.5, variant='race'),
                 job('memlinreal', 'lin-real', q(t, 48, 2000), 1),
                 job('memsync', 'sync', q(t, 400, 20000), 0.3, ops=120),
                 job('memsync', 'sync-race', q(t, 80, 3000), 0.7, variant='race'),
                 job('memsyncreal', 'sync-real', q(t, 48, 2000), 1)],
      'linearizability checker over recorded histories of single keys, exactly-once checker of entries handed over, and the Go race detector',
      'Workers record start and end of each Put, Get and Delete of shared keys, and a search looks for an order that explains the results. In the other jobs a syncer takes blocks '
      'over and frees them meanwhile as the engine does, and each key put is counted until the DB is closed and opened again.',
      'A case is a history of 2-5 goroutines in virtual or real time. Non-trivial histories differ in the order of operations on a key.',
      distinct=('schedules',), evaluations=('lin_ops', 'handed', 'gets', 'recovered'),
      require={'lin_checked': 2000, 'overlaps': 5000, 'handed': 50000, 'dels': 3000, 'committed': 2000, 'aborted': 1000, 'recovered': 2000, 'left': 2000},
      assumptions=('a Get that overlaps a Delete of its key may find nothing; two overlapping Deletes may both succeed',
                   'schedules are sampled: real parallelism of 8 cores, random pauses'))

check('P18',
      lambda t: [job('mem', 'reopen', q(t, 160, 6000), 0.5, ops=120, uniq=True),
                 job('mem', 'reopen-nodel', q(t, 160, 6000), 0.5, ops=120, reopen=3, **{'del': 0}),
                 job('mem', 'reopen-often', q(t, 120, 4000), 0.7, ops=150, reopen=6, iter=8, uniq=True),
                 job('mem', 'crash', q(t, 160, 5000), 0.5, ops=100, crash=4, uniq=True),
                 job('mem', 'crash-nodel', q(t, 120, 4000), 0.5, ops=120, crash=3, **{'del': 0}),
                 job('mem', 'long', q(t, 32, 1000), 2, ops=400, crash=1, uniq=True)],
      'reference-model monitor of what memdb recovers from its logs, after Close, from copies of the running DB and from logs cut at any byte',
      'After every reopen, and in copies of the directory of a running DB, all recovered blocks are compared with the model: entries of logs are there, others are not.',
      'A case is a history with restarts and crash copies. A history is non-trivial if its log of operations and results differs from all others.',
      evaluations=('recovered_checked', 'reopens', 'crashes', 'cut_logs'),
      require={'recovered_checked': 10000, 'reopens': 1000, 'crashes': 500, 'cut_logs': 400, 'drains': 500, 'dels': 2000},
      assumptions=('a key that is put again after it was deleted is not used across restarts, and recovered blocks of a DB with deleted keys are taken over before new entries are put, as the engine does',))

check('P19',
      lambda t: [job('wal', 'wal', q(t, 400, 8000), 0.5, variant='os', ops=12),
                 job('wal', 'wal-many', q(t, 64, 1500), 2, variant='os', ops=40, workers=8, sessions=8),
                 job('wal', 'wal-faults', q(t, 240, 6000), 0.7, variant='os', faults=20),
                 job('wal', 'wal-many-faults', q(t, 120, 3000), 1, variant='os', faults=5, ops=30)],
      'monitor of all file operations of the WAL with crash copies at points between them, write faults and logs cut at any byte, against a model of the logs written and applied',
      'Goroutines write, reset and apply logs while every file operation is recorded; the WAL is closed and opened again, and opened on copies of its directory as it was between two '
      'file operations or with one log cut. What its readers yield is compared with the records of the logs whose write was acknowledged and that were not applied.',
      'A case is a history of several sessions of 1-8 goroutines. Non-trivial histories differ in the order of writes and releases or in their results.',
      evaluations=('logs_read', 'recoveries'),
      require={'written': 3000, 'applied': 2000, 'failed_writes': 500, 'logs_read': 10000, 'crash_points': 1000, 'cuts': 1000, 'read_in_part': 300, 'resets': 20},
      assumptions=('a crash keeps what was written to files, in the order it was written (the WAL is not synced)', 'removing the file of an applied log does not fail',
                   'records are compared as read back: a log with altered bytes is not detected by design (there is no checksum)'))

check('P20',
      lambda t: [job('stats', 'stats', q(t, 320, 10000), 0.3),
                 job('stats', 'stats-race', q(t, 24, 600), 1.5, variant='race'),
                 job('srvstats', 'server', q(t, 160, 4000), 0.5),
                 job('srvstats', 'server-race', q(t, 16, 400), 3, variant='race', ops=30)],
      'monitor of conservation: the statistics are compared with counts of what was done through the API and over the wire',
      'A history of operations counts what it does: messages put, returned and deleted, their bytes as stored, IDs, and, at the server, connections, subscriptions and messages. '
      'Varz, or the JSON of HandleVarz, is compared with these counts after operations, after phases of concurrent work, and across restarts.',
      'A case is a history of a DB with restarts and concurrent phases, or a run of a server whose clients come and go. Histories are random and differ in their operations.',
      distinct=('histories', 'connections, subscriptions'), evaluations=('statistics_checked', 'statistics of the server checked'),
      require={'statistics_checked': 15000, 'statistics_checked_synced': 2000, 'concurrent_phases': 400, 'statistics_by_http': 3000,
               'statistics of the server checked': 4000, 'requests refused': 600, 'cuts': 300, 'connections left': 1500},
      assumptions=('messages of batches may or may not be counted as puts, and requests that clients make by publishing may or may not be counted as messages',
                   'the DB and the server run in virtual time'))

check('P21',
      lambda t: [job('anchor', 'anchor', q(t, 4000, 100000), 0.01),
                 job('anchor', 'anchor-long', q(t, 160, 6000), 0.1, ops=600),
                 job('ring', 'ring', q(t, 2000, 60000), 0.01)],
      'runtime monitor of assignments over generated histories of blocks and nodes: stability, least movement, undoing, spread',
      'Hundreds of keys are looked up after every addition or removal of a block and compared with their assignments before it, with those before the removal that an addition undoes, and with a twin that makes '
      'the same changes. Rings of nodes are built in different orders, in parts, with and without one node.',
      'A case is a history of additions and removals from a random capacity and number of used blocks, or a set of nodes. Histories differ in sizes or operations.',
      evaluations=('assignments_checked', 'ring_lookups'),
      require={'assignments_checked': 50000000, 'removals_undone': 50000, 'distributions_checked': 1500, 'ring_lookups': 300000})

check('P22',
      lambda t: [job('series', 'series', q(t, 4000, 100000), 0.01),
                 job('registry', 'registry', q(t, 2000, 60000), 0.01),
                 job('series', 'series-race', q(t, 160, 6000), 0.1, variant='race'),
                 job('registry', 'registry-race', q(t, 160, 6000), 0.1, variant='race')],
      'reference-model monitor of every statistic after every event, conservation of counters, with the Go race detector',
      'The latest events are kept by the harness, which sorts them and computes each statistic; all kinds of series of both metrics packages are compared after every event, reset and concurrent phase, directly, through '
      'new snapshots and through older ones. Goroutines register, count and unregister under the same names.',
      'A case is a history of events for six series of random size. Histories differ in their events.',
      evaluations=('series_checked', 'registrations'),
      require={'series_checked': 400000, 'concurrent_phases_checked': 5000, 'resets': 1500, 'snapshots_read_later': 100000, 'registrations': 100000})

check('P26',
      lambda t: [job('srvroute', 'route', q(t, 400, 12000), 0.3),
                 job('srvroute', 'bursts', q(t, 160, 6000), 0.5, bursts=True, ops=40),
                 job('srvmany', 'many', q(t, 16, 400), 2),
                 job('srvroute', 'route-race', q(t, 24, 600), 3, variant='race', ops=40),
                 job('srvroute', 'bursts-race', q(t, 24, 600), 3, variant='race', bursts=True, ops=20)],
      'exactly-once checker over what clients of the real server send and receive, with the Go race detector',
      'A real server (service, batch manager, message store) serves clients of the harness, which speak the wire protocol from its documentation. Every payload is unique; what each '
      'client receives, how often, under which topic and in which delivery flow is compared with its subscriptions at the time.',
      'Topics with up to 1200 subscribers, who come and go, are published to. A case is a run of a server with 1-18 (or 200-1200) clients of 1-3 contracts. Non-trivial runs differ in their operations or in the order of what clients receive.',
      evaluations=('payloads received', 'requests acknowledged'),
      require={'messages published': 20000, 'payloads received': 20000, 'runs with many subscribers': 12, 'requests acknowledged': 20000, 'bursts': 2000, 'NOTIFY received': 3000, 'reliable deliveries completed': 3000, 'keys generated': 1000, 'pauses of subscribers': 1000, 'publishes while a subscriber does not read': 4000},
      assumptions=('the server runs in virtual time and in one process with its clients, over in-memory connections',
                   'client identifiers of one contract are made in different seconds: those made in the same second share a session'))

check('P27',
      lambda t: [job('srvrel', 'rel', q(t, 240, 6000), 0.4),
                 job('srvrel', 'restart', q(t, 240, 6000), 0.6, restart=True),
                 job('srvrel', 'long', q(t, 16, 400), 2, restart=True, ops=300),
                 job('srvrel', 'rel-race', q(t, 24, 500), 3, variant='race', restart=True)],
      'state machine monitor of the delivery flow of each message at each client, and exactly-once checker across connections and restarts of the server',
      'Clients hold back RECEIVE, RECEIPT and ACKNOWLEDGE at will, leave politely or not while messages are on their way, and connect again with and without a clean session; the server '
      'is closed or killed (opened on a copy of its directory) in between. Each frame a client receives must be one that its state of that message allows.',
      'A case is a run of a server with 1-6 clients. Non-trivial runs differ in their operations or in the states of the messages pending when sessions are resumed.',
      evaluations=('payloads received', 'reliable deliveries completed', 'messages pending when a session was resumed'),
      require={'messages pending when a session was resumed': 4000, 'messages notified again after a reconnect': 3000, 'messages sent again': 1500, 'sessions resumed': 2000, 'clean sessions': 400,
               'restarts': 150, 'restarts after a kill': 300, 'cuts': 1000, 'reliable deliveries completed': 5000},
      assumptions=('a kill keeps what the server wrote to files 3 s before', 'what is published within the moments in which a connection ends may or may not reach its session'))

check('P24',
      lambda t: [job('srvperm', 'perm', q(t, 320, 10000), 0.3),
                 job('srvperm', 'perm-long', q(t, 32, 800), 2, ops=300),
                 job('srvperm', 'perm-race', q(t, 24, 500), 3, variant='race', ops=40)],
      'monitor of requests to the real server with keys that do and do not allow them: exactly the latter are refused and leave no effect',
      'Each request is made with a key that the server generated for some topic, contract and type, with an altered one or none; from how the key was generated the harness knows whether it '
      'must be granted. What refused requests could have caused (deliveries, stored messages, acknowledgements) is looked for.',
      'A case is a run of a server with clients of two contracts. Non-trivial runs differ in their operations or in what clients receive.',
      evaluations=('requests granted', 'requests refused'),
      require={'requests refused': 4000, 'requests granted': 4000, 'payloads to be relayed': 2000, 'payloads received': 3000, 'requests for several topics': 1000},
      assumptions=('keys are not authenticated: a forged key is not tested, only keys made by the server and keys altered in the hash of their topic',
                   'topics are long enough that no two of them share a hash'))

check('P25',
      lambda t: [job('srvid', 'id', q(t, 320, 10000), 0.3),
                 job('srvid', 'id-long', q(t, 32, 800), 2, ops=300),
                 job('srvid', 'id-race', q(t, 24, 500), 3, variant='race', ops=40)],
      'monitor of the identifiers the real server hands out and accepts',
      'Clients connect with identifiers of the server and with altered, cut, extended and foreign ones, before and after restarts of the server; only the former may get in.',
      'A case is a run of a server with up to 12 clients. Non-trivial runs differ in their operations.',
      evaluations=('identifiers accepted', 'identifiers refused'),
      require={'identifiers accepted': 3000, 'identifiers refused': 3000, 'requests for identifiers refused': 200, 'secondary client IDs': 500, 'restarts': 200},
      assumptions=('identifiers of a contract are requested in different seconds',))

check('P28',
      lambda t: [job('srvhost', 'hostile', q(t, 240, 8000), 0.5),
                 job('srvhost', 'hostile-long', q(t, 16, 400), 3, ops=200),
                 job('srvhost', 'hostile-race', q(t, 32, 500), 4, variant='race', ops=25)],
      'monitor of well-behaved clients of the real server, and of panics, data races and goroutines left, while hostile clients send garbage, altered, cut and odd frames, stall and vanish',
      'The monitors of P26 watch the other clients, a client that connects last must be served, and after all connections have ended no goroutine of a connection may be left.',
      'A case is a run of a server with 6 well-behaved clients and up to 100 hostile connections. Non-trivial runs differ in their operations.',
      evaluations=('attacks', 'payloads received'),
      require={'attacks': 10000, 'hostile connections': 5000, 'checks that nothing is left of connections': 200, 'payloads received': 3000, 'subscribers that do not read': 2000},
      assumptions=('hostile clients of a contract may publish and subscribe in it as its other clients do: what they publish there does not count',
                   'clients that do not read are of a contract of their own'))

check('P29',
      lambda t: [job('srvstore', 'store', q(t, 320, 10000), 0.3),
                 job('srvstore', 'store-long', q(t, 24, 600), 2, ops=250),
                 job('srvstore', 'store-many', q(t, 24, 600), 3, ops=60, flood=400),
                 job('srvstore', 'store-race', q(t, 24, 500), 3, variant='race', ops=30)],
      'exactly-once checker of the messages a relay returns, against a model of what was published, when and with what ttl',
      'Messages are published with and without ttl, time passes, the server is closed or killed and started again; each relay must return exactly the live messages of the topic within the '
      'period asked for.',
      'A case is a run of a server with its message store. Non-trivial runs differ in their operations or in what clients receive.',
      evaluations=('stored messages to be relayed', 'stored messages not to be relayed'),
      require={'relays': 4000, 'stored messages to be relayed': 10000, 'stored messages not to be relayed': 2000, 'restarts': 100, 'messages with a ttl in the topic': 500, 'relays of more than 100 messages': 50, 'relays of more than 1000 messages': 20},
      assumptions=('messages whose age is within two seconds of the period or of their ttl are not judged', 'a kill keeps what the server wrote to files 3 s before'))

check('P30',
      lambda t: [job('srvbatch', 'batch', q(t, 320, 10000), 0.3),
                 job('srvbatch', 'batch-long', q(t, 24, 600), 2, ops=250),
                 job('srvbatch', 'batch-race', q(t, 24, 500), 3, variant='race', ops=30)],
      'monitor of when and in which frames each message reaches a subscriber, in virtual time, against the delays and thresholds it asked for',
      'Subscribers ask for batches of 1 ms to seconds, of one to many messages and bytes, and for delays; every message has a window of time in which it is due, no batch may be larger than asked for '
      'and none that is full may wait.',
      'A case is a run of a server with 8 clients of two contracts. Non-trivial runs differ in their operations or in what clients receive.',
      evaluations=('delivery times checked', 'batches received'),
      require={'delivery times checked': 20000, 'batches received': 10000, 'messages received in batches': 20000, 'volleys checked': 500, 'payloads received': 20000},
      assumptions=('the server looks for due batches every 100 ms', 'messages that match several subscriptions of a client are counted, their times are not judged',
                   'batches that are pending when a connection ends are not judged'))

check('P23',
      lambda t: [job('srvcodec', 'codec', q(t, 4000, 200000), 0.02)],
      'round-trip and differential monitor of the codec of the server against a codec of the harness, over whole, cut and altered streams',
      'Streams of generated messages, encoded by the server or by the harness from the definition of the protocol, are read in pieces of any size; each message must come back with every '
      'field, the stream must end with the last one, every cut of a frame must be an error, and altered bytes may neither panic nor make the decoder take memory.',
      'A case is a stream of 1-12 messages, all cuts of one of its frames, and 30 altered streams. Non-trivial streams differ in their bytes.',
      evaluations=('messages decoded', 'messages encoded', 'cut frames'),
      require={'messages encoded': 20000, 'messages decoded': 20000, 'cut frames': 100000, 'messages decoded from altered streams': 100000, 'altered streams': 50000},
      assumptions=('message IDs are those of the code, 16 bits', 'bodies that are not valid protocol buffers may be taken in part'))

check('P31',
      lambda t: [job('srvnet', 'streams', q(t, 96, 3000), 1),
                 job('srvnet', 'streams-race', q(t, 8, 300), 6, variant='race'),
                 job('srvmux', 'mux', q(t, 40, 1000), 1),
                 job('srvmux', 'mux-race', q(t, 8, 200), 2, variant='race'),
                 job('srvroute', 'route-net', q(t, 120, 4000), 0.5, net=True),
                 job('srvroute', 'bursts-net', q(t, 64, 2000), 0.7, net=True, bursts=True, ops=40),
                 job('srvrel', 'rel-net', q(t, 120, 4000), 0.6, net=True, restart=True),
                 job('srvhost', 'hostile-net', q(t, 80, 2500), 1, net=True),
                 job('srvroute', 'route-net-race', q(t, 16, 300), 4, variant='race', net=True, ops=40),
                 job('srvhost', 'hostile-net-race', q(t, 16, 300), 5, variant='race', net=True, ops=25)],
      'byte-stream monitor of the connections the real WebSocket and gRPC servers hand to the service, and the monitors of P26-P28 on clients that come by TCP, WebSocket and gRPC',
      'Numbered records are written from both sides, from several goroutines, in writes and reads of any size; each must arrive once, whole and in order, and the end of a connection must be seen by '
      'the other side and leave nothing. Then whole servers are run with clients on a mix of transports.',
      'A case is a set of connections, or a run of a server. Non-trivial ones differ in what was sent or received.',
      evaluations=('connections', 'ends of connections seen', 'payloads received'),
      require={'bytes compared': 100000000, 'connections': 300, 'ends of connections seen': 300, 'connections to one port': 300, 'connections by WebSocket': 500, 'connections by gRPC': 500,
               'payloads received': 20000, 'attacks': 3000},
      assumptions=('TCP, HTTP and TLS are those of the Go library', 'the real servers accept in-memory connections, only the listener that tells the protocols apart uses the loopback',
                   'packets of a gRPC client are below 512 KB'))

check('P32',
      lambda t: [job('codec', 'codec', q(t, 40000, 1000000), 0.0005),
                 job('bloom', 'bloom', q(t, 600, 20000), 0.02),
                 job('bloom', 'bloom-race', q(t, 24, 600), 0.2, variant='race')],
      'round-trip and reference monitors over generated keys and identifiers, with the Go race detector',
      'Identifiers are compared with base32 of the standard library and decoded again, also in place; filters are built by several goroutines, marshalled, and asked for every key and for others.',
      'A case is an identifier for each of four codecs, biased to single set and cleared bits, or a set of up to 100000 keys.',
      evaluations=('codes_checked', 'keys_tested', 'other_keys_tested'),
      require={'codes_checked': 100000, 'keys_tested': 5000000, 'other_keys_tested': 1000000, 'hashes_checked': 30000})

check('P33',
      lambda t: [job('cluster', 'cluster', q(t, 96, 3000), 2),
                 job('cluster', 'cluster-long', q(t, 16, 400), 6, steps=20),
                 job('cluster', 'cluster-race', q(t, 24, 400), 4, variant='race')],
      'trace monitor of elections (votes, terms, leaders, rings) and of convergence, over real nodes of a cluster whose links are cut, healed and slowed',
      'Each node of a cluster of 3-5 reaches every other over a link of the harness that records, delays or fails its calls. Each term has one leader, with the votes of a majority; no node votes '
      'twice or for a past term; the ring announced is that of the nodes announced; and once links are good again one leader leads exactly the connected nodes, which have its ring.',
      'A case is a cluster and a history of partitions, flaky and slow links. Non-trivial histories differ in steps, terms or leaders.',
      evaluations=('pings', 'vote_requests', 'settled'),
      require={'leaders_elected': 500, 'votes_granted': 2000, 'votes_refused': 400, 'settled': 500, 'partitions': 100, 'swaps': 40, 'flaky_phases': 40, 'slow_phases': 40, 'all_apart': 40, 'late_pings': 500},
      assumptions=('links to a node that is cut off fail, they do not hang', 'a cluster settles within 40 s of real time, some 1000 heartbeats'))

check('P34',
      lambda t: [job('statsd', 'statsd', q(t, 400, 20000), 0.12),
                 job('statsd', 'statsd-race', q(t, 160, 4000), 0.2, variant='race')],
      'conservation monitor: every packet a real UDP server receives is compared with the metrics handed to the client, under the Go race detector',
      'Each metric handed to a client by its goroutines is written down as the text it must become. Each line that arrives at the server must be one of them, once, in the order of its goroutine, '
      'in packets of the configured size; all must arrive within the flush interval and at Unregister, unless the queue was made too small or the server was away.',
      'A case is a client with its options (packet size, intervals, queue, pool, senders, tags) used by one to six goroutines; servers go away and come back. Non-trivial histories differ in options or metrics.',
      evaluations=('metrics_received',), distinct=('clients',),
      require={'metrics_received': 20000, 'metrics_overflown': 200, 'server_away': 10},
      assumptions=('the receive buffer of a socket holds 100 packets', 'packets over loopback arrive within 20 s'))

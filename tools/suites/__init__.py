SUITE_OF = {'N01': 'peers'}
for _i in range(1, 16):
    SUITE_OF['C%02d' % _i] = 'chain'
SUITE_OF['W01'] = 'transfers'
SUITE_OF['S03'] = 'files'
SUITE_OF['T01'] = 'builder'
SUITE_OF['W02'] = 'sync'
SUITE_OF['S02'] = 'queues'
SUITE_OF['S01'] = 'sched'
SUITE_OF['N02'] = 'proto'
CLAIMED = ['N01'] + ['C%02d' % i for i in range(1, 16)] + ['W01', 'S03', 'T01', 'W02', 'S01', 'S02', 'N02']
NA = {'W03': 'WalletGreen (5000 lines: its own container file format, asynchronous operations on a dispatcher, a second transaction cache) would need a specification and driver as large as that of the chain; the parts below it are specified and claimed as W01 (outputs and balances) and W02 (synchronisation), and the time did not suffice for the wallet itself'}
TECH = {
    'proto': 'TLA+ specification (Proto.tla; ProtoMC.tla: an honest peer, a liar and every interleaving), exhaustive TLC with liveness, TLC trace validation of generated conversations of the real CryptoNoteProtocolHandler with a stand-in core and stand-in peers, each message, relay, drop and import compared',
    'sched': 'TLA+ specification (Sched.tla; SchedMC.tla: a few contexts doing anything), exhaustive TLC, TLC trace validation of generated programs run by the real Dispatcher, events, groups, timers, locks, contexts and threads, with time and idleness under the driver\'s control',
    'queues': 'TLA+ specification (Queue.tla; QueueMC.tla: the queue at the grain of its lock and conditions), exhaustive TLC over all schedules of a few threads, TLC linearisability checking of recorded histories of the real BlockingQueue, GroupClose and ObserverManager under a deterministic scheduler',
    'sync': 'TLA+ specification (Sync.tla, SyncMC.tla: the synchronisation loop with failures and changes at every step), exhaustive TLC with liveness, TLC trace validation of generated histories of the real BlockchainSynchronizer against a stand-in node and consumers',
    'builder': 'TLA+ specification (Builder.tla, BuilderMC.tla), exhaustive TLC on short histories, TLC trace validation of generated histories of the real transaction objects, every answer and byte string compared',
    'files': 'TLA+ specification (Files.tla, FilesMC.tla: file protocols with failures and crashes), exhaustive TLC, TLC trace validation of generated histories of the real vectors with a crash point at every file system call and mapped store',
    'transfers': 'TLA+ specification (Transfers.tla), exhaustive TLC on a small catalogue of transactions, TLC trace validation of generated histories of the real TransfersContainer',
    'peers': 'TLA+ specification (Peers.tla), exhaustive TLC on small limits, TLC trace validation of recorded PeerlistManager behaviour',
    'chain': 'TLA+ specification of the node (Node.tla), exhaustive TLC on a small abstract node, TLC trace validation of generated histories executed by cn::core and of the rule functions evaluated near every threshold (RulesTrace.tla, Schedules.tla, Float.tla)',
}
LEVEL_NOTE = {
    'proto': 'Exhaustive for one honest peer, one liar and six blocks; the code is bound by validating seeded random conversations with four peers, honest or not, handled concurrently.',
    'sched': 'Exhaustive for four contexts; the code is bound by validating seeded random programs step by step.',
    'queues': 'Exhaustive for seven threads; the code is bound by checking seeded schedules of the real classes, drawn at every lock, unlock, wait and notification.',
    'sync': 'Exhaustive for two consumers, few changes and failures; the code is bound by validating seeded random histories of the real class call by call.',
    'builder': 'Exhaustive for short histories; the code is bound by validating seeded random histories of the real objects answer by answer.',
    'files': 'Exhaustive for the two file protocols at small lengths; the code is bound by validating seeded random histories, each crash point recovered by the real code.',
    'transfers': 'Exhaustive for four transactions; the code is bound by validating seeded random histories of the real class answer by answer.',
    'peers': 'Exhaustive for the design at tiny limits; the code is bound by validating seeded random histories of the real class event by event.',
    'chain': 'Exhaustive for the small abstract node; the code is bound by validating seeded generated histories of cn::core event by event, with fake proof of work.',
}

CORE = ['BlockchainExplorer', 'CryptoNoteCore', 'P2P', 'Rpc', 'Http', 'Serialization', 'Logging', 'System', 'Common', 'crypto']
WALLET = ['Wallet', 'Transfers', 'Mnemonics', 'InProcessNode', 'NodeRpcProxy'] + CORE
DRIVERS = {
    'chain': {'src': ['chain.cpp', 'fakepow.cpp', 'vclock.cpp'], 'libs': CORE},
    'rules': {'src': ['rules.cpp', 'fakepow.cpp', 'vclock.cpp'], 'libs': CORE},
    'transfers': {'src': ['transfers.cpp', 'vclock.cpp'], 'libs': ['Transfers'] + CORE},
    'files': {'src': ['files.cpp'], 'libs': CORE},
    'builder': {'src': ['builder.cpp', 'vclock.cpp'], 'libs': CORE},
    'sync': {'src': ['sync.cpp'], 'libs': ['Transfers'] + CORE},
    'queues': {'src': ['queues.cpp'], 'libs': CORE, 'ldflags': ['-Wl,--wrap=pthread_mutex_lock', '-Wl,--wrap=pthread_mutex_unlock']},
    'sched': {'src': ['sched.cpp'], 'libs': CORE, 'ldflags': ['-Wl,--wrap=epoll_wait', '-Wl,--wrap=timerfd_settime', '-Wl,--wrap=write']},
    'proto': {'src': ['proto.cpp'], 'libs': CORE},
    'peers': {'src': ['peers.cpp', 'vclock.cpp'], 'libs': CORE},
}

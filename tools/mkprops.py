#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
C = 'src/CryptoNoteCore/'
BC, TP, CO, CU = C+'Blockchain.cpp', C+'TransactionPool.cpp', C+'Core.cpp', C+'Currency.cpp'

p('C01', 'No output or key image is ever spent twice on the main chain',
  'At every moment, over the main chain as it stands, every key image appears in at most one input and every multisignature/deposit output is consumed by at most one input, and each input refers to outputs that exist with the stated amount and were created earlier. A block, alone or as part of a chain switch, that would break this is refused, and a key image or deposit counts as spent exactly when a main-chain transaction spends it (so it becomes spendable again after its spender is reorganised away).',
  ['inputs', 'histories'], 'Every sequence of blocks, forks, chain switches, rollbacks, restarts and pool submissions, including conflicting spends on sibling branches and within one block.',
  'The tests spend a handful of outputs on one or two hand-made chains; double spends across branches, after a failed switch, or after a rollback need histories the tests do not enumerate.',
  [BC, C+'Core.cpp'], [('spent key image set maintained on push/pop', BC+' pushTransaction/popTransaction'), ('multisignature usage flags', BC+' pushTransaction/popTransaction/validateInput'), ('input checks', BC+' checkTransactionInputs')], ['ICore::isKeyImageSpent', 'addNewBlock verdict'])
p('C02', 'Node state is a function of its main chain, whatever the history',
  'Two nodes with the same main chain report the same coins in circulation, difficulties, block sizes, generated transaction counts, deposit totals, per-output global indexes, spent key images, transaction locations and secondary indexes (payment id, timestamp), no matter which forks, chain switches, rollbacks or refused blocks led there. What the node reports equals what a replay of that main chain from genesis gives.',
  ['histories', 'inputs'], 'Every history of accepted and refused blocks, forks and reorganisations of any depth within the allowed limit, and explicit rollbacks.',
  'Tests look at a few counters after one reorganisation; an index that is not undone exactly only shows for particular transaction mixes and orders.',
  [BC, C+'BlockchainIndices.cpp', C+'DepositIndex.cpp', C+'BlockIndex.cpp'], [('push/pop symmetry', BC+' pushBlock/popBlock/popTransaction'), ('secondary indexes', C+'BlockchainIndices.cpp'), ('deposit index', C+'DepositIndex.cpp'), ('rollback', BC+' rollbackBlockchainTo/removeLastBlock')])
p('C03', 'A refused block, transaction or chain switch leaves no trace',
  'When the node refuses a block or a transaction, or abandons a chain switch part way, the main chain and everything it reports about it (spent outputs, indexes, totals, difficulty) are exactly as before, and no transaction that was waiting in the pool disappears. After a failed chain switch the invalid block and its descendants are no longer candidates.',
  ['inputs', 'histories'], 'Every refused input at every chain state: each validation rule failing first, in the first, middle or last block of an alternative chain.',
  'Tests check the return code of refusals, not the complete state afterwards, and only a few rules in a few positions.',
  [BC], [('undo on failed push', BC+' pushBlock/popTransactions'), ('undo on failed switch', BC+' switch_to_alternative_blockchain/rollback_blockchain_switching')])
p('C04', 'The node follows the valid chain with the most cumulative work',
  'The main chain changes only when a known valid alternative has strictly more cumulative difficulty than it (or a checkpoint demands it), and when one has, the node moves to it, unless moving would drop a transaction already confirmed on the main chain (a deliberate rule of this node: such a chain is refused); ties keep the current chain. Out-of-order (parentless) blocks never alter the chain, duplicates are recognised, and transactions of abandoned blocks are kept in the pool unless the new chain includes or invalidates them.',
  ['histories', 'inputs'], 'All orders of arrival of the blocks of a block tree with varying difficulties and timestamps.',
  'The tests switch chains in one or two fixed arrival orders with constant difficulty.',
  [BC], [('alternative blocks', BC+' handle_alternative_block'), ('switch', BC+' switch_to_alternative_blockchain'), ('cumulative difficulty', BC+' m_blocks[].cumulative_difficulty')])
p('C05', 'Money is created only by the emission rule; fees and interest are accounted',
  'Every accepted block pays its miner exactly the emission-plus-fee amount the rule gives for its height, size and the coins in circulation (up to the rounding allowance), oversized blocks are penalised or refused, and no transaction pays out more than its inputs plus the interest due on the deposits it withdraws. Coins in circulation grow block by block by exactly the base emission plus the interest paid.',
  ['inputs', 'histories'], 'All block heights across the schedule, sizes relative to the median, fee totals, coinbase amounts around the allowed value, and transactions with any input/output mix.',
  'Unit tests evaluate the reward function at chosen points; the guarantee is about what the chain accepts at any height, size mix and history.',
  [CU, BC, C+'Core.cpp', C+'TransactionUtils.cpp'], [('reward', CU+' getBlockReward'), ('coinbase check', BC+' validate_miner_transaction'), ('in>=out with interest', CO+' check_tx_semantic'), ('emission bookkeeping', BC+' pushBlock already_generated_coins')])
p('C06', 'Deposits stay locked for their term and are counted exactly',
  'A deposit output is only accepted with a permitted term and amount, can only be withdrawn by a transaction stating its term and signer count once the term has elapsed, and earns the interest the schedule gives. At every height the node reports as locked deposits and paid interest exactly the sums over the deposit creations and withdrawals of the main chain up to that height.',
  ['inputs', 'histories'], 'All deposits terms/amounts, withdrawals before/at/after maturity, wrong term or signature counts, on the main chain, in alternative branches and across reorganisations and rollbacks.',
  'Unit tests test the deposit index and rules separately; the totals under reorganisation and the acceptance of withdrawals at term boundaries depend on histories.',
  [BC, C+'DepositIndex.cpp', CU, C+'TransactionUtils.cpp'], [('term check', CU+' validateOutput'), ('withdrawal check', BC+' validateInput'), ('totals', C+'DepositIndex.cpp')])
p('C07', 'Locked and immature outputs cannot be spent early',
  'An output whose transaction is locked until a height (or time) not yet reached, including a fresh mining reward, can be used in no accepted transaction or block; once the lock has passed it can. A mining reward with the wrong lock is never accepted.',
  ['inputs', 'histories'], 'All spend heights around the unlock height, for coinbase and user-set unlock times, ring members included, on the main chain and on alternative branches where the age of the output differs.',
  'Tests spend one mature and one immature output on a linear chain.',
  [BC], [('unlock rule', BC+' is_tx_spendtime_unlocked'), ('coinbase lock', BC+' prevalidate_miner_transaction'), ('ring member scan', BC+' scanOutputKeysForIndexes')])
p('C08', 'Checkpointed history is never replaced and deep reorganisations are refused',
  'A block whose height has a checkpoint is on the main chain only with the checkpointed hash, whichever way it arrives, and a history below the last passed checkpoint is never reorganised. Outside the checkpoint zone no alternative block deeper below the top than the allowed reorganisation depth is accepted, and loading checkpoints at start rolls back a conflicting chain.',
  ['histories', 'inputs', 'configurations'], 'All checkpoint sets, chain states and arrival orders; restarts with new checkpoints.',
  'Checkpoint unit tests query the table only; enforcement along forks, switches and restarts is untested.',
  [C+'Checkpoints.cpp', BC], [('checkpoint table', C+'Checkpoints.cpp'), ('enforcement', BC+' pushBlock/handle_alternative_block/init')])
p('C09', 'Each block carries the protocol version its height requires',
  'A block is accepted only with the major version in force at its height, where configured upgrade heights switch the version just after that height; rules tied to a version (block size limits, transaction versions, difficulty algorithm, minimum fee) change with it. The version a template or a peer is told for a height is the one that is enforced.',
  ['inputs', 'histories', 'configurations'], 'All heights around each upgrade for any configuration of upgrade heights, on the main and alternative chains, before and after restarts and reorganisations across the boundary.',
  'Tests check version rules at a few fixed heights on a linear chain.',
  [BC, C+'UpgradeDetector.h', CU], [('version for height', BC+' get_block_major_version_for_height'), ('check', BC+' checkBlockVersion'), ('upgrade detector', C+'UpgradeDetector.h')])
p('C10', 'Restarting or crashing a node preserves its chain state',
  'A node restarted after a clean shutdown, or after being killed at any point with or without a saved cache (current, stale, truncated or missing), comes back with the main chain that its block store holds and the same answers to every query as a node that never stopped; a cache is never trusted if it does not match. Acknowledged pool transactions that remain valid survive a clean restart.',
  ['crash_points', 'histories'], 'Every cut point of a history of block additions, reorganisations and saves; any mixture of newer and older cache, index and block store files, including truncated cache files.',
  'No existing test restarts a node from a mixture of old and new files.',
  [BC, C+'SwappedVector.h', C+'TransactionPool.cpp'], [('cache store/load', BC+' storeCache/loadCache, BlockCacheSerializer'), ('rebuild', BC+' rebuildCache'), ('block store', C+'SwappedVector.h')])
p('C11', 'The pool holds no conflicting, invalid or already-mined transaction',
  'Transactions submitted to the pool are admitted only if they are well formed, their inputs exist and are unspent on the main chain and by no other admitted pool transaction, they pay out no more than they take in (plus interest due) and meet the size and time-to-live rules; resubmission is recognised and never duplicates an entry. Removing or mining a transaction frees exactly the inputs it held, and lookups by hash, payment id and arrival time agree with the contents.',
  ['inputs', 'histories'], 'All interleavings of submissions (local and returned from blocks), blocks, reorganisations and removals.',
  'Pool tests use single transactions against a stub validator; conflicts created by reorganisations and returned transactions are not sampled.',
  [TP, CO], [('admission', TP+' add_tx'), ('input locks', TP+' addTransactionInputs/removeTransactionInputs'), ('indexes', TP+' m_paymentIdIndex/m_timestampIndex')])
p('C12', 'A block template is always acceptable when mined',
  'Whenever the node hands out a block template, the template solved and submitted against the unchanged chain is accepted and becomes the new top: its version, difficulty, timestamp, reward, size and chosen transactions satisfy every rule. It contains no two conflicting transactions, nothing expired or unspendable, and does not exceed the size the reward rule lets it use.',
  ['histories', 'inputs'], 'Every reachable chain and pool state, including right after reorganisations, upgrades and pool contents larger than a block.',
  'Tests request templates in a few simple states.',
  [TP, CO, CU], [('selection', TP+' fill_block_template'), ('template', CO+' get_block_template'), ('readiness', TP+' is_transaction_ready_to_go')])
p('C13', 'Sync queries answer consistently with the main chain',
  'For any list of known block ids a peer or wallet presents, the node finds the highest block common with its main chain and answers with the following main-chain blocks, contiguous, in order, within the requested limits, with complete blocks and transactions for every item promised in full. Pool difference queries return exactly what must be added to and removed from the caller\'s list, and flag a stale tail.',
  ['inputs', 'histories'], 'All main chains and caller histories (sparse, empty, off-chain, from another branch), start timestamps and limits.',
  'Tests try a few query lists on a short linear chain.',
  [BC, CO], [('sparse chain/supplement', BC+' findBlockchainSupplement/buildSparseChain'), ('query', CO+' queryBlocks/queryBlocksLite/getPoolChanges'), ('relay', BC+' handleGetObjects')])
p('C14', 'Notifications let an observer reconstruct the main chain',
  'An observer that applies the stream of new-block, alternative-block and chain-switch notifications in order always has exactly the node\'s main chain after every operation, and is told of nothing that did not happen. Pool notifications likewise happen exactly when the pool changed.',
  ['histories'], 'All histories of additions, forks, switches (successful and failed) and refusals.',
  'Tests check individual messages in isolation.',
  [BC, C+'BlockchainMessages.cpp', CO], [('message queues', BC+' sendMessage'), ('observers', CO+' blockchainUpdated/poolUpdated')])
p('C15', 'The difficulty demanded of a block follows the retarget rule on its own branch',
  'The difficulty a node demands of the next block, on the main chain or on an alternative branch, is the value the rule in force gives for the timestamps and cumulative difficulties of the preceding blocks of that same branch; a block whose proof of work is below it, whose time is too far in the future or below the median of its recent ancestors, is refused.',
  ['inputs', 'histories'], 'All timestamp sequences and branch shapes, at every block version and around upgrade heights.',
  'Tests feed the difficulty function recorded sequences; what the chain demands on forks and after reorganisations is not covered.',
  [CU, BC], [('rule', CU+' nextDifficulty*'), ('window selection', BC+' getDifficultyForNextBlock/get_next_difficulty_for_alternative_chain'), ('time checks', BC+' check_block_timestamp')])

T = 'src/Transfers/'
p('W01', 'A wallet output is exactly one of unconfirmed, locked, available or spent',
  'For any sequence of transactions seen (unconfirmed or in blocks), confirmations, deletions, chain rollbacks and height advances, the container of a wallet\'s transfers reports each owned output in exactly one state, balances that equal the sum of the outputs in each state, and after a rollback the same contents as if the detached blocks had never been seen. Saving and reloading changes no answer.',
  ['histories', 'inputs'], 'All sequences of operations, with colliding key images, deposits, unlock times, and rollbacks to any height.',
  'Unit tests call each operation in fixed short sequences.',
  [T+'TransfersContainer.cpp'], [('state move', T+'TransfersContainer.cpp addTransaction/markTransactionConfirmed/deleteUnconfirmedTransaction/detach'), ('unlock jobs', T+'TransfersContainer.cpp doAdvanceHeight')])
p('W02', 'Wallet synchronisation delivers each consumer exactly the node\'s chain',
  'Whatever the batches in which a node answers, its errors, reorganisations, pool changes, or consumers added late, every subscribed consumer, once synchronisation settles, has been given exactly the blocks of the node\'s main chain from its start, contiguously and in order, with a detach before any replaced block, and its unconfirmed set is the node\'s pool. A failed delivery is retried and never skipped.',
  ['histories', 'fault_sequences', 'schedules'], 'All node answer sequences (partial batches, off-chain tails, failures) and reorganisations between answers.',
  'Tests script a few answer sequences.',
  [T+'BlockchainSynchronizer.cpp', T+'SynchronizationState.cpp', T+'TransfersConsumer.cpp'], [('state', T+'SynchronizationState.cpp checkInterval/addBlocks/detach'), ('process', T+'BlockchainSynchronizer.cpp processBlocks/updateConsumers')])
p('W03', 'A wallet\'s balances always equal the chain\'s view of its outputs',
  'After synchronising with a node, a multi-address wallet\'s actual, pending and deposit balances, in total and per address, are the sums over the outputs that the chain and its own unconfirmed transactions give it; sending, failing to send, deposits and withdrawals, reorganisations and save/reload keep this. No output is used by two of its transactions at once.',
  ['histories', 'fault_sequences'], 'All histories of sends, relay failures, incoming payments, reorganisations, address additions/deletions, saves and reloads.',
  'Tests cover single operations against a stub node.',
  ['src/Wallet/WalletGreen.cpp', 'src/Wallet/WalletSerializationV2.cpp'], [('balances', 'src/Wallet/WalletGreen.cpp updateBalance'), ('output selection', 'src/Wallet/WalletGreen.cpp selectTransfers'), ('rollback', 'src/Wallet/WalletGreen.cpp rollbackUncommitedTransaction')])
N = 'src/P2p/'
p('N01', 'Peer lists stay bounded, disjoint, allowed and ordered by recency',
  'After any sequence of peer announcements, confirmed contacts, anchors, merges and reloads, no address is in both the verified and unverified list, no list holds an address twice or more entries than its limit (the oldest go first), no loopback or disallowed private address is kept, and what is shared with others is the most recently seen verified peers first, never more than asked for and never an unseen one.',
  ['inputs', 'histories'], 'All sequences of operations and addresses.',
  'The tests insert a few peers.',
  [N+'PeerListManager.cpp', N+'PeerListManager.h'], [('lists', N+'PeerListManager.cpp append_with_peer_white/gray, merge_peerlist, trim')])
p('N02', 'A node syncing from peers converges and survives misbehaving ones',
  'A node that exchanges protocol messages with peers asks for and imports blocks in chain order, ends up on the peer\'s chain when that has more work, relays each new block or transaction to the other peers once and never back to its source, and drops a peer that sends invalid, unrequested or inconsistent answers without harm to its own chain. It reports itself synchronised once, as soon as a peer has nothing that it lacks, and not before.',
  ['histories', 'inputs', 'fault_sequences'], 'All message sequences from honest and misbehaving peers.',
  'There are no unit tests of the protocol handler\'s message-level behaviour.',
  ['src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp'], [('sync', 'src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp request_missing_objects/handle_response_get_objects'), ('relay', 'src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp handle_notify_new_block/handle_notify_new_transactions')])
S = 'src/System/'
p('S01', 'Cooperative primitives lose no wake-up and keep their order',
  'For every interleaving of contexts, events, locks, latches, groups, timers, interrupts and remote calls on a dispatcher, each waiting context resumes exactly when its condition is met or it is interrupted, never otherwise, contexts run in the order they were made ready, mutual exclusion holds, and a group\'s wait or destruction returns only after all of its contexts have finished.',
  ['schedules', 'programs'], 'All small programs over the primitives.',
  'Tests run particular two- or three-context programs.',
  ['src/Platform/Linux/System/Dispatcher.cpp', S+'Event.cpp', S+'ContextGroup.cpp', S+'EventLock.cpp'], [('run queue', 'src/Platform/Linux/System/Dispatcher.cpp'), ('waiters', S+'Event.cpp'), ('groups', S+'ContextGroup.cpp')])
p('S02', 'Thread queues deliver every element once, in order, and always terminate',
  'With any number of producer and consumer threads, a bounded blocking queue delivers each accepted element exactly once and in insertion order per producer, never holds more than its limit, and once closed releases every blocked thread while consumers can still drain what was accepted. An observer list notifies exactly the registered observers.',
  ['schedules'], 'All thread interleavings of push, pop and close.',
  'Tests run one or two schedules.',
  ['src/Common/BlockingQueue.h', 'src/Common/ObserverManager.h'], [('queue', 'src/Common/BlockingQueue.h'), ('observers', 'src/Common/ObserverManager.h')])
p('S03', 'File-backed vectors keep exactly the committed elements across crashes',
  'A file-backed vector behaves as an in-memory sequence for every series of operations, its elements are unchanged by closing and reopening, and if the process dies at any point the file reopens as the state before or after the interrupted operation, never a mixture (the block store may also reopen without its last append); an operation that fails to write its file changes nothing.',
  ['crash_points', 'histories'], 'All sequences of operations and kill points.',
  'Tests reopen after complete operations only.',
  ['src/Common/FileMappedVector.h', C+'SwappedVector.h'], [('atomic rename on reserve', 'src/Common/FileMappedVector.h atomicUpdate'), ('index/items files', C+'SwappedVector.h')])
p('T01', 'A transaction object cannot be altered after signing and round-trips exactly',
  'For every sequence of building steps, a transaction object accepts changes only while no signature has been attached, reports counts and totals that equal its inputs and outputs, keeps its hash consistent with its content, and a copy made from its serialised form answers every query alike.',
  ['programs', 'inputs'], 'All sequences of builder calls.',
  'Tests call each builder step a few times.',
  [C+'Transaction.cpp', C+'TransactionPrefixImpl.cpp'], [('signed-state guard', C+'Transaction.cpp checkIfSigning'), ('totals', C+'Transaction.cpp getInputTotalAmount')])

EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mkprops_extra.py')
if os.path.exists(EXTRA): exec(open(EXTRA).read())
import re
for x in P:
    assert re.match(r'^[A-Z][0-9]{2,3}$', x['id']) and len(x['title']) <= 80, (x['id'], len(x['title']))
    assert x['statement'].count('. ') <= 2, x['id']
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))

"""Source of /verif/properties.jsonl: `python3 spec/properties.py` rewrites it."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


T = 'crates/types/src/'
S = 'crates/storage/src/'
A = S + 'archive/'

# ---------------------------------------------------------------- protocol types
prop('C01', 'Committee quorum and validity thresholds are Byzantine-safe',
     'For every committee of N equal-power members a quorum is reported reached exactly from floor(2N/3)+1 votes and availability exactly from ceil(N/3) votes, however the committee came into being (built, reloaded from its serialized form, advanced to another epoch). '
     'Every member counts for exactly one vote, whether asked for by key, by identifier or through its own record, and a key or identifier outside the committee counts for none. '
     'A committee of fewer than two members can be neither built nor reloaded (the empty default value is only a placeholder).',
     ['inputs', 'configurations'], 'every committee size, every way of constructing or decoding a committee, every key or identifier asked about',
     'the property tests sample committees of a few sizes made by the test constructor; the decode path and the outsider power are asserted for one example at most',
     [T + 'committee.rs'],
     [('calculate_quorum_threshold / calculate_validity_threshold', T + 'committee.rs CommitteeInner'),
      ('load() on every construction', T + 'committee.rs Committee::new, Deserialize'),
      ('voting_power / voting_power_by_id / reached_quorum / reached_validity', T + 'committee.rs Committee')],
     observe=['Committee::reached_quorum', 'Committee::voting_power', 'Committee::voting_power_by_id'])

prop('C02', 'Committee membership views agree and identities derive from keys',
     'A member is found by key exactly when it is found by identifier, and both lookups give the same member; an identifier is always the hash of the full public key of the member, computed the same way everywhere. '
     'Listings cover the whole committee, the member list in identifier order, and listings that exclude oneself leave out exactly that one member. '
     'Textual and binary forms of an identifier decode only from exactly 32 bytes and decode to what was encoded.',
     ['inputs', 'configurations'], 'every committee, every member and non-member, every encoded identifier',
     'tests load one committee and round-trip one identifier',
     [T + 'committee.rs'],
     [('authorities_by_id index built from authorities', T + 'committee.rs CommitteeInner::load'),
      ('Authority::id and From<BlsPublicKey> for AuthorityIdentifier', T + 'committee.rs'),
      ('others_primaries_by_id, others_keys_except', T + 'committee.rs'),
      ('AuthorityIdentifier Serialize/Deserialize/FromStr', T + 'committee.rs')])

prop('C03', 'Signature verification is complete: exact message, exact key, subgroup checks',
     'A signature check answers yes only when the pairing check of the signature library succeeded for exactly the given message bytes, the given public key and the protocol domain tag, with both the signature and the public key checked to be valid group elements. '
     'An aggregate is accepted only for a non-empty signer list in which every listed key is used once, in order, with the one intended message. '
     'Signing uses the same domain tag and the same message encoding as verification.',
     ['inputs'], 'every signature, message, key and signer list, including adversarially chosen curve points',
     'tests use honestly generated keys and signatures, so no sampled input lies outside the subgroup or uses a malformed key',
     [T + 'crypto/bls_signature.rs', T + 'crypto/bls_keypair.rs'],
     [('BlsSignature::verify_raw, bls_verify_secure, ProtocolSignature for BlsSignature', T + 'crypto/bls_signature.rs'),
      ('ValidatorAggregateSignature for BlsAggregateSignature', T + 'crypto/bls_signature.rs'),
      ('Signer for BlsKeypair / BlsPrivateKey, DST_G1', T + 'crypto/bls_keypair.rs')])

prop('C04', 'Proofs of possession bind the key and the owner under their own domain',
     'A proof of possession is accepted only if the key itself is valid and the proof is a valid signature by that same key over the fixed prefix, the full compressed key and the full owner address; producing and checking build the identical bytes. '
     'The network-handshake proof likewise binds the full network key and the genesis, and the prover and the verifier build the identical message.',
     ['inputs'], 'every proof, key, address and genesis',
     'tests change one ingredient at a time on honest keys; a message builder that drops part of an ingredient or a verifier that diverges from the prover on rare inputs passes them',
     [T + 'crypto/bls_signature.rs', T + 'crypto/network.rs'],
     [('construct_proof_of_possession_message, verify_proof_of_possession_bls', T + 'crypto/bls_signature.rs'),
      ('generate/verify_proof_of_possession_network', T + 'crypto/network.rs')])

prop('C05', 'Signed messages of different purposes can never collide',
     'Every signed protocol message starts with a three-byte intent (scope, version, application) followed by the value; every scope and application has its own distinct byte and the version is fixed, so a signature for one purpose never verifies for another. '
     'Consensus digests are always wrapped with the consensus application and the consensus-digest scope, and proofs of possession with the base application and the possession scope. '
     'An intent is parsed only from exactly three bytes, each decoded to the field it was encoded from.',
     ['inputs'], 'every pair of messages and purposes',
     'tests compare one or two fixed layouts; a swapped field order or a reused byte shows only when two purposes meet',
     [T + 'crypto/intent.rs', T + 'crypto/mod.rs'],
     [('Intent, IntentMessage, IntentScope, AppId', T + 'crypto/intent.rs'), ('to_intent_message', T + 'crypto/mod.rs')])

prop('C06', 'Keys, signatures and digests decode only from valid, exact-length encodings',
     'Public keys, network keys, signatures and digests are accepted from text or binary form only if the whole encoding is valid and of the exact length; anything else is an error and never a panic or a padded or truncated value. '
     'The text and binary forms of one value are the same bytes, base58-encoded in the text form, and encoding then decoding yields the same value. '
     'The length pre-screen for public keys never rejects a length that the parser accepts.',
     ['inputs'], 'every byte string and every text handed to a decoder',
     'tests decode a handful of honest encodings and one or two malformed ones',
     [T + 'crypto/mod.rs', T + 'crypto/bls_public_key.rs', T + 'crypto/bls_signature.rs', T + 'crypto/network.rs', T + 'serde.rs'],
     [('Digest Serialize/Deserialize visitor', T + 'crypto/mod.rs'),
      ('BlsPublicKeyBytes visitor, from_literal_bytes, is_plausible_encoding', T + 'crypto/bls_public_key.rs'),
      ('BlsSignature visitor, from_bytes', T + 'crypto/bls_signature.rs'),
      ('NetworkPublicKey visitor', T + 'crypto/network.rs'), ('RoaringBitmapSerde', T + 'serde.rs')])

prop('C07', 'Public-key equality, ordering and hashing are mutually consistent',
     'Two public keys are equal exactly when their canonical encodings are equal, keys are ordered by that encoding, and equal keys hash alike, so ordered and hashed collections of keys never lose, duplicate or reorder a validator. '
     'The cached encoding of a key always belongs to the key it is stored with.',
     ['inputs'], 'every pair of keys and every way of constructing a key',
     'tests compare freshly generated keys made by one constructor',
     [T + 'crypto/bls_public_key.rs'],
     [('PartialEq/Ord/Hash for BlsPublicKey and BlsPublicKeyBytes', T + 'crypto/bls_public_key.rs'),
      ('From<CorePublicKey>, From<BlsPublicKeyBytes>, Default', T + 'crypto/bls_public_key.rs')])

prop('C08', 'Stored keys keep their order and every encoder has its matching decoder',
     'Database keys are always written and read with the one order-preserving encoding (big-endian, fixed width), so that byte order equals key order; values, messages and sizes are always written, read and measured with the one canonical encoding. '
     'The fallible decoders report bad bytes as an error rather than aborting. '
     'The 64-bit nonce splits into the epoch (upper half) and the round (lower half).',
     ['inputs'], 'every key and value type and every stored byte string',
     'tests read back what the same function pair wrote, for a few small integer keys below the first byte boundary',
     [T + 'codec.rs', T + 'helpers.rs', S + 'redb/wraps.rs'],
     [('encode_key/decode_key/try_decode_key', T + 'codec.rs'), ('encode/decode/try_decode/encoded_size/encode_into_buffer', T + 'codec.rs'),
      ('KeyWrap/ValWrap', S + 'redb/wraps.rs'), ('deconstruct_nonce', T + 'helpers.rs')])

prop('C09', 'Reputation scores accumulate per authority and rank deterministically',
     'Adding a score changes only that authority and adds to what it already had, a fresh table holds every committee member at zero, and the all-zero test is true exactly when no authority has a positive score. '
     'The ranking lists every authority exactly once, by score descending and, among equal scores, by identifier descending, so that every node derives the same order.',
     ['inputs', 'histories'], 'every sequence of score updates and every committee',
     'tests only round-trip the serialized form of a table',
     [T + 'primary/reputation.rs'],
     [('ReputationScores::{new,add_score,all_zero,authorities_by_score_desc}', T + 'primary/reputation.rs')])

prop('C10', 'Waiters for a key get its next publication, and the waiter count balances',
     'Everyone registered for a key at the moment its value is published receives that value, and nobody registered for another key is disturbed. '
     'Cancelling a registration removes only waiters that have gone away, never a live one, and leaves nothing behind. '
     'The count of pending waiters rises by one per registration and falls by one per waiter that is notified or cancelled, whatever the interleaving.',
     ['schedules', 'histories'], 'every interleaving of register, publish and cancel on any number of keys',
     'the single test runs one fixed sequential schedule',
     ['crates/tn-utils/src/notify_read.rs'],
     [('NotifyRead::{notify,register_one,register_all,cleanup,pending}', 'crates/tn-utils/src/notify_read.rs'),
      ('Registration poll and drop', 'crates/tn-utils/src/notify_read.rs')],
     state=[('pending', 'per-shard waiters by key', 'crates/tn-utils/src/notify_read.rs'), ('count_pending', 'number of waiters', 'crates/tn-utils/src/notify_read.rs')])

prop('C11', 'Shutdown and cancel signals are never lost',
     'After a signal is raised every subscriber that existed at that moment resolves, including one that is polled concurrently with the signal, and no subscriber is woken before its flag is set. '
     'A shutdown signal is sticky: whoever subscribes later resolves at once, with no window in which a subscriber is neither recorded nor told. '
     'A re-arming signal starts afresh: a later subscriber stays unresolved until the next signal.',
     ['schedules'], 'every interleaving of subscribe, poll and notify',
     'tests run a few sequential schedules and sleep; none interleaves poll or subscribe inside notify',
     [T + 'notifier.rs'],
     [('Notifier::{subscribe,notify}', T + 'notifier.rs'), ('ShutdownNotifier::{subscribe,notify}', T + 'notifier.rs'), ('Noticer::poll_int', T + 'notifier.rs')],
     state=[('Noticer.lock', 'noticed flag and waker under one lock', T + 'notifier.rs'), ('ShutdownNotifier.inner', 'sticky flag and subscribers under one lock', T + 'notifier.rs')])

prop('C12', 'Channel wrappers never end early, lose an error, or confuse closed with empty',
     'A broadcast receiver that falls behind keeps receiving, and only a closed channel ends the stream. '
     'Sending on a broadcast channel with no listeners is not an error, while sending on a closed or full queue reports exactly that and hands the value back. '
     'Non-blocking receives report empty, disconnected and lagged as themselves.',
     ['schedules', 'histories'], 'every interleaving of senders, receivers and drops',
     'tests lag one receiver once',
     [T + 'sync.rs'],
     [('TnReceiver for broadcast::Receiver and mpsc::Receiver', T + 'sync.rs'), ('TnSender for broadcast::Sender and mpsc::Sender', T + 'sync.rs'), ('From conversions of channel errors', T + 'sync.rs')])

prop('C13', 'Port reservations are never handed out twice by one process',
     'A port returned to a caller has been recorded as taken under one lock together with the test that it was free, on every path, so no two callers ever get the same port. '
     'Reservations for a numbered slot come only from the window of that slot, windows of different slots are disjoint and inside the reserved band, and an exhausted window or an out-of-range slot falls back to a system-assigned port.',
     ['schedules', 'inputs'], 'every number of concurrent callers and every slot number',
     'tests call the windowed path once per slot and never race two callers',
     [T + 'helpers.rs'],
     [('claim, reserve_windowed_port, reserve_ephemeral_port, slot_window, slot_fits_band', T + 'helpers.rs')])

prop('C14', 'Advertised endpoints are bounded and of the right scheme',
     'An endpoint record is valid only if each URL it carries is within the length limit and has a scheme appropriate to its field (web for the required one, web-socket for the optional one); the optional URL is checked whenever it is present.',
     ['inputs'], 'every endpoint record a peer can advertise',
     'tests reject one oversized URL and one wrong scheme',
     [T + 'committee.rs'], [('RpcInfo::validate', T + 'committee.rs')])

# ---------------------------------------------------------------- storage
prop('C15', 'Buffered files read back exactly what was written, across the flush boundary',
     'At every moment the logical length of a file equals what is on disk plus what is buffered, and a read at any position returns the bytes that were appended there, whether they are on disk, in the buffer or straddle both. '
     'Truncation, renaming and reopening preserve that, and a read-only file refuses every change. '
     'Closing a writable file flushes what is buffered and then forces it to disk.',
     ['histories', 'inputs'], 'every sequence of appends, seeks, reads, flushes, truncations and reopenings',
     'tests read one empty buffer and otherwise go through the pack with default buffering',
     [A + 'data_file.rs'],
     [('DataFile Write/Read/Seek/Drop, set_len, sync_all, rename', A + 'data_file.rs')],
     state=[('write_buffer', 'appended, not yet written bytes', A + 'data_file.rs'), ('data_file_end', 'bytes on disk', A + 'data_file.rs')])

prop('C16', 'A damaged record is never returned as data',
     'Every record handed out by a fetch, a scan, or an asynchronous scan has passed a checksum over its length prefix and payload, and the checksum is verified before the payload is decompressed or decoded. '
     'Checksums cover every byte before them, data shorter than a checksum never verifies, and the writer appends the checksum the reader expects. '
     'The same holds for the headers and buckets of the index files.',
     ['inputs', 'fault_sequences'], 'every byte string found on disk, at every record, header and bucket',
     'tests flip bytes in one or two fixed places of a fixed layout',
     [A + 'crc.rs', A + 'pack.rs', A + 'pack_iter.rs', A + 'digest_index/index.rs', A + 'digest_index/odx_header.rs', A + 'position_index/index.rs'],
     [('check_crc/add_crc32', A + 'crc.rs'), ('read_record / iterators', A + 'pack.rs, pack_iter.rs'), ('bucket and header reads', A + 'digest_index/index.rs')])

prop('C17', 'Record lengths taken from disk or peers are bounded before memory is committed',
     'A length read from a file or stream is checked against the record size limit before any buffer of that size is reserved, and decompression is capped by the same limit and by a bounded window, in the random-access reader and in both scanning readers alike. '
     'A range read outside the file is refused before it is attempted, and no record can be stored that the readers would refuse for its size.',
     ['inputs', 'fault_sequences'], 'every length field and every compressed frame, on every read path',
     'tests feed one bomb per reader and no boundary values; the write side is never tried above the limit',
     [A + 'pack.rs', A + 'pack_iter.rs'],
     [('MAX_RECORD_SIZE checks, decompress limits', A + 'pack.rs'), ('PackIter/AsyncPackIter', A + 'pack_iter.rs'), ('read_bytes', A + 'pack.rs')])

prop('C18', 'After a failed append a pack refuses further appends and commits',
     'Once an append has failed part-way the pack remembers the first cause and every later append or commit fails with that cause, so no record is ever appended after a torn one and a torn tail is never declared durable. '
     'Read-only packs refuse appends and commits without touching the file.',
     ['fault_sequences', 'histories'], 'every write failure at every point of every sequence of operations',
     'one test injects one failure and makes one follow-up call',
     [A + 'pack.rs', S + 'error_latch.rs'],
     [('Pack::append / commit, failed latch', A + 'pack.rs'), ('ErrorLatch keeps the first error', S + 'error_latch.rs')])

prop('C19', 'A successful commit or sync means the bytes were flushed and forced to disk',
     'Committing a pack, or syncing a position or digest index, reports success only after every buffered byte, dirty bucket and updated header was written out and then every file involved was forced to stable storage, in that order; any failure on the way is reported. '
     'The in-memory dirty marker is cleared only after that succeeded.',
     ['crash_points', 'fault_sequences'], 'every crash point after a successful return and every input/output failure before it',
     'no test crashes or fails a write; a missing sync is invisible while the process lives',
     [A + 'pack.rs', A + 'data_file.rs', A + 'position_index/index.rs', A + 'digest_index/index.rs'],
     [('Pack::commit', A + 'pack.rs'), ('DataFile::sync_all/flush', A + 'data_file.rs'), ('PositionIndex::sync', A + 'position_index/index.rs'), ('HdxIndex::sync', A + 'digest_index/index.rs')])

prop('C20', 'Files of another kind, version, application or store are refused on open',
     'Opening an existing data or index file verifies the header checksum, the file type, the store identity, the version and the application or hashing parameters before anything is read or appended; a mismatch is an error and leaves the file untouched. '
     'Header fields are written and read at the same offsets.',
     ['inputs', 'configurations'], 'every existing file handed to open, in every mode',
     'tests corrupt the geometry of one index; most header fields are never altered',
     [A + 'pack.rs', A + 'position_index/index.rs', A + 'digest_index/index.rs', A + 'digest_index/odx_header.rs'],
     [('DataHeader load/write, Pack::open', A + 'pack.rs'), ('PdxHeader', A + 'position_index/index.rs'), ('HdxHeader / OdxHeader', A + 'digest_index')])

prop('C21', 'The position index is dense and never trusts a torn entry',
     'The index accepts an entry only for the next free slot, returns an entry only for a slot below its length, and returns exactly the position stored there. '
     'A partial last entry left by a crash is cut off when the index is opened for writing and refused when opened read-only, and truncating to a slot never grows the index.',
     ['histories', 'crash_points'], 'every sequence of saves, loads, truncations and reopenings, every torn tail length',
     'tests append in order and tear one tail at one length',
     [A + 'position_index/index.rs'],
     [('PositionIndex::{save,load,truncate_to_index,open}', A + 'position_index/index.rs')])

prop('C22', 'The digest index finds every stored digest and never another',
     'A digest that was saved is found with the position it was saved with until the index is removed, across bucket splits, overflow chains, cache eviction and reopening, and a digest that was not saved is never reported. '
     'A bucket taken out of the cache to be changed is put back even when the change fails, every chain of overflow buckets leads strictly backwards so a lookup always ends, and the bucket chosen for a digest is the same on save and load.',
     ['histories', 'inputs', 'fault_sequences'], 'every sequence of saves and loads, every hash distribution, every read or write failure',
     'tests insert sequential digests and never fail a read or write',
     [A + 'digest_index/index.rs', A + 'digest_index/bucket_iter.rs', A + 'digest_index/bloom.rs'],
     [('save/load/expand_buckets/split_one_bucket/save_to_bucket', A + 'digest_index/index.rs'), ('overflow chain iteration', A + 'digest_index/bucket_iter.rs'), ('bloom accrue before save', A + 'digest_index/bloom.rs')])

prop('C23', 'An execution-state snapshot is accepted only complete and for its own header',
     'A snapshot is written only for a non-empty header chain whose anchoring block carries the snapshot state root, and its end marker is committed last. '
     'A reader yields nothing after the end marker and reports an error if it is missing, a header count is plausible before memory is reserved for it, and storage chunks never exceed their bound on either side. '
     'Verification succeeds only if block number, block hash, state root and account count all match and every storage chunk follows its account.',
     ['inputs', 'crash_points'], 'every snapshot file, complete, truncated, extended or forged, and every write history',
     'tests use one small snapshot and a few forged headers',
     [S + 'exec_state_pack.rs'],
     [('ExecStatePackWriter::{create,...,finish}', S + 'exec_state_pack.rs'), ('ExecStatePackReader', S + 'exec_state_pack.rs'), ('verify', S + 'exec_state_pack.rs')])

prop('C24', 'Database operations are committed when they report success; scans are in order',
     'A single-shot insert, remove or clear on the embedded database returns success only after its transaction was committed, and a failed commit is reported; operations in a transaction touch only the named table. '
     'Lookups, membership tests and multi-lookups agree on one snapshot; forward, backward, from-key and before-key iteration visit the same records in key order with nothing skipped or repeated at the boundary.',
     ['histories', 'fault_sequences', 'inputs'], 'every table, key set and operation sequence, every storage failure',
     'tests use dense small integer keys and no failing storage',
     [S + 'redb/database.rs', S + 'redb/wraps.rs', T + 'database_traits.rs'],
     [('ReDB Database impl', S + 'redb/database.rs'), ('DbTx/DbTxMut for ReDbTx/ReDbTxMut', S + 'redb/database.rs'), ('default methods', T + 'database_traits.rs')])

# ---------------------------------------------------------------- config, metrics, gateway, gas
prop('C25', 'Gossip topics never cross chains and the configured limits reach the network',
     'Every gossip topic name contains the chain identifier and differs for different purposes, so messages of one chain or purpose are never delivered to another; the same holds for the names of the wire protocols that peers negotiate. '
     'A message is accepted only on the topic its kind is published on. The chain identifier is never taken from or written to the persisted configuration. '
     'Peer-count limits derived from the configured target are ordered: ordinary peers are at most the total, and the priority allowance only adds to it. The configured connection, discovery and message-size settings are the ones the network layer applies.',
     ['configurations'], 'every chain identifier and every persisted configuration',
     'tests check two chain identifiers and default values',
     ['crates/config/src/network.rs'],
     [('topic constructors', 'crates/config/src/network.rs LibP2pConfig'), ('chain_id serde(skip)', 'crates/config/src/network.rs'), ('PeerConfig derived limits', 'crates/config/src/network.rs')])

prop('C26', 'Invalid peer-scoring parameters are rejected',
     'A scoring configuration validates only if every threshold and bound that is compared with scores is a finite number, the minimum does not exceed the maximum, and the half-life is strictly positive; every numeric field that takes part in a comparison is checked.',
     ['configurations'], 'every value of every field, including infinities and not-a-number',
     'tests try one not-a-number per field and a few orderings',
     ['crates/config/src/network.rs'], [('ScoreConfig::validate', 'crates/config/src/network.rs')])

prop('C27', 'Loading configuration never overwrites or silently replaces an existing file',
     'Loading with a default writes the default only when the file does not exist; a file that exists but cannot be read or parsed is an error and stays as it is. '
     'What is written is the serialized value in the requested format and nothing else, replacing any longer previous content, and it is read back in the same format.',
     ['configurations', 'fault_sequences'], 'every existing file content and every input/output failure',
     'no test loads a malformed file with a default',
     ['crates/config/src/traits.rs'], [('ConfigTrait::{load_from_path,load_from_path_or_default,store_path}', 'crates/config/src/traits.rs')])

prop('C28', 'Retry policies keep their configured bounds',
     'The back-off derived from a retry configuration carries exactly the configured initial interval, multiplier, randomization, interval cap and total time limit, so retries stop when the total limit is configured and go on for ever only when it is absent. '
     'Permanent errors end the retry at once and the last error is handed to the caller.',
     ['configurations', 'fault_sequences'], 'every retry configuration and every sequence of failures',
     'no test covers the mapping',
     ['crates/config/src/retry.rs'], [('RetryConfig -> ExponentialBackoff, retry()', 'crates/config/src/retry.rs')])

prop('C29', 'Metric names are rewritten consistently and nothing else changes',
     'Every metric whose name is not in the native namespaces gets the execution prefix exactly once, whichever kind of metric it is and whether it is described or registered, and native names pass through unchanged. '
     'Labels, units, descriptions and metadata are preserved, so a described metric and its registered series always share one name.',
     ['inputs'], 'every metric name, label set and kind',
     'the test registers a few counters',
     ['crates/tn-metrics/src/recorder.rs'], [('selective prefix Recorder impl', 'crates/tn-metrics/src/recorder.rs')])

prop('C30', 'The temporary-ban cache is bounded, expires on time, and its two views agree',
     'A peer is reported banned exactly from insertion until its expiry, eviction or explicit removal; re-inserting a banned peer restarts its time and evicts nobody. '
     'The number of entries never exceeds the configured cap (at least one), the entry evicted on overflow is the oldest, and every evicted or expired peer is reported to the caller exactly once. '
     'The membership view and the expiry order always hold the same peers.',
     ['histories', 'inputs'], 'every sequence of insert, re-insert, remove and expiry at every cap',
     'tests run short sequences with fixed durations',
     ['crates/network-libp2p/src/peers/cache.rs'], [('BannedPeerCache::{insert,remove,heartbeat,contains}', 'crates/network-libp2p/src/peers/cache.rs')],
     state=[('map and list', 'membership and expiry order', 'crates/network-libp2p/src/peers/cache.rs')])

prop('C31', 'The unused-gas penalty follows its formula and never exceeds the unused gas',
     'No penalty is charged at or below the minimum limit or at or above the ten-percent usage threshold; otherwise the penalty is the squared shortfall from that threshold applied to the unused gas. '
     'For every gas limit and gas used the computation neither overflows, nor divides by zero, nor charges more than the unused gas.',
     ['inputs'], 'all pairs of 64-bit gas limits and gas used',
     'tests evaluate a dozen pairs',
     ['crates/tn-reth/src/evm/utils.rs'], [('calculate_gas_penalty', 'crates/tn-reth/src/evm/utils.rs')])

prop('C32', 'Every gateway rejection has its own stable code and echoes the request id',
     'Each kind of rejection maps to exactly one status, error code and metric label, codes of different kinds are distinct, and every response built for a rejection is counted once and carries the id it was given. '
     'The id recovered from a body is the last top-level id of a single well-formed request object, as it was written, and null for batches, malformed bodies, bodies with trailing bytes and requests without one.',
     ['inputs'], 'every rejection kind and every request body',
     'tests try a dozen bodies and compare a table of constants',
     ['bin/worker-gateway/src/error.rs'], [('GatewayError mappings, error_response', 'bin/worker-gateway/src/error.rs'), ('RequestId::recover', 'bin/worker-gateway/src/error.rs')])

prop('C33', 'Gateway gauges return to zero and its configuration fails loudly',
     'Every gauge incremented when a request or connection starts is decremented exactly once when it ends, on every exit including cancellation. '
     'A missing, unreadable or malformed gateway configuration is an error at start and is never replaced by defaults.',
     ['histories', 'configurations'], 'every way a request can end and every configuration file',
     'tests load one good and one missing file',
     ['bin/worker-gateway/src/telemetry.rs', 'bin/worker-gateway/src/config.rs'],
     [('gauge guard Drop', 'bin/worker-gateway/src/telemetry.rs'), ('GatewayConfig::load', 'bin/worker-gateway/src/config.rs')])

# ---------------------------------------------------------------- consensus
C = 'crates/consensus/primary/src/'
prop('C40', 'A certificate is trusted only with a quorum of signatures over its own header',
     'A certificate received from outside becomes verified only if it is of the expected epoch, its header is valid, its signers are members of the committee whose power reaches a quorum, and the aggregate signature verifies over exactly the digest of its own header. '
     'Whatever verification state a remote certificate claims is discarded before it is checked, and a certificate that fails is never stored or counted.',
     ['inputs', 'histories'], 'every certificate a peer can send, alone or in a batch',
     'tests use honestly built certificates and a few broken ones',
     [T + 'primary/certificate.rs', C + 'certificate_fetcher.rs', C + 'state_sync/cert_validator.rs'],
     [('Certificate::verify, validate_received, set_signature_verification_state', T + 'primary/certificate.rs'), ('certificate validator', C + 'state_sync')])

prop('C41', 'A header is accepted only if well-formed for the epoch and committee',
     'A header passes validation only if its epoch is that of the committee, its author is a member, it names no more parents than the committee has members and no more batches than the protocol permits, and its payload refers only to known workers; a header with all of these passes. '
     'The digest of a header is always computed from its encoding, never taken from outside, and the encoding covers every field and decodes to the same fields.',
     ['inputs'], 'every header a peer can propose',
     'tests alter single fields of honest headers',
     [T + 'primary/header.rs'], [('Header::validate, digest', T + 'primary/header.rs')])

prop('C42', 'A validator never votes for two different headers of one author and round',
     'A vote leaves the node only after it was recorded and that record forced to durable storage; for an author and round already voted on, only the identical vote is repeated and any other header is refused, also after a restart. '
     'Votes are given only to authenticated authors for their own headers, of the current epoch, with verified parents and available payload.',
     ['schedules', 'crash_points', 'histories'], 'every interleaving of vote requests and every crash point',
     'tests request a few votes sequentially with no crash',
     [C + 'network/handler.rs', S + 'stores'], [('vote handler', C + 'network/handler.rs'), ('vote digest store, persist barrier', S + 'stores/vote_digest_store.rs')])

prop('C43', 'Votes count once per member, for the current header only',
     'A certificate is formed only from votes whose header digest, round, epoch and origin match the proposed header, each with a verified signature, counting each member once, and only when their power reaches a quorum.',
     ['inputs', 'histories'], 'every sequence of votes, honest, duplicate or forged',
     'tests feed one vote per member',
     [C + 'aggregators/votes.rs', T + 'primary/vote.rs'], [('VotesAggregator::append', C + 'aggregators/votes.rs')])

prop('C44', 'Nothing the protocol depends on is announced before it is durable',
     'A proposed header, a vote and a certificate of ours are made visible to peers only after the record that prevents contradicting them after a restart has been written and forced to storage; if that fails they are withheld.',
     ['crash_points'], 'every crash point between recording and sending',
     'no test crashes between the two',
     [C + 'proposer.rs', C + 'certifier.rs', C + 'network/handler.rs'], [('persist barrier before externalization', 'crates/types/src/database_traits.rs Database::persist')])

prop('C45', 'Certificates enter the graph only after all their parents',
     'A verified certificate is passed on to consensus only when each of its parents is stored, is part of genesis (first round), or is at or below the collected round; otherwise it waits, noted under every missing parent. '
     'It is released when, and only when, no missing parent is left or its parents are collected, after those parents and together with everything that its own release unlocks; a certificate is stored before it is passed on, and only the certificate manager passes certificates on.',
     ['histories', 'inputs'], 'every arrival order of certificates',
     'tests deliver a few permutations',
     [C + 'state_sync/cert_manager.rs', C + 'state_sync/pending_cert_manager.rs'], [('CertificateManager, PendingCertificateManager', C + 'state_sync')])

prop('C46', 'A leader commits only with validity-threshold support and each certificate once',
     'A leader is committed only if certificates of the following round with at least the validity threshold of power link to it; earlier leaders are committed only when linked from the later one, in round order. '
     'The committed sequence contains every certificate at most once and none at or below the already committed or collected rounds, in a deterministic order.',
     ['histories', 'inputs'], 'every certificate graph and arrival order',
     'tests run a few synthetic graphs',
     [C + 'consensus/bullshark.rs', C + 'consensus/utils.rs', C + 'consensus/state.rs'],
     [('Bullshark::process_certificate', C + 'consensus/bullshark.rs'), ('order_dag, order_leaders', C + 'consensus/utils.rs')])

prop('C47', 'Epoch records are trusted only as a chain certified by the right committee',
     'An epoch record obtained from outside is accepted only if it follows the record before it, names the committee that record handed over to, and carries a certificate by a quorum of that committee over its own digest.',
     ['inputs', 'histories'], 'every epoch record and certificate a peer can send',
     'tests verify honest records',
     [T + 'primary/epoch.rs', 'crates/state-sync/src'], [('EpochRecord::verify_with_cert', T + 'primary/epoch.rs')])

prop('C48', 'Batches are valid only within protocol limits and for their own worker',
     'A sealed batch is accepted only if its digest matches its content and it respects the worker, epoch, size and gas limits of the protocol; a batch that fails any check is neither stored nor acknowledged. '
     'A batch is reported as reaching quorum only after acknowledgements of a quorum of the committee.',
     ['inputs', 'histories'], 'every batch a peer can send and every acknowledgement history',
     'tests check a handful of invalid batches',
     ['crates/batch-validator/src/validator.rs', 'crates/consensus/worker/src/quorum_waiter.rs', T + 'worker/sealed_batch.rs'],
     [('BatchValidator::validate_batch', 'crates/batch-validator/src/validator.rs'), ('QuorumWaiter', 'crates/consensus/worker/src/quorum_waiter.rs')])

prop('C49', 'A failing critical task stops the node; a finished epoch stops its tasks',
     'When a critical task ends or panics the supervisor reports it and initiates shutdown; a non-critical task never does. '
     'Ending a supervisor tells every task it owns to stop and waits for them up to the limit, then aborts the rest.',
     ['schedules', 'fault_sequences'], 'every order of task exits and panics',
     'tests let one or two tasks end',
     [T + 'task_manager.rs'], [('TaskManager::join, TaskHandle', T + 'task_manager.rs')])

prop('C50', 'Peer messages are decoded only within their size limits',
     'A request or response read from a peer is bounded by the configured limits for its compressed and uncompressed length before memory is reserved, an oversized or undecodable message is an error, and an outgoing message beyond the limit is refused before it is sent.',
     ['inputs'], 'every byte stream a peer can send',
     'tests send a few oversized messages',
     ['crates/network-libp2p/src/codec.rs'], [('TNCodec encode/decode', 'crates/network-libp2p/src/codec.rs')])

prop('C51', 'Consensus results are executed only after being stored, in order, once',
     'A committed output is handed to execution only after it was saved to the consensus chain; a gossiped consensus result is followed only when announced by a sufficient part of the committee with valid signatures, each counted once.',
     ['histories', 'crash_points', 'inputs'], 'every sequence of outputs and gossip and every crash point',
     'tests follow one honest stream',
     ['crates/consensus/executor/src', 'crates/state-sync/src', C + 'network/mod.rs'], [('Subscriber', 'crates/consensus/executor/src/subscriber.rs'), ('gossip tally', C + 'network')])

if __name__ == '__main__':
    ids = [p['id'] for p in P]
    assert len(ids) == len(set(ids))
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')

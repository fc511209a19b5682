p('C01', 'Persisted records decode to exactly what was encoded',
  "Every fixed-layout record the store writes (index block, time-window block, entry header, database info header, free-space list, write-ahead log header) decodes, from the bytes it was encoded to, into a record equal to the original in every field. The encoding has the fixed size its readers rely on, whatever the field values.",
  ['inputs'], 'all field values of every record type (for index blocks: blocks whose entries belong to the block; for free lists: every list length)',
  'Round trips of a few records cannot show that no field overlaps, truncates or sign-flips for some value.',
  ['block.go', 'time_window.go', 'entry.go', 'db_info.go', 'leasing.go', 'wal/header.go'],
  [('index block codec', 'block.go _IndexBlock.marshalBinary/unmarshalBinary'), ('window block codec', 'time_window.go _WinBlock.marshalBinary/unmarshalBinary'), ('entry header codec', 'entry.go _Entry.MarshalBinary/UnmarshalBinary'), ('info header codec', 'db_info.go'), ('free list codec', 'leasing.go _FreeBlocks.MarshalBinary/UnmarshalBinary'), ('log header codec', 'wal/header.go')],
  level='proof', note='All codecs proved for all field values; the free-list codec by a loop invariant for lists of any length.')
p('C02', 'Sequence numbers address unique, non-overlapping index and window blocks',
  "Sequence numbers map to index blocks of 255 consecutive sequences each in increasing order starting at block 0 for sequence 1, and an index or window block number maps to the file range [4096*n, 4096*(n+1)). Distinct blocks therefore never overlap on disk and no sequence number the file format can hold (up to 255*2^31) is mapped by a rounded or wrapped computation.",
  ['inputs'], 'all sequence numbers 1..255*2^31 and all block numbers 0..2^31-1',
  'Rounding and 32-bit overflow appear only for sequence numbers no test reaches.',
  ['block.go', 'time_window.go', 'time_window_writer.go', 'block_writer.go'],
  [('sequence to block', 'block.go blockIndex'), ('block to offset', 'block.go blockOffset, time_window.go winBlockOffset'), ('contiguous ranges', 'block_writer.go blockRange')],
  level='proof', note='Address arithmetic proved for the whole domain.')
p('C03', 'The message index returns every stored entry and nothing else',
  "After any sequence of appends, deletes and writes of index entries, reading a stored, undeleted sequence number returns the sizes, data location and payload bytes it was stored with; appending an already stored sequence number is refused without changing the index. A sequence number never stored, or deleted, is never returned, and no operation on one sequence number alters what another one returns, also after the index files are reopened.",
  ['histories', 'inputs'], 'all index block contents and all append/delete/write histories over any set of sequence numbers, in order or not, spanning blocks',
  'Order of appends, block boundaries and reopened partial blocks multiply beyond any test list.',
  ['block_writer.go', 'block_reader.go', 'block.go'],
  [('append', 'block_writer.go _BlockWriter.append'), ('write', 'block_writer.go _BlockWriter.write, blockRange'), ('delete', 'block_writer.go _BlockWriter.del'), ('read', 'block_reader.go readEntry, readMessage, readTopic')],
  level='other', note='append/read/del proved per call on arbitrary block contents; multi-block histories through real files are bounded executions.')
p('C04', 'A topic window returns exactly its own entries, newest first',
  "Looking up a topic returns the unexpired sequence numbers added for that topic hash and none of another topic, at most the requested number, and the most recent ones when there are more. This holds while entries are in memory, after they are written to window blocks (including when a topic fills several blocks), and after reopening.",
  ['histories'], 'all histories of adds, syncs and lookups over several topics and any number of entries per topic',
  'Chains over several blocks need hundreds of entries per topic interleaved across syncs; tests write a few.',
  ['time_window.go', 'time_window_writer.go', 'time_window_reader.go', 'db_sync.go'],
  [('append', 'time_window_writer.go append, write'), ('lookup', 'time_window.go lookup, ilookup'), ('iterate', 'time_window_reader.go blockIterator')],
  level='other')
p('C05', 'Freed space is reused at most once and only where it was freed',
  "The space allocator hands out only byte ranges that were freed before, each at most once until freed again: at every moment the ranges still free and the ranges handed out are pairwise disjoint and lie inside freed ranges, and the recorded free size equals the sum of the free ranges. Freeing an unmerged listed range again has no effect, defragmentation and saving and reloading the list preserve the set of free bytes, and nothing is handed out while less than the configured minimum is free.",
  ['histories', 'inputs'], 'all histories of free, allocate, defragment, save and load over arbitrary ranges',
  'Overlaps appear only after particular mixes of merges, splits and reloads.',
  ['leasing.go'],
  [('free', 'leasing.go freeBlock'), ('allocate', 'leasing.go allocate, search'), ('merge', 'leasing.go defrag'), ('persist', 'leasing.go read, write')],
  level='proof', note='free, allocate and defrag proved for lists of every length (defrag by a loop invariant); saving and reloading through a real file, over whole histories, is a bounded execution.')
p('C06', 'The presence filter never denies a key that was added',
  "After a key was added to a filter, testing that key reports present, whatever other keys were added before or after it. This also holds for the filter rebuilt from its serialized bytes.",
  ['inputs', 'histories'], 'all keys, all filter seeds and all histories of additions',
  'A false negative depends on the random seed keys and on particular bit positions.',
  ['filter/bloom.go', 'filter/filter.go'],
  [('add/test', 'filter/bloom.go Add, Test'), ('serialize', 'filter/bloom.go Bytes, newFilterFromBytes')],
  level='proof', note='Add/Test proved for every filter state; the serialized round trip (reflection-based encoding/binary) is a bounded execution.')
p('C07', 'Topic queries match exactly the stored topics the wildcard rules say',
  "A query for a static topic reaches exactly the messages stored under that same topic, under a wildcard topic in which each '*' stands for exactly one level, or under a topic ending in '...' that stands for all sub-topics of the part before it ('...' alone for every topic). A query for a wildcard topic reaches the messages stored under that topic, messages stored under one contract are never reached from another, and a topic without any level or with more than 100 levels is refused.",
  ['inputs'], 'all topic strings and stored topic sets up to collisions of the 32-bit hash of a level, all contracts',
  'Matching depends on level counts, wildcard positions and hash-sensitive parsing, whose combinations tests do not enumerate.',
  ['message/topic.go', 'trie.go', 'hash/hash.go'],
  [('parse', 'message/topic.go parseWildcardTopic, parseStaticTopic, ParseKey'), ('encode', 'message/topic.go Marshal, Unmarshal'), ('match', 'trie.go add, lookup, ilookup')],
  level='other')
p('C08', 'Message IDs carry their sequence, contract and time, and only match their own',
  "A message ID is 16 bytes from which exactly its sequence number, contract and creation second can be read back, and setting the contract changes nothing else. The ID and its stored 8-byte prefix match a contract and cutoff time exactly when the contract is its own and its time is not before the cutoff.",
  ['inputs'], 'all sequence numbers, contracts, times and cutoffs',
  'Field overlap or a wrong comparison shows only for particular values.',
  ['message/id.go', 'uid/uid.go'],
  [('layout', 'message/id.go NewID, SetContract, Sequence, Prefix'), ('match', 'message/id.go EvalPrefix'), ('time', 'uid/uid.go NewApoch, Time')],
  level='proof', note='All accessors proved for all values.')
p('C09', 'Encryption round-trips, rejects tampering and leaves its inputs alone',
  "Decrypting what was encrypted under the same 32-byte key returns exactly the original bytes for every payload length from zero up; with a different key or any changed byte it returns an error instead of data. Neither operation changes the caller's source bytes nor panics.",
  ['inputs'], 'all payload lengths and contents, all keys, all single-byte modifications of the ciphertext',
  'Slicing mistakes show only at particular lengths; in-place damage only when the source is reused.',
  ['crypto/mac.go', 'server/internal/pkg/crypto/mac.go'], [('encrypt', 'crypto/mac.go Encrypt'), ('decrypt', 'crypto/mac.go Decrypt'), ('server copy', 'server/internal/pkg/crypto/mac.go Encrypt, Decrypt')],
  level='proof', note='Framing proved for all lengths against the assumed AEAD contract; tamper rejection on the real cipher is a bounded execution.')
p('C10', 'Every stored message is returned byte for byte',
  "A message accepted by Put, PutEntry or a committed Batch is returned by a Get on its topic and contract with exactly the payload stored, from memory, after Sync, and after Close and reopen. This holds for every payload, topic options, contract, and per-message, per-batch or database encryption setting.",
  ['inputs', 'histories', 'configurations'], 'all payloads and topics, put/sync/reopen histories and encryption configurations',
  'Payload framing, sync and reload paths interact; tests use a handful of small payloads.',
  ['db.go', 'db_internal.go', 'db_sync.go', 'db_info.go'],
  [('frame', 'db_internal.go setEntry'), ('read', 'db.go Get, db_internal.go readEntry'), ('sync', 'db_sync.go Sync'), ('reload', 'db_internal.go loadTrie')],
  level='other')
p('C11', 'Queries return at most the limit, newest first',
  "Get returns at most the query's limit (the default limit when none is given, never more than the configured maximum; a '?last=N' limit counts when it is the larger one) and returns the messages of a topic put one after another in order of decreasing sequence number. When more match than the limit allows, the returned ones are the most recently stored, also when some of the newest are deleted or expired.",
  ['inputs', 'histories'], 'all limits, option strings and stored histories',
  'Off-by-one in limits needs matching counts around the limit across memory and disk.',
  ['query.go', 'db.go', 'db_internal.go', 'time_window.go'],
  [('limits', 'query.go parse, WithLast'), ('collect', 'db_internal.go lookup'), ('order', 'db.go Get')],
  level='other')
p('C12', 'Expired messages are not returned and unexpired ones are',
  "An entry with an expiry time is returned by queries strictly before that time and never at or after it; an entry without an expiry never expires. A time-to-live given as seconds or as a duration string, on the entry or as topic option, yields the expiry now plus that duration.",
  ['inputs', 'histories'], 'all expiry times, clocks, time-to-live strings and number formats',
  'Boundaries are wall-clock dependent; unit tests sleep through one case.',
  ['time_window.go', 'expiry_window.go', 'entry.go', 'message/topic.go'],
  [('decide', 'time_window.go isExpired, lookup'), ('ttl', 'entry.go WithTTL, message/topic.go TTL'), ('expirer', 'expiry_window.go addExpiry, getExpiredEntries')],
  level='other')
p('C13', 'A deleted message is gone and only it',
  "On a mutable database, after Delete of a stored message's ID, queries no longer return it, before and after Sync and reopen, while every other message remains; on an immutable database Delete is refused and nothing changes. Deleting an ID that is not stored changes neither the count nor the free space.",
  ['histories'], 'all interleavings of put, sync, delete and reopen over several messages',
  'Deletion passes through memory, log, index and free list; each order of sync and delete takes another path.',
  ['db.go', 'db_internal.go', 'block_writer.go', 'memdb/db.go'],
  [('delete', 'db_internal.go delete, block_writer.go del'), ('guard', 'db.go DeleteEntry')],
  level='other')
p('C14', 'Invalid requests are refused before they change anything',
  "Put, PutEntry, Delete, DeleteEntry, the batch forms and Get reject an empty topic, a topic above 65536 bytes, an empty payload, and a missing or malformed ID with the documented error, and every put, delete, query and batch operation on a closed database returns an error. A refused request assigns no sequence number, and changes no stored data or count.",
  ['inputs'], 'all topics, payloads and IDs at and around the documented bounds',
  'Guards must hold at every entry point and every boundary length.',
  ['db.go', 'batch.go', 'errors.go'],
  [('guards', 'db.go PutEntry, DeleteEntry, Get; batch.go PutEntry, DeleteEntry')],
  level='proof')
p('C15', 'Batches apply entirely on commit and not at all on abort',
  "After DB.Batch returns nil every entry put into the batch is readable with its payload and every message the batch deleted is gone; when the batch function returns an error, Batch returns that error, none of its entries is readable afterwards and nothing it deleted is gone, also after sync and reopen. Entries of different batches never mix payloads or topics.",
  ['histories', 'programs'], 'all batch functions: any number of puts, writes and errors at any point, several batches in turn',
  'Abort at every point of every batch program is not enumerable by example.',
  ['batch.go', 'db.go', 'memdb/batch.go'],
  [('buffer', 'batch.go PutEntry, writeInternal'), ('commit', 'batch.go Commit, Write; memdb/batch.go'), ('abort', 'batch.go Abort; db.go Batch')],
  level='other')
p('C16', 'The in-memory store behaves as a map of keys to values',
  "Between Put and Delete of a key, Get and Lookup return the last value put for that key, and for keys stored once at a time Keys lists each once and Size counts it; after Delete they do not. Operations on one key never affect another, whichever time block the keys fall in, and keys put once are found again after closing and reopening exactly when they were not deleted.",
  ['histories'], 'all histories of put, get, delete and batch over any keys and time blocks',
  'Keys hash into shards and time blocks; collisions and ordering need many combinations.',
  ['memdb/db.go', 'memdb/block.go', 'memdb/db_internal.go'],
  [('block', 'memdb/block.go put, get, delete'), ('store', 'memdb/db.go Put, Get, Lookup, Delete, Keys, Size'), ('keys', 'memdb/block.go iKey')],
  level='other')
p('C17', 'The write-ahead log returns exactly the records appended and not yet released',
  "A log written with records r1..rn is read back after reopening as exactly r1..rn, byte for byte and in order, under its own time ID, until it is released; released logs are never read again. Logs are replayed in the order they were written. A log file that is truncated, extended, or whose header or record lengths no longer fit it yields no record and no crash, and the other logs are unaffected.",
  ['histories', 'inputs', 'fault_sequences'], 'all record lists and sizes, all orders of write, release and reopen, truncations and corruptions of log files',
  'Framing lengths and recovery order vary without bound.',
  ['wal/wal.go', 'wal/writer.go', 'wal/reader.go', 'wal/file.go', 'wal/header.go'],
  [('append', 'wal/writer.go append, writeLog'), ('read', 'wal/reader.go Iterator, Next'), ('files', 'wal/file.go put, read, all, del')],
  level='other')
p('C18', 'A crash loses no message the log had committed',
  "After a process crash at any point following the log commit of a message, reopening the database returns that message unless it was deleted, whether or not it had been synced, and no message is returned twice. Sequence numbers handed out after recovery are larger than every recovered one.",
  ['crash_points', 'histories'], 'all crash points between log commit, sync steps and close',
  'Crash points fall between individual file writes.',
  ['recovery.go', 'memdb/recovery.go', 'db_sync.go', 'wal/reader.go'],
  [('log replay', 'memdb/recovery.go startRecovery'), ('sync replay', 'recovery.go startRecovery, recoverLog')],
  level='other')
p('C19', 'Consistent hashing always picks a working block and moves only what it must',
  "For every key the chosen block is one of the blocks currently in use; removing a block moves only the keys that were on it, and adding it back restores the previous assignment. Two instances with the same history of changes agree on every key.",
  ['inputs', 'histories'], 'all keys and all histories of block additions and removals',
  'Quantifies over all 2^64 keys and removal orders.',
  ['hash/consistent.go', 'hash/modulo.go', 'hash/rand.go'],
  [('find', 'hash/consistent.go FindBlock, GetPath'), ('change', 'hash/consistent.go AddBlock, RemoveBlock'), ('scale', 'hash/modulo.go FastMod')],
  level='proof', note='Membership of the chosen block in the working set, the effect of RemoveBlock/AddBlock on every anchor and exact restoration proved for up to 60000 blocks; minimal movement and termination of the search over whole histories are bounded executions.')
p('C20', 'The wire protocol decodes every packet to what was encoded',
  "Every uTP packet (connect, publish, relay, subscribe, unsubscribe, disconnect, ping, and the replies: an acknowledgement of each request, and notify, receive, receipt and complete of a publish) decodes from its encoding into a packet with equal fields, consuming exactly its bytes, for every field value, payload and number of items. A reader given malformed, truncated or unterminated input returns an error, never a crash or a packet made from bytes that were not sent.",
  ['inputs'], 'all packet field values and sizes, all truncated or arbitrary byte inputs',
  'Length and flag encodings break at particular sizes and bit patterns.',
  ['server/utp/message.go', 'server/utp/connect.go', 'server/utp/publish.go', 'server/utp/relay.go', 'server/utp/subscribe.go', 'server/utp/flow_control.go', 'server/internal/net/message.go'],
  [('header', 'server/utp/message.go FixedHeader.pack/unpack, encodeLength, decodeLength'), ('packets', 'server/utp/*.go ToBinary/FromBinary'), ('read', 'server/internal/net/message.go Read')],
  level='proof', note='Proved for every field value and text length, lists of 0 or 3 items, against the assumed contract of package proto; longer lists, malformed and truncated input on the real protobuf library are bounded executions.')
p('C21', 'The stream connection delivers the sent bytes in order whatever the chunk sizes',
  "The bytes read from a stream connection are exactly the bytes written by the peer, in order and without loss, duplication or reordering, however they are split into stream packets and however small or large the reader's buffers are.",
  ['inputs', 'histories'], 'all byte strings, packet boundaries and read buffer sizes',
  'Boundary mismatches between packets and buffers are unbounded.',
  ['server/common/conn.go', 'server/common/encode.go'],
  [('read', 'server/common/conn.go Conn.Read'), ('write', 'server/common/conn.go Conn.Write')],
  level='other')
p('C22', 'Access keys grant exactly the permissions and topics they were made for',
  "The permissions read back from an access key are the low 8 bits they were set to, and setting one field of a key changes no other field. A key issued for a topic validates that topic, a key issued for '...' validates every topic of any depth, and a wildcard target is reported exactly when its topic has a part ending in '*' or is a '...' topic; targets with more than 23 parts are refused. The key's 13-character text parses back to the same key, any other length is refused, and no key text or topic makes parsing or validating crash. On an encrypted connection publishing needs a key with write permission for the topic, and subscribing, relaying and unsubscribing one with read permission.",
  ['inputs'], 'all key bytes, all target texts, all field values',
  'Bit layouts must not overlap for any value; depth and wildcard parsing depend on positions tests do not enumerate.',
  ['server/internal/message/security/key.go', 'server/internal/pkg/encoding/base32.go'],
  [('fields', 'server/internal/message/security/key.go Permissions, SetPermissions, SetTarget'), ('validate', 'key.go ValidateTopic'), ('text', 'key.go EncodeKey, DecodeKey'), ('parse', 'key.go ParseKey')],
  level='proof', note='Proved for all keys and for targets of up to 24 parts; text parsing of arbitrary topic strings is also executed within stated bounds.')
p('C23', 'Subscriptions deliver to each subscriber exactly once while subscribed',
  "A published message is delivered to exactly the connections that hold a live subscription whose topic matches it, once per matching subscription, and to no other. Subscribing again to a topic does not duplicate delivery; a topic subscribed n times ends after n unsubscribes, and ending it, or closing the connection, ends no other subscription. A message identifier handed out to a client is never one handed out before on that connection or resumed from its session, until the identifiers are reset (fewer than 2^31 of them).",
  ['histories'], 'all histories of subscribe, unsubscribe, publish and close over several connections, all message identifier histories',
  'Interleaved subscribe and unsubscribe over shared tree branches.',
  ['server/internal/conn.go', 'server/internal/handler.go', 'server/internal/message/sub.go', 'server/internal/message/messageids.go'],
  [('subscriptions', 'server/internal/conn.go subscribe, unsubscribe, publish; handler.go'), ('counters', 'server/internal/message/sub.go'), ('identifiers', 'server/internal/message/messageids.go')],
  level='other')
p('C24', 'Text encodings of identifiers are exact inverses',
  "8-byte access keys and 32-byte client identifiers encode to text of the URL-safe alphabet that decodes to exactly the bytes encoded, also when decoded in place. A client identifier sealed with the server's MAC decodes to the same identifier, its contract, type and permission fields do not overlap, and text that was not sealed with that MAC is refused with an error, never a crash.",
  ['inputs'], 'all 8- and 32-byte identifiers, all field values, all texts',
  'Group padding and bit positions differ per character; a table or shift mistake shows only for particular bytes.',
  ['server/internal/pkg/encoding/base32.go', 'server/internal/pkg/encoding/base8.go', 'server/internal/pkg/uid/clientid.go'],
  [('base32', 'server/internal/pkg/encoding/base32.go Encode, Decode'), ('client identifier', 'server/internal/pkg/uid/clientid.go Encode, Decode')],
  level='proof', note='Proved for all identifiers against the assumed AEAD contract of the MAC.')
p('C25', 'Concurrent use by many goroutines behaves as some sequential order',
  "Concurrent Put, Get, Delete, Batch and Sync calls on one database behave as if executed one after another, with no lost, duplicated or torn message.",
  ['schedules'], 'all goroutine schedules',
  'Races need particular interleavings.',
  ['db.go', 'memdb/db.go', 'mutex.go'],
  [('locks', 'mutex.go, memdb/time_lock.go')],
  na='No Go verifier with an ownership or separation logic for goroutines is installed (no Gobra, no Viper); the contracts here are verified for sequential executions, so schedules are out of reach of this technique. Testing schedules would be another family.')
p('C26', 'Cluster nodes agree on one leader and forward each message once',
  "At any time at most one node of the server cluster acts as leader for a term and each published message reaches each subscribed node's clients once.",
  ['schedules', 'fault_sequences'], 'all message and failure schedules of the cluster',
  'Needs adversarial network timing.',
  ['server/internal/cluster.go', 'server/internal/cluster_leader.go'],
  [('election', 'server/internal/cluster_leader.go')],
  na='A distributed liveness/agreement property over RPC and timers: it is not a postcondition or invariant of single functions; a model checker over a protocol model would be another technique family.')
p('C27', 'Acknowledged data survives power loss',
  "Data acknowledged by Sync or a log commit is on stable storage and survives loss of power.",
  ['crash_points'], 'all power-loss points and orders of page write-back',
  'Needs fault injection below the file system.',
  ['file.go', 'db_sync.go', 'wal/file.go'],
  [('fsync', 'file.go _FileSet.sync')],
  na='Depends on the kernel page cache and device write-back order, for which no contract can be discharged from Go source: whether a write is durable is not observable in the program state that contracts describe.')

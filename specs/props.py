_AF = 'Abstract_File implementations satisfy the contract of specs/files.py (proved separately per implementation, see C14)'
_P60 = 'file positions and sizes below 2^60'
PROPS = {
    'C01': {'specs': ['s_buffer'], 'harness': ['buffer'], 'level': 'proof',
            'rule': 'boundary values of every encoding length and random values of each type, read and written across buffer boundaries with short reads',
            'note': 'encoder and decoder proved separately against one byte-level encoding (all 2^64 values, all buffer states), so round trip follows for every value',
            'assumptions': [_AF, _P60]},
    'C02': {'specs': ['s_buffer'], 'harness': ['buffer'], 'level': 'proof',
            'rule': 'random read/write/seek/flush sequences against a byte-array model, four short-read patterns, small files around the buffer size',
            'note': 'every public File_Buffer operation preserves the representation invariant and acts on the abstract (content, position) state as specified, for all buffer states and sizes',
            'assumptions': [_AF, _P60]},
    'C13': {'specs': ['s_copy'], 'harness': ['copy'], 'level': 'proof',
            'rule': 'random contents, ranges around buffer boundaries, four short-read patterns per file; checked against a direct byte computation',
            'note': 'unbounded proofs of copy_to, equal_to, Async_Reader, Async_Writer::write and read_blob over the Abstract_File contract (any short reads, any throwing I/O)',
            'assumptions': [_AF, _P60]},
}
PROPS['C12'] = {'specs': ['s_hash'], 'harness': ['hash'], 'level': 'proof',
    'rule': 'all lengths 0..299, padding of lengths up to 2^52, random file ranges with four short-read patterns, fast hashes around and above the 4 MiB threshold; against an independent FIPS 180-4 implementation',
    'note': 'process_chunk equals the FIPS 180-4 compression function for every state and block; padding for every length; file hashing feeds exactly the range for any short reads',
    'assumptions': [_AF, _P60, 'get_fast_hash: the sampled blocks lie inside the file (their positions are an uninterpreted function of the range and the block number)',
                    'byte lengths below 2^61 (FIPS limit)']}
NA = {}
PROPS['C16'] = {'specs': ['s_base64'], 'harness': ['base64'], 'level': 'proof',
    'rule': 'all strings of up to 2 bytes, random longer strings, malformed texts under address and undefined-behaviour sanitizers; against a bit-by-bit reference',
    'note': 'encode and decode proved for strings of every length and contents (three residues of the length); decode proved memory-safe for every text',
    'assumptions': ['string sizes below 2^41']}
PROPS['C14'] = {'specs': ['s_files'], 'harness': ['files'], 'level': 'proof',
    'rule': 'random read/write sequences at offsets around and past the end on every implementation available here, with short and failing system calls injected by --wrap; against a byte-array model',
    'note': 'each implementation of pread/pwrite/get_size proved to refine the interface contract the other proofs assume',
    'assumptions': ['contracts of the system calls pread, pwrite (any short count, any error) and of std::streambuf (joint or distinct positions, any short count) are assumed',
                    'writes of at least one byte, or inside the file', _P60, 'Windows, CURL and SFTP files are not built here and not covered']}

_HDR = ['aligned 8-byte writes to the header reach the disk atomically; reads of at most 64 bytes inside the file are not truncated (documented by joedb)', _AF, _P60,
        'sync makes every completed write durable (operating system); between syncs any subset of the writes may be lost']
_HDRR = 'random journals: every file operation of every scenario made to fail, crashes with random subsets of pending writes at random points, random headers with every opening mode'
PROPS['C04'] = {'specs': ['s_header'], 'harness': ['header'], 'level': 'proof', 'rule': _HDRR, 'assumptions': _HDR,
    'note': 'crash invariant over the durable header (prophecy of which unsynchronised writes survive) preserved by every file operation of soft_checkpoint_at, hard_checkpoint_at, opening and recovery, so it holds at every interruption point'}
PROPS['C05'] = {'specs': ['s_header'], 'harness': ['header'], 'level': 'proof', 'rule': _HDRR, 'assumptions': _HDR,
    'note': 'checkpoint monotonic in every operation; after a checkpoint the header is in a state for which read_checkpoint (opening and pulling) is proved to return the checkpoint of the writer'}
PROPS['C06'] = {'specs': ['s_header'], 'harness': ['header'], 'level': 'proof', 'rule': _HDRR, 'assumptions': _HDR,
    'note': 'frame condition on every pwrite reached from the journal operations under contract: header slot or at/after the checkpoint'}
PROPS['C07'] = {'specs': ['s_header'], 'harness': ['header'], 'level': 'proof', 'rule': _HDRR, 'assumptions': _HDR,
    'note': 'acceptance conditions of opening proved as an equivalence for every header, size and mode'}
PROPS['C08'] = {'specs': ['s_header'], 'harness': ['header'], 'level': 'proof', 'rule': _HDRR, 'assumptions': _HDR,
    'note': 'lock counters as ghost state of the file; required at header accesses and balanced on every normal and exceptional exit'}

_STR = 'strings and blobs are shorter than the checkpoint that covers them, sizes and positions below 2^60, record identifiers in -1..2^60'
PROPS['C03'] = {'specs': ['s_journal'], 'harness': ['journal'], 'level': 'proof',
    'rule': 'random operation sequences over several sessions (reopening, pulling), every operation and type, replayed with four short-read patterns and compared operation by operation',
    'note': 'for every operation and every context: writing it then replaying it delivers exactly that operation, consumes exactly what was written and leaves reader and writer with equal contexts, so every history follows by induction; the byte-level primitives are the C01/C02 contracts',
    'assumptions': [_STR, 'range updates of string, reference and blob values: bounded to the random histories of the harness', 'range updates of zero records deliver nothing']}
PROPS['C24'] = {'specs': ['s_replay'], 'harness': ['journal'], 'level': 'proof',
    'rule': 'random journals played to random intermediate positions, rewound, with receivers at random positions',
    'note': 'replay loops proved for every position, end and receiver position: an operation is executed only from the current position, before the end, delivered only if the receiver does not have it; no repositioning',
    'assumptions': ['one_step executes the operation at the current position and moves past it (C03)', _P60]}
PROPS['C23'] = {'specs': ['s_corrupt'], 'harness': ['journal'], 'level': 'proof',
    'rule': 'valid journals with random byte corruptions, truncations and random bytes, replayed into a recorder, another journal and the interpreted database under address and undefined-behaviour sanitizers with an allocation limit',
    'note': 'one_step proved for every byte sequence, context, receiver and receiver storage: every memory access in bounds, every allocation at most 32 times the checkpoint, every size handed to the receiver validated',
    'assumptions': [_AF, 'checkpoint below 2^56', 'the interpreted database as receiver is covered by the bounded harness']}
PROPS['C21'] = {'specs': ['s_forward'], 'harness': ['forward'], 'level': 'proof',
    'rule': 'random operations of every kind sent to 0 to 4 recorders with random start index, failing targets, blob preferences and every filter mode',
    'note': 'every operation of Multiplexer proved for any number of targets and any start index: each target receives it exactly once, in order, with the same arguments; every operation of Selective_Writable for every mode',
    'assumptions': ['targets may do anything but change the multiplexer', 'ranges of fewer than 2^40 elements']}
PROPS['C22'] = {'specs': ['s_forward'], 'harness': ['forward'], 'level': 'proof',
    'rule': 'random range operations of every type received by a receiver of single operations, compared with one-by-one calls',
    'note': 'the default insert_vector, delete_vector and the ten update_vector_* proved for every range size, values and (throwing) receiver',
    'assumptions': ['ranges of fewer than 2^50 elements', 'string values are passed as views of the same characters']}
PROPS['C09'] = {'specs': ['s_freedom'], 'harness': ['freedom'], 'level': 'proof',
    'rule': 'every history of up to 6 operations on the smallest structures, random longer histories of each representation, against a std::set, every query after every step, extreme identifiers and sizes, under address sanitizer',
    'note': 'both representations and the switch proved for every state: abstraction to (size, set, count), linked lists shown acyclic and disjoint with a ghost rank, range loops over the contracts of the single operations',
    'assumptions': ['sizes below 2^58, allocation does not fail', 'a finite circular list without a cycle avoiding its head is traversed completely (finite-set argument, not mechanised)', 'operations are called within their documented preconditions; ranges of zero identifiers are not covered', 'std::vector::resize keeps the old elements (modelled)']}
PROPS['C11'] = {'specs': ['s_schema', 's_table'], 'harness': ['database'], 'level': 'proof',
    'rule': 'random histories of create, rename, drop of tables and fields with valid, invalid, used and unused names and identifiers against a model, 65536 creations of tables and fields',
    'note': 'every schema operation proved over an abstract ordered map for every schema (any number of tables and fields): invariant (identifiers up to the counter, names valid and pairwise different, tables and names in step), exact refusal conditions, frame conditions',
    'assumptions': ['std::map behaves as a finite map with ordered iteration, std::string equality and copy as equality and copy of abstract values', 'memory allocation by the map does not fail']}
PROPS['C10'] = {'specs': ['s_table', 's_schema'], 'harness': ['database'], 'level': 'proof',
    'rule': 'random histories of valid and invalid operations on tables with fields of every type, complete dump compared with a model after every operation, refused or not',
    'note': 'Table and Database operations proved for every table, record, field, size and value over the contracts of Freedom_Keeper (C09) and of the columns; columns of the eight scalar types proved down to the cells',
    'assumptions': ['std::map and std::variant contracts; columns of string and blob cells covered by the bounded harness', 'sizes below 2^57, ranges of at least one record',
                    'allocation failure in the one-by-one insertion of a range is not considered', 'Freedom_Keeper contract (proved in C09)']}
PROPS['C15'] = {'specs': ['s_encoded'], 'harness': ['encoded'], 'level': 'proof',
    'rule': 'random writes and reads at arbitrary offsets and sizes around the buffer size and block boundaries, several sessions, identity and length-changing codecs, failing decoders and failing files, against a byte array',
    'note': 'reads proved for any table of blocks at an arbitrary position (overlay of the blocks in order, cached block complete on every exit); writes, flushes and sizes over the contract of write_blob; write_blob proved on the generated database. The generated code is produced by joedbc built from the current tree',
    'assumptions': ['decoding inverts encoding; the text of a blob is read back as written (C01, C03, C13)', 'writes of at least one byte; bytes never written are unspecified', _P60,
                    'reopening replays the same blocks (C03; the replay into the generated database is covered by the harness)', 'a failed write leaves the file unusable']}
PROPS['C17'] = {'specs': ['s_text'], 'harness': ['text'], 'level': 'proof',
    'rule': 'every string of up to two bytes, three and four bytes over 28 byte classes, random longer ones, with eight continuations; all int8, boundary and random values of the other types; random histories written as a log and as a dump, then interpreted and compared',
    'note': 'one decoding automaton specifies string literals: write_string proved to emit printable text that it decodes into the string, read_string proved to return what it decodes and stop at the closing quote, for all strings; every line written by Interpreter_Writable proved to be interpreted as the same operation with the same arguments, for every operation, type and value (ranges of strings excepted)',
    'assumptions': ['operator>> of the standard library reads back the number or word written by operator<< when a space, a comma or the end follows', 'names are identifiers (C11)',
                    'bounded only: floating-point text, ranges of strings, the line splitting of Command_Interpreter::main_loop, dump() as a whole',
                    'a schema in which a field references a dropped table can not be dumped as commands (known finding)']}
_CONN = 'a server (or another Connection) only appends to its journal, and answers a hash check truthfully'
PROPS['C18'] = {'specs': ['s_conn', 's_txn', 's_client'], 'harness': ['client'], 'level': 'proof',
    'rule': 'pairs of equal, prefix and diverging journals connected through a server, a journal and a read-only journal with every content check; random sequences of local and remote changes, pulls, pushes and transactions; a server that grows between two requests',
    'note': 'handshake, pull and push of every connection under contract (exactly the missing bytes, nothing before the checks); the client proved to append remote data only to a journal that is known to be a prefix of the remote one, and to push only what follows the common history, in every state and whatever other clients push in between',
    'assumptions': [_CONN, 'equality of hashes is equality of contents (SHA-256); the fast check compares samples of journals larger than 4 kB (client/journal) or 4 MiB (hash)',
                    'Abstract_File::copy_to and equal_to (C13), soft_checkpoint_at (C05), lock_pull and pull (C07, C08)', _P60]}
PROPS['C19'] = {'specs': ['s_client'], 'harness': ['client'], 'level': 'proof',
    'rule': 'sessions against a server written from the documented protocol, with messages split at every size, every wrong reply code, channel failures at every call and a ping injected whenever the channel is not locked',
    'note': 'every request proved byte by byte against the documented layout, every reply consumed exactly, success only on the documented reply; the channel and the shared buffer used only with the lock held (lock modelled as a resource: other threads may do anything to them otherwise)',
    'assumptions': ['Channel::read_some and write_some transfer any number of bytes up to the size asked, or throw', 'a server does not announce more than 2^60 bytes', 'Writable_Client passes from <= until (C18)', 'Async_Reader::read (C13), the hash of a journal (C12)']}
PROPS['C26'] = {'specs': ['s_server', 's_asio'], 'harness': ['server'], 'level': 'proof',
    'rule': 'the real server on a local socket, random interleavings of the requests of several raw sessions (lock, pull with and without waiting, push in pieces, unlock, disconnection at any byte) against a model of the lock queue and of the journal, with and without timeouts, on writable and read-only servers',
    'note': 'every function of a session and of the server proved to keep one invariant of the lock, its queue and the lock of the file at every suspension, whatever the other sessions do meanwhile (rely/guarantee); a push proved to write exactly the bytes received, at the end of the journal, with the lock held; timeout handlers proved void once the lock is given back, refreshed, or the session gone',
    'assumptions': ['co_await and co_return are erased: a suspension is a call of an asio function (drivers/asio states the few declarations used), the rest of the code runs without interruption (one thread, checked by the constructor)',
                    'asio: async_read transfers exactly the bytes asked or throws; the handler of a cancelled or expired timer is run once, possibly late; async_wait resumes when the timer expires or is cancelled',
                    'a session that waits for the lock is not ended before its wait ends (a coroutine ends only from its own code)',
                    'Client_Lock (C20), soft_checkpoint_at (C05), Async_Reader (C13), hashes (C12); giving back the lock of the file by the connection of the server does not fail']}
PROPS['C20'] = {'specs': ['s_txn'], 'harness': ['client'], 'level': 'proof',
    'rule': 'transactions, client locks and pull-push with a failure injected at every call of the connection, of the body and of the journal, followed by further transactions',
    'note': 'transaction (with and without a result), pull_push, pull, and every function of Client_Lock proved over the Connection contract with both locks as ghost state, on normal and exceptional exits',
    'assumptions': [_CONN, 'a push that fails leaves a connection whose lock is given back by its end (session)', 'the calls of the journal satisfy their contracts (C02, C05, C08)',
                    'bounded only: a client whose failed body wrote to the journal refuses further transactions']}

import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
J='src/joedb/journal/'
p('C01','Compact integers, references and blobs round-trip at every width',
 'Every non-negative integer that the journal format can hold (64-bit values below 2^61, every 16-bit identifier), every record reference including null, and every blob locator reads back exactly as written, consuming exactly the bytes that were written. The encoding uses the fewest bytes the format allows, between one and eight, and decoding does not depend on where buffer boundaries fall.',
 ['inputs'],'every value of every integer width, every alignment of the value relative to the read buffer and every split of the bytes by short reads',
 'Tests encode a few dozen values in a fresh buffer; the widths, the 5-bit prefix boundaries and the slow path at a buffer end are sampled only by accident.',
 [J+'Buffer.h',J+'File_Buffer.h'],[('variable-length prefix code','Buffer::compact_write / compact_read'),('slow path across buffer refill','File_Buffer::compact_read'),('reference shift by one','File_Buffer::write_reference / read_reference')],
 [('index','next byte in the buffer','Buffer'),('read_buffer_size','valid bytes','File_Buffer')],['bytes handed to the file','values returned by reads'])
p('C02','Buffered journal I/O is exactly a sequential byte stream',
 'For every sequence of buffered writes followed by a flush, the underlying file contains exactly the concatenation of the written bytes at consecutive positions from the starting position, and nothing else in the file changes. For every sequence of buffered reads, skips and repositionings the bytes returned and the reported position are those of an unbuffered sequential read of the file, whatever short reads the file returns; no access leaves the buffer.',
 ['inputs','histories'],'every sequence of operations, every chunk size relative to the buffer size, every pattern of short reads',
 'Tests use small journals that rarely cross the 4 KiB buffer and always get full reads.',
 [J+'File_Buffer.h',J+'File_Buffer.cpp',J+'Buffer.h',J+'File_Iterator.h'],[('write buffer with slack bytes','File_Buffer::write, write_data'),('flush','File_Buffer::flush'),('refill','File_Buffer::read_data, read_buffer')],
 [('position, index, read_buffer_size','logical position','File_Buffer')],['file contents','returned bytes','get_position'])
p('C03','Replaying a journal reproduces every operation that was written',
 'For every sequence of write operations recorded in a journal, replaying the journal delivers the same sequence of operations with the same arguments to the receiver: schema changes, inserts and deletes of single records and of ranges, updates of every type, range updates, blobs (same locator and contents), comments, timestamps, custom events and valid-data marks. The compressed forms chosen for consecutive inserts and updates never change what is replayed, and appending more operations later never changes how the earlier ones replay.',
 ['inputs','histories'],'every sequence of operations with arbitrary table, record and field numbers and values, including sessions that are closed and reopened or that pull',
 'Tests replay a few fixed histories; which compressed form is chosen depends on the whole preceding history.',
 [J+'Writable_Journal.cpp',J+'Readonly_Journal.cpp',J+'File_Buffer.h'],[('operation encoding with last/next contexts','Writable_Journal::generic_update, insert_into'),('operation decoding with the same context','Readonly_Journal::one_step')],
 [('table_of_last_operation, record_of_last_operation, field_of_last_update','context shared by encoder and decoder','Readonly_Journal')],['calls received by the replay target'])
p('C04','A crash never loses a hard checkpoint nor exposes unwritten data',
 'After a hard checkpoint has completed, whatever happens next (any number of further writes and checkpoints, interrupted at any point, with any subset and any order of the not-yet-synchronised file writes reaching the disk), reopening the file finds a valid hard checkpoint at least as far as that hard checkpoint, and every byte before it is the one that was written. While the process keeps running after an interruption of an operation (without loss of file contents) the checkpoint found by a new reader never lies beyond data that was completely written.',
 ['crash_points','histories'],'every interruption point of every sequence of writes, soft checkpoints and hard checkpoints, and every subset of unsynchronised writes',
 'Tests never interrupt a checkpoint between two file operations and never drop or reorder a write.',
 [J+'Writable_Journal.cpp',J+'Readonly_Journal.cpp',J+'Header.h'],[('two copies of each hard checkpoint, sync between them','Writable_Journal::hard_checkpoint_at'),('alternating slots, negative soft checkpoints','Writable_Journal::soft_checkpoint_at'),('choice of a checkpoint at opening','Readonly_Journal::read_checkpoint')],
 [('hard_index, soft_index','slot in use','Readonly_Journal'),('four header integers','hard and soft checkpoint slots','file bytes 0..31')],['sequence of pwrite/sync calls','checkpoint found by a new reader'])
p('C05','Checkpoints only move forward and readers agree with the writer',
 'The checkpoint of an open journal never decreases, and a checkpoint request for a position already covered changes nothing in the file. As long as no file operation has failed, after any soft checkpoint completes, or any hard checkpoint at or after the current checkpoint, every reader that opens the file or pulls from it sees exactly the checkpoint of the writer, and a pull returns exactly by how much its checkpoint advanced.',
 ['histories','inputs'],'every interleaving of soft and hard checkpoints by one or several successive writers, and every header reachable from them',
 'Tests observe a handful of checkpoint sequences; slot reuse patterns repeat only after several alternations of soft and hard checkpoints.',
 [J+'Writable_Journal.cpp',J+'Readonly_Journal.cpp'],[('slot alternation','soft_checkpoint_at, hard_checkpoint_at'),('reader choice','read_checkpoint, pull')],
 [('checkpoint_position, hard_checkpoint_position','current checkpoints','Readonly_Journal')],['get_checkpoint of writer and readers','header bytes'])
p('C06','Bytes before a checkpoint are never modified',
 'Once a position of the journal has been covered by a checkpoint, no operation on that journal ever changes a byte before it, other than the checkpoint fields at the start of the file: every other write goes at or after the checkpoint.',
 ['histories','inputs'],'every sequence of operations, checkpoints, pulls and blob writes on a journal',
 'Tests compare final contents of a few histories, not every individual write.',
 [J+'Writable_Journal.cpp',J+'File_Buffer.h',J+'Async_Writer.h'],[('append-only file position','File_Buffer, Writable_Journal constructor'),('header slots','soft_checkpoint_at, hard_checkpoint_at')],(),['offset and size of every pwrite'])
p('C07','A journal opens exactly when its header and size are consistent',
 'Opening an existing file succeeds only when it has the joedb signature, the supported version and a checkpoint that is not beyond the end of the file; opening for writing additionally requires that no bytes lie after the checkpoint, unless overwriting was requested, and that the file is writable. An empty file can be opened for writing only and becomes an empty valid journal; a refused opening throws and leaves the file contents unchanged; ignoring the header takes the file size as checkpoint.',
 ['inputs','configurations'],'every header contents, every file size, every recovery option and read/write mode',
 'Tests try one or two corrupt files per rule.',
 [J+'Readonly_Journal.cpp',J+'Writable_Journal.cpp',J+'Journal_Construction_Lock.cpp',J+'Header.h'],[('validation at construction','Readonly_Journal and Writable_Journal constructors')],(),['exception or not','resulting checkpoint','file contents'])
p('C08','File locks are held when needed and released on every exit',
 'Every write of the checkpoint header of a shared file happens while holding the exclusive head lock, every later read of it by a pull while holding at least a shared head lock or the tail lock, and opening a shared file for writing holds its lock until construction ends. Each lock taken by an operation is released exactly once on every way out of it, including when any file operation throws, and a lock that could not be acquired is not released.',
 ['fault_sequences','histories'],'every file operation failing at any point of checkpointing, pulling, opening and transaction boundaries',
 'Tests do not inject failures into individual lock, read or write calls.',
 [J+'Writable_Journal.cpp',J+'Readonly_Journal.cpp',J+'Journal_Construction_Lock.cpp',J+'Journal_Construction_Lock.h','src/joedb/concurrency/Writable_Journal_Client.h'],[('scoped lock objects','Head_Exclusive_Lock, Head_Shared_Lock, Journal_Construction_Lock, Tail_Exclusive_Lock')],(),['sequence of lock, unlock, read and write calls'])
p('C09','Record identifiers are managed as an exact set',
 'A table\'s set of used record identifiers behaves as a mathematical set under every sequence of insertions, deletions and range operations, in both the compact and the linked representation and across the switch between them. Iterating forward or backward visits every used identifier exactly once and nothing else, an identifier proposed as free is not used, and queries on any identifier or non-empty range, however large or negative, answer correctly without touching memory outside the structure.',
 ['inputs','histories'],'every sequence of use/free/resize operations with arbitrary identifiers and range sizes',
 'Tests apply a few short sequences; the linked structure has unboundedly many shapes.',
 ['src/joedb/Freedom_Keeper.h'],[('doubly linked used and free lists','List_Freedom_Keeper'),('prefix representation','Dense_Freedom_Keeper'),('switch','Freedom_Keeper')],
 [('records, sentinels','linked lists','List_Freedom_Keeper'),('used_size','dense prefix','Dense_Freedom_Keeper')],['is_used, is_free, get_next, get_previous, get_free_record'])
p('C10','The database rejects invalid operations without side effects',
 'In the interpreted database an insertion succeeds exactly when the identifiers are unused (and within the configured maximum and available memory), a deletion exactly when every record of it is used, an update exactly when the table, the field and the record exist and the value has the type of the field (an update of a range requires its first and last records), and any refused operation throws and leaves the database unchanged. An accepted update changes exactly the addressed cells and no others, and every record keeps one value of every field of its table through all insertions, deletions and schema changes. Ranges are of at least one record.',
 ['inputs','histories'],'every sequence of operations with arbitrary, possibly invalid, table, field and record identifiers, range sizes and values',
 'Tests check individual refusals on tiny tables, not the whole state after every refused operation.',
 ['src/joedb/interpreted/Table.cpp','src/joedb/interpreted/Table.h','src/joedb/interpreted/Database.cpp','src/joedb/interpreted/Field.h','src/joedb/Freedom_Keeper.h'],[('checks before mutation','Table, Database'),('column growth','Table::insert_record, insert_vector')],(),['table dumps before and after','exceptions'])
p('C11','Schema identifiers are unique and never reused',
 'Table and field names are always unique valid identifiers within their scope, every created table or field receives an identifier never used before in that database, and creation is refused once identifiers are exhausted. Dropping or renaming affects exactly the named object, and a refused schema operation throws and leaves the schema unchanged.',
 ['inputs','histories'],'every sequence of create, rename and drop operations with arbitrary names and identifiers',
 'Tests create a few tables; exhaustion and reuse after drops are not explored.',
 ['src/joedb/interpreted/Database_Schema.cpp','src/joedb/interpreted/Database_Schema.h','src/joedb/interpreted/Table.cpp','src/joedb/is_identifier.cpp'],[('monotone counters','Database_Schema::current_table_id, Table field id'),('name lookup before change','Database_Schema')],(),['get_tables, get_fields','exceptions'])
p('C12','SHA-256 results are exact for every input and length',
 'The hash computed for any byte sequence is the SHA-256 of that sequence as defined by FIPS 180-4, for every length and every way the bytes are fed. Hashing a range of a file is the hash of exactly the bytes of that range whatever short reads the file returns, and the fast hash of a file depends only on its contents and the range.',
 ['inputs'],'every message content and length, every block boundary, every short-read pattern',
 'Tests hash a few known strings.',
 [J+'SHA_256.h',J+'File_Hasher.cpp',J+'File_Hasher.h'],[('compression function and padding','SHA_256'),('file chunking','File_Hasher')],(),['digest'])
p('C13','Copying and comparing file ranges is exact',
 'Copying a range of a file to another leaves in the destination exactly the bytes of the source range at the same offsets, changes nothing outside the range, and fails rather than stopping early when the source is too short. Comparing a range reports equality exactly when all bytes are equal; sequential readers, sequential writers and blob reads transfer exactly the bytes of their range in order; all of this whatever short reads the files return.',
 ['inputs'],'every file contents, offset, length, and every pattern of short reads on either file',
 'Tests use in-memory files that never return a short read and ranges below one buffer.',
 [J+'Abstract_File.cpp',J+'Async_Reader.cpp',J+'Async_Writer.h'],[('chunked loops','Abstract_File::copy_to, equal_to, read_blob'),('range cursor','Async_Reader::read, read_all; Async_Writer::write')],(),['destination contents','returned booleans and byte counts'])
p('C14','Every file implementation behaves like a byte array with a size',
 'Reading from a file returns the longest available prefix semantics: some bytes equal to the contents at that offset, and none only at or past the end; writing changes exactly the addressed bytes and extends the size as needed; reads never touch memory outside the contents or the destination. This holds for memory files, read-only memory files, slices, stream files and operating-system files, for every offset and size including those at and beyond the end.',
 ['inputs','histories'],'every sequence of reads and writes with arbitrary offsets and sizes, and every short transfer by the operating system',
 'Tests read and write a few small ranges.',
 [J+'Memory_File.cpp',J+'Readonly_Memory_File.h',J+'File_Slice.h',J+'Posix_File.cpp',J+'Stream_File.cpp'],[('bounds computation','pread/pwrite of each implementation')],(),['bytes returned','file contents and size'])
p('C15','Encoded files read back what was written to them',
 'A file stored in encoded blocks returns for every read exactly the bytes last written at each offset, for every sequence of non-empty writes and every codec that inverts itself, whether or not the blocks have been flushed, and after being closed and reopened. The size is the end of the last byte written. Reading at or past the end returns nothing (bytes never written have unspecified contents), and a block that cannot be decoded fails without corrupting later reads.',
 ['inputs','histories'],'every sequence of writes and reads with arbitrary offsets and sizes relative to block boundaries',
 'Tests write a few sequential chunks.',
 [J+'Encoded_File.cpp',J+'Readonly_Encoded_File.cpp',J+'Encoded_File.h'],[('write buffering and block records','Encoded_File'),('overlay of blocks in order','Readonly_Encoded_File::pread')],(),['bytes returned by reads'])
p('C16','Base64 encoding round-trips every byte string',
 'Encoding any byte string to base64 yields the standard padded RFC 4648 text and decoding that text returns the original bytes. Decoding any text never reads or writes out of bounds.',
 ['inputs'],'every byte string of every length and every input text',
 'Tests encode a few strings.',
 ['src/joedb/ui/base64.cpp','src/joedb/ui/base64_decode.cpp','src/joedb/ui/base64.h'],[('3-to-4 grouping','base64_encode, base64_decode')],(),['encoded and decoded strings'])
p('C17','Textual values round-trip through the command syntax',
 'Any string written as a quoted literal by the text dump is read back as the same string, whatever bytes it contains, with nothing after the closing quote consumed. Integers, booleans, references, blobs and floating-point numbers (infinities as such, a NaN as a NaN, numbers to the six digits that are written) written as text read back as the same values, and dumping a database as commands, or the log of its operations, and interpreting the text rebuilds an equal database.',
 ['inputs','histories'],'every byte string, every value of every type, every database contents',
 'Tests dump a few values.',
 ['src/joedb/ui/type_io.cpp','src/joedb/ui/type_io.h','src/joedb/ui/Interpreter_Dump_Writable.cpp','src/joedb/ui/write_value.cpp'],[('escape sequences','write_string / read_string')],(),['text produced','values read'])
p('C18','Connections refuse to mix diverging histories',
 'Connecting a local journal to a remote one with a full content check, or with the fast check when the common length is at most 4 kB, succeeds only when the shorter is a prefix of the longer over their common checkpointed length, and otherwise throws before any data is exchanged (the fast check of longer journals compares samples that include the beginning and the end); a common prefix is never refused. A pull appends exactly the missing bytes of the remote journal, and a push sends exactly the bytes between the remote and local checkpoints and is refused when the remote has moved. Data pulled is appended only to a journal that is a prefix of the remote one: local changes that are not in the remote are never silently overwritten or followed by remote ones, whatever other clients push in between.',
 ['histories','inputs'],'every pair of histories and every sequence of pulls, pushes and reconnections',
 'Tests connect a few journals with hand-made contents.',
 ['src/joedb/concurrency/Connection.cpp','src/joedb/concurrency/Connection.h','src/joedb/concurrency/File_Connection.cpp','src/joedb/concurrency/Server_Connection.cpp',J+'Writable_Journal.cpp'],[('content check at handshake','Connection::content_mismatch, handshake'),('pull/push position arithmetic','File_Connection, Server_Connection')],(),['journal contents on both sides','exceptions'])
p('C19','A client speaks the wire protocol exactly and trusts only valid replies',
 'Each request to a server is encoded with the documented layout (code, little-endian positions and sizes, then exactly the announced bytes), and the client consumes exactly the reply documented for it. A reply that reports a conflict, a failed lock, a wrong echo or a read error makes the call throw instead of being treated as success, and the local journal then keeps its contents and checkpoint.',
 ['inputs','fault_sequences'],'every request argument, every reply byte sequence and every way replies are split',
 'Tests run against the real server, which never sends an unexpected reply.',
 ['src/joedb/concurrency/Server_Client.cpp','src/joedb/concurrency/Server_Connection.cpp','src/joedb/concurrency/Server_File.cpp','src/joedb/concurrency/Channel.h'],[('request/reply framing','Server_Connection, Server_Client')],(),['bytes sent','exceptions'])
p('C20','Client transactions are all-or-nothing and always release the lock',
 'A client transaction starts from all the data of the remote, with the lock of the connection held; when it returns normally all its operations have been checkpointed and pushed, once, up to the checkpoint. When the pull, the body, or the checkpoint throws, nothing is pushed to the remote, the exception reaches the caller, and the lock of the connection and the lock of the local journal are given back, whatever call failed; the same holds for a Client_Lock that is destroyed without confirmation. A client whose failed body had written to the journal refuses to write further until it is recreated.',
 ['fault_sequences','histories'],'every point at which the body, the checkpoint, the push or the lock can throw',
 'Tests throw at one or two points.',
 ['src/joedb/concurrency/Writable_Client.h','src/joedb/concurrency/Client.cpp','src/joedb/concurrency/Client.h','src/joedb/concurrency/Writable_Journal_Client.h'],[('scoped transaction','Writable_Client::transaction, Connection lock')],(),['calls on the connection','journal contents'])
p('C21','Event forwarding delivers every operation once, in order, unchanged',
 'A multiplexer forwards every operation to every one of its targets exactly once, in order and with the same arguments, and blob writes return one locator. A selective forwarder forwards exactly the categories of operations it was configured for and drops the others. When a target fails, the error is reported and later targets are not called.',
 ['inputs','histories','configurations'],'every operation, every argument, every number of targets and every filter configuration',
 'Tests check a few operations with one or two targets.',
 ['src/joedb/Multiplexer.cpp','src/joedb/Multiplexer.h','src/joedb/Selective_Writable.cpp','src/joedb/Selective_Writable.h'],[('forwarding loop per operation','Multiplexer'),('mode filter','Selective_Writable')],(),['calls received by targets'])
p('C22','Range operations are equivalent to one-by-one operations',
 'Inserting, deleting or updating a range of records has, for every receiver that does not treat ranges specially, exactly the effect of the same operation applied once to each record of the range, in increasing order with the matching value (in decreasing order for deletions), for every range size including zero and one.',
 ['inputs'],'every table, first record, size, value type and values',
 'Tests use one or two sizes and types.',
 ['src/joedb/Writable.h','src/joedb/Writable.cpp'],[('default range implementations','Writable::insert_vector, delete_vector, update_vector_*')],(),['calls received'])
p('C23','A corrupted journal can never corrupt memory',
 'Replaying any file contents as a journal either delivers operations, or throws an exception: it never reads or writes outside allocated memory, and no size found in the file makes it allocate more than a small multiple of the checkpoint at once. String and range sizes found in the file are validated against the checkpoint and the destination before use.',
 ['inputs'],'every file contents after the header',
 'A fuzzing corpus samples corruptions; tests replay a handful of broken files.',
 [J+'Readonly_Journal.cpp',J+'File_Buffer.cpp','src/joedb/interpreted/Table.cpp'],[('size checks','safe_read_string, update_vector size and capacity checks, blob size check')],(),['memory accesses','exceptions'])
p('C24','Partial replay stops exactly where asked and covers everything once',
 'Replaying a journal until a position executes, in order and exactly once, every operation that starts between the current position and that position, and stops at the first operation boundary at or after it. Replaying in several steps delivers the same operations as replaying at once, rewinding restarts from the first operation, and operations that the receiver has already recorded are skipped, not delivered twice.',
 ['inputs','histories'],'every journal, every sequence of intermediate positions and every receiver position',
 'Tests play a few journals to their end.',
 [J+'Readonly_Journal.cpp'],[('replay loop','play_until, raw_play_until, rewind')],(),['operations delivered','position reached'])
p('C25','Compiled databases agree with the interpreted database',
 'A database class generated from a schema, its indexes included, holds after replaying any journal the same records and values as the interpreted database, and every index contains exactly the existing records under their current keys. Operations refused by the schema or by a unique index leave the database unchanged.',
 ['histories','programs'],'every schema and every journal valid for it',
 'Tests use a fixed set of schemas and histories.',
 ['src/joedb/compiler/generator','test/compiler/db'],[('generated code','compiler/generator')],(),['table contents and index contents'])
p('C26','The server grants its lock to one client at a time',
 'At any time at most one client of a journal server holds the exclusive lock, a lock held by a client that disconnects or times out is released, waiting clients obtain it in order, and a push from a client that does not hold the lock never modifies the journal while another one does.',
 ['schedules','histories'],'every interleaving of requests, disconnections and timeouts of several clients',
 'Tests run a few fixed interleavings.',
 ['src/joedb/concurrency/Server.cpp','src/joedb/concurrency/Server.h'],[('lock queue','Server::lock, unlock')],(),['order of replies','journal contents'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))

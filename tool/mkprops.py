"""Writes properties.jsonl (kept as a generator so the wording lives in one reviewable place)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
I="include/dottorrent/"
p("P01","Work-queue operations are mutually exclusive",
  "Every operation of the bounded work queue that reads or changes its items or its capacity does so while holding the queue's mutex. The mutex is held without a gap from the moment an operation tests whether it may proceed until it has acted on that answer, and it is released again on every way out of the operation.",
  ["schedules"],"all interleavings of any number of producer, consumer and configuring threads on one queue",
  "a missing or too-short critical section only shows under particular interleavings that a test run rarely produces",
  [I+"concurrent_queue.hpp"],[("mutex-protected operations","concurrent_queue: push, try_push, pop, try_pop, size, set_capacity")])
p("P02","No blocked producer or consumer of the work queue is left asleep",
  "A thread that blocks in the work queue tests its condition again, under the lock, after every wake-up before it proceeds. Every operation that may have made a blocked thread's condition true (an item added, an item removed, the capacity changed) signals the threads waiting for that condition on every path on which it made the change.",
  ["schedules"],"all interleavings of blocked and running threads on one queue, spurious wake-ups included",
  "lost wake-ups and spurious wake-ups depend on the schedule; a test that does not hang proves nothing about the next schedule",
  [I+"concurrent_queue.hpp"],[("condition variables and their notifications","concurrent_queue: push, try_push, pop, try_pop, set_capacity")])
p("P03","The work queue is bounded, first-in first-out and loses nothing",
  "An item enters the work queue only when the queue holds fewer items than its capacity, even after the capacity was lowered, and an item is taken only from a non-empty queue. Items leave in the order in which they entered, each exactly once, and a non-blocking operation reports success exactly when it transferred an item.",
  ["histories","schedules"],"every sequence of queue operations, capacity changes included",
  "tests exercise short histories; the bound and the order have to survive every history, including a capacity lowered below the current size",
  [I+"concurrent_queue.hpp"],[("guarded insertion and removal","concurrent_queue: push, try_push, pop, try_pop")])
p("P04","Pooled objects return to their living pool exactly once",
  "When the last user of a pooled object lets go of it, the object is recycled and put back into its pool exactly once if the pool still exists, and is destroyed if it does not. Borrowed objects never keep their pool alive nor refer to it after its destruction, the handle drops its own reference to the object on every path, and a new object is made only when no free one is available and the pool's allowance, which is reduced by one for it, is not used up.",
  ["histories","schedules"],"every order in which objects are borrowed and released and the pool is destroyed",
  "leaks, reference cycles and double returns stay invisible to assertions about the values handed out",
  [I+"object_pool.hpp"],[("borrowing","object_pool::impl::get"),("returning","object_pool::deleter::operator(), impl::recycle")])
p("P05","Hexadecimal coding is exact for every byte and rejects everything else",
  "Encoding any byte gives its two hexadecimal digits, most significant first, in the letter case asked for. Decoding accepts exactly the pairs of hexadecimal digits of either case and yields the byte they denote; any other character, including those outside ASCII, and any text of the wrong or odd length is refused. No coding step reads or writes outside the text or buffer it was given.",
  ["inputs"],"all bytes, all pairs of characters, texts of any length",
  "the tests look at a few digits; an entry of a table or a character with the top bit set is easily missed",
  [I+"hex.hpp"],[("digit tables and byte conversion","hex.hpp: hex_to_int, hex_to_byte, byte_to_hex, byte_to_hex_uppercase"),("string conversion","hex.hpp: from_hexadecimal_string, to_hexadecimal_string")])
p("P06","Percent-coding follows RFC 3986 and never invents data",
  "The character classes are those of RFC 3986: reserved are exactly : / ? # [ ] @ ! $ & ' ( ) * + , ; = and unreserved exactly letters, digits, - . _ ~. Percent-encoding leaves exactly the unreserved characters as they are and writes every other byte as a percent sign followed by its two upper-case hexadecimal digits. Decoding turns each such escape back into its byte and copies other characters unchanged. An escape with a character that is not a hexadecimal digit, and an escape cut short, is reported as an error and contributes no byte to the output.",
  ["inputs"],"all bytes and all two-character continuations of a percent sign, at any place in the text",
  "the tests look at ten characters of a classification helper and never decode a malformed escape",
  [I+"percent_encoding.hpp"],[("classification","percent_encoding.hpp: is_unreserved"),("coding","percent_encoding.hpp: percent_encode, percent_encode_char, percent_decode")])
p("P07","All tables about hash functions agree with each other and the standards",
  "For every hash function the library names: its printed name parses back to the same function, names match without ambiguity, every digest type and every size table gives it the digest length its standard prescribes, and the OpenSSL backend maps it to the algorithm of that name and to no other. Every function the library lists as supported is advertised by that backend, every advertised one is mapped to an algorithm, and text that names no hash function is not accepted as one.",
  ["inputs","configurations"],"every enumerator of the hash-function list, in every table, size, name, type list and backend mapping",
  "the tables are spread over many files; tests use three or four common functions",
  [I+"hash_function.hpp",I+"hash_function_traits.hpp",I+"hash.hpp",I+"checksum.hpp",I+"hasher/backends/openssl.hpp","src/hasher/backends/openssl.cpp"],
  [("names","hash_function.hpp: to_string, make_hash_function, hash_function_names"),("digest sizes","hash_function_traits.hpp, hash.hpp, hasher/backends/openssl.cpp"),("backend mapping","hasher/backends/openssl.hpp, openssl_hasher.hpp")])
p("P08","Failures of the cryptographic library are never ignored",
  "Every status or pointer that OpenSSL returns while a digest is set up, fed, finished or copied is examined, and a failure reaches the caller as an exception. No digest is handed out after a step that failed.",
  ["fault_sequences"],"a failure of any single call into the cryptographic library at any point",
  "the library does not fail in tests; only reading every call site shows whether its result is looked at",
  ["src/hasher/backends/openssl.cpp",I+"hasher/backends/openssl.hpp"],[("calls into OpenSSL","message_digest constructor, update, finalize_to, init")])
p("P09","Every digest context has one owner and is released exactly once",
  "A digest context obtained from OpenSSL is released exactly once, also when setting it up fails half-way. An object that owns a context cannot be duplicated into a second owner, and moving it leaves the source owning nothing.",
  ["histories","fault_sequences"],"every sequence of construction, copy, move, assignment, failure and destruction of hashers",
  "double releases and leaks on failure paths do not change any value a test compares",
  [I+"hasher/backends/openssl.hpp","src/hasher/backends/openssl.cpp",I+"hasher/openssl_hasher.hpp"],[("context ownership","message_digest: constructor, destructor, special member functions")])
p("P10","A digest never overruns the caller's buffer and the hasher can be reused",
  "Feeding a hasher passes exactly the caller's bytes on, in full. Finishing a digest writes at most as many bytes as the buffer supplied by the caller holds; a buffer too small for the digest is refused before anything is written. After finishing, a hasher is back in its initial state, so the next digest depends only on the data fed to it since.",
  ["inputs","histories"],"all hash functions, buffer sizes and sequences of update and finish",
  "tests pass buffers of the right size; an overrun by a few bytes is silent",
  ["src/hasher/backends/openssl.cpp",I+"hasher/openssl_hasher.hpp",I+"hasher/single_buffer_hasher.hpp"],[("finishing a digest","message_digest::finalize_to, openssl_hasher::finalize_to")])
p("P11","Merkle trees are only touched under their lock",
  "Every operation of a Merkle hash tree that reads or writes its nodes holds the tree's lock, exclusively when it writes, while it accesses them (a reference or view it returns is used outside the lock at the caller's risk). An operation that involves two trees protects each of them by that tree's own lock, taking two locks only together and never twice the same one, and every lock is released on every way out.",
  ["schedules"],"all interleavings of hashing and verifying threads that share a tree",
  "races on tree nodes need two worker threads finishing blocks of one file at the same moment",
  [I+"merkle_tree.hpp"],[("node storage and mutex","merkle_tree: accessors, setters, update, copy and assignment")])
p("P12","A piece counts as valid only if its digest matched",
  "Verification reports a piece or block as present and correct only after the digest computed from the data on disk compared equal, in full, with the digest recorded for that same piece. No piece is marked as valid on any way where such a comparison was not made or did not succeed.",
  ["inputs","schedules","fault_sequences"],"all contents on disk, all orders in which pieces arrive, all pieces of all files",
  "tests verify one or two intact or damaged samples; the claim is about every way a piece can be marked",
  ["src/v1_piece_verifier.cpp","src/v2_piece_verifier.cpp",I+"v1_piece_verifier.hpp",I+"v2_piece_verifier.hpp"],[("comparison and marking","v1_piece_verifier::verify_hash, v2_piece_verifier"),])
p("P13","Every chunk read is handed to every registered consumer",
  "Each chunk of data a reader produces is handed to every hash queue and every checksum queue registered with it, exactly once and in reading order, on every path that produces a chunk, the last partial one included, and no buffer is written to or reused after it was handed on. The reader's count of bytes read advances with each chunk.",
  ["inputs","histories"],"all storages, chunk sizes and numbers of registered consumers",
  "a consumer that misses a chunk on one path only yields a wrong digest for particular file layouts",
  ["src/chunk_reader.cpp","src/v1_chunk_reader.cpp","src/v2_chunk_reader.cpp"],[("fan-out","chunk_reader::push and its callers in v1_chunk_reader::run, v2_chunk_reader::run")])
p("P14","Hashing and verification stop in order and leave no thread behind",
  "Waiting for or cancelling a hashing or verification job stops the stages from producer to consumer: no stage is told to stop while a stage that feeds it has not ended, and when the call returns every started stage has been waited for and every worker thread joined, on every path; no thread is ever detached. Waiting for the workers of a stage wakes those that wait for work and never itself waits for room in the queue they may have stopped emptying, every worker reports its end, and after a cancellation nothing is asserted about the work that was left undone.",
  ["schedules","histories"],"all sequences of start, wait, cancel and destruction, and all interleavings of the worker threads",
  "shutdown defects show as rare hangs or crashes that depend on where the threads happen to be",
  ["src/storage_hasher.cpp","src/storage_verifier.cpp","src/chunk_processor_base.cpp","src/chunk_reader.cpp",I+"concurrent_queue_processor.hpp"],
  [("job control","storage_hasher, storage_verifier: start, wait, cancel, destructors"),("stage control","chunk_processor_base, chunk_reader, concurrent_queue_processor: start, wait, request_stop, request_cancellation, destructors")])
p("P15","State shared between worker threads and their observers is race-free",
  "State of a stage of the hashing or verification pipeline that a worker thread changes and that another worker, a progress observer or a stop request may use at the same time (progress counters, stop flags, results, shared buffers) is either atomic or protected by one and the same lock at every access; data that is changed under a lock is used under that lock everywhere. No function of the library changes hidden state that all threads share (static or global variables), so that separate objects and values can be used from separate threads.",
  ["schedules"],"all interleavings of worker threads, the controlling thread and progress observers",
  "data races seldom corrupt a value on the test machine and never deterministically",
  [I+"chunk_reader.hpp",I+"chunk_processor_base.hpp",I+"concurrent_queue_processor.hpp",I+"file_entry.hpp",I+"v1_piece_verifier.hpp","src/v2_chunk_hasher_sb.cpp",I+"hex.hpp",I+"percent_encoding.hpp"],[("counters and flags","chunk_reader, chunk_processor_base, concurrent_queue_processor, v1/v2 hashers, writers and verifiers: members touched by run()")])
p("P16","Copying, moving and assigning carry the complete value",
  "A copy of a file entry, file list, tree, hash or metafile has every part of the original's value, assignment replaces every part of the target's value, and a move transfers every part from the source object.",
  ["inputs","histories"],"all values of all value types of the library, and every one of their special member functions",
  "a forgotten member goes unnoticed unless a test happens to look at that member after that particular operation",
  ["src/file_entry.cpp","src/file_storage.cpp",I+"file_entry.hpp",I+"file_storage.hpp",I+"merkle_tree.hpp",I+"info_hash.hpp",I+"hash.hpp",I+"announce_url.hpp",I+"metafile.hpp"],[("special member functions","file_entry, file_storage, merkle_tree, basic_hash, info_hash, announce_url, metafile")])
p("P17","No object starts its life with indeterminate state",
  "Every constructor of every class of the library leaves each of the object's scalar and pointer members with a determinate value, so that no operation, comparison or copy of a fresh object depends on leftover memory. No function uses a local variable of such a type before it has been given a value.",
  ["inputs","histories"],"every constructor of every class in every configuration",
  "indeterminate memory is often zero in a test process",
  [I+"metafile.hpp",I+"magnet_uri.hpp",I+"file_storage.hpp",I+"data_chunk.hpp",I+"dht_node.hpp"],[("constructors and member initialisers","all classes under include/dottorrent")])
p("P18","Recorded sizes of a file list always match its files",
  "Every operation that adds, removes or replaces files in a file list updates the recorded total size and the recorded size of regular files by exactly the files concerned, and clearing resets them. Anything cached about the files is marked stale by every operation of the list that changes them.",
  ["histories"],"all sequences of operations on a file list",
  "tests add a few files once and read the total; removal, clearing and reuse in combination are not covered",
  ["src/file_storage.cpp",I+"file_storage.hpp"],[("bookkeeping","file_storage: add_file, add_files, remove_file, clear, total_file_size, total_regular_file_size")])
p("P19","Malformed metafiles are rejected with an error, never by termination",
  "Parsing a metafile whose fields are missing, of the wrong type, of the wrong length or out of range ends in an exception the caller can catch. No assertion, no access past the end of a field and no use of an absent field is reachable because of what the input contains.",
  ["inputs"],"all byte strings offered as a metafile",
  "the space of malformed inputs is unbounded and the tests only parse well-formed files",
  ["src/metafile_parsing.cpp",I+"metafile_parsing.hpp"],[("field parsers","metafile_parsing.cpp: parse_* functions")])
p("P20","What the metafile writer emits the reader understands",
  "Every field the library writes into a metafile is one its parser looks for, under the same name, at the same level and with the same kind of value, and every property of a metafile that the parser fills in is one the writer emits when it is set. The three protocol flavours emit the same common fields.",
  ["inputs"],"all metafiles, all protocol versions",
  "round-trip tests cover the fields their samples happen to contain",
  ["src/metafile_serialization.cpp","src/metafile_parsing.cpp",I+"serialization/announce_url_list.hpp"],[("writer","metafile_serialization.cpp: make_bvalue_*"),("reader","metafile_parsing.cpp: parse_*")])
p("P21","Paths from a metafile cannot leave the download directory",
  "Every file path, every link target and the name that the parser stores from a metafile is relative and made only of components that were checked: an empty component, a component consisting of one or two dots, and a component with a directory separator are refused. No path component from the input reaches the file list without that check.",
  ["inputs"],"all file lists and file trees of all metafiles",
  "an attacker chooses the components; tests use friendly names",
  ["src/metafile_parsing.cpp"],[("path parsing","metafile_parsing.cpp: parse_path, parse_file_entry_v1, parse_file_tree_v2")])
p("P22","Equality, ordering and hashing of identifiers agree",
  "For info hashes, digests, checksums, DHT nodes and announce URLs: two values are equal, and equivalent in order, exactly when all of their parts are equal. The hash code of an info hash, a digest or an announce URL is computed from every part that is present and from nothing else, so equal values have equal codes. An info hash holds exactly the digests its version names, and asking it for one it does not have is refused instead of reading an absent value.",
  ["inputs"],"all pairs of values of these types, all protocol versions",
  "tests compare a few samples; the agreement has to hold for every pair",
  [I+"info_hash.hpp",I+"hash.hpp",I+"checksum.hpp",I+"dht_node.hpp",I+"announce_url.hpp"],[("comparison and hashing","operator==, operator<=> and std::hash of info_hash, basic_hash, checksum, dht_node, announce_url"),("accessors","info_hash: v1, v2, truncated_v2, get_hex, get_binary and constructors")])
p("P23","Magnet links carry every field both ways",
  "Every field of a magnet link that is set is written, under the standard name of its parameter, separated from what precedes it, and percent-encoded (topics, which are URNs, are written as they are). The parser restores the same field from that parameter, decoded once, and drops no parameter that it knows; keywords are split before they are decoded. Encoding ends for every link. A link made from a metafile carries its name, all trackers and web seeds, and each info hash of the metafile's protocol (for a hybrid those asked for) under the URN of that kind of hash.",
  ["inputs"],"all magnet links, any number of values per field",
  "the tests encode one link with few fields",
  [I+"magnet_uri.hpp","src/magnet_uri.cpp"],[("encoder","encode_magnet_uri"),("parser","make_magnet_uri(std::string_view)")])
p("P24","The announce list stays ordered by tier and hands out valid positions",
  "After every operation the trackers of an announce list are in tier order, and in the order of their URLs within a tier, which is what its lookups rely on. Removing a tracker renumbers the later tiers only if it was the last one of its tier. Neither the announce list nor any other code of the library uses or returns an iterator or element reference that an operation on the container has invalidated.",
  ["histories"],"all sequences of insertions, removals and replacements",
  "an iterator into moved storage often still reads the old bytes, so tests pass",
  ["src/announce_url_list.cpp",I+"announce_url_list.hpp"],[("mutators","announce_url_list: constructors, insert, emplace, erase; metafile: add_tracker, remove_tracker")])
p("P25","Input and output failures are noticed before data is used",
  "After opening, reading or writing a file the library looks at the outcome before it uses the data or reports success: a file that cannot be opened, a short read and a failed write lead to an error or to the data being treated as missing, never to hashes or metafiles made from data that was not read.",
  ["fault_sequences"],"failure of any single open, read, seek or write",
  "disks do not fail in tests",
  ["src/v1_chunk_reader.cpp","src/v2_chunk_reader.cpp","src/metafile.cpp"],[("data input","v1_chunk_reader::run, v2_chunk_reader::run"),("metafile files","load_metafile, save_metafile, read_metafile, write_metafile_to")])
p("P26","Aligned allocation is checked, paired and never wraps around",
  "The aligned allocator returns memory that is at least as large and as aligned as asked for or throws: a request whose size in bytes cannot be represented is refused and an unsuccessful system allocation is never handed out. Memory is released by the counterpart of the function that obtained it, and allocators that compare equal can release each other's memory.",
  ["inputs","configurations"],"all element types, alignments and element counts",
  "tests cannot exhaust memory nor allocate near the end of the address space",
  [I+"aligned_allocator.hpp"],[("allocation and release","aligned_allocator: allocate, deallocate")])
p("P27","Flag sets, unit literals and file attributes follow their algebra",
  "On every flag type the operators or, and, exclusive or, complement and their assigning forms compute on exactly the underlying bits; every combination of file attributes survives conversion to text and back, under the letters of BEP 47, and unknown letters are refused; size literals denote the powers of 1024 (KiB, MiB, GiB, TiB) or 1000 (KB, MB, GB, TB) they name. An option made of several bits counts as set only when all of them are, and the attribute queries of a file entry report the attribute they are named after, and false for an entry without attributes.",
  ["inputs"],"all pairs of values of every flag type, all sets of file attributes, all literals",
  "an operator that is wrong for one combination escapes sample tests",
  [I+"bitmask_operators.hpp",I+"general.hpp",I+"literals.hpp","src/file_entry.cpp"],[("operators","bitmask_operators.hpp"),("attributes","general.hpp: to_string, make_file_attributes"),("literals","literals.hpp"),("tests of flags","make_file_entry, file_entry::is_symlink, is_executable, is_hidden, is_padding_file")])
p("P28","Every public operation of the library's templates can be used",
  "Every public member function of the library's class templates and every public function template compiles for element types that meet its stated requirements, with the constness and value category its declaration promises.",
  ["programs"],"all client programs that use a public operation with valid types",
  "members of templates are only compiled when used; the tests use a fraction of them",
  [I+"concurrent_queue.hpp",I+"object_pool.hpp",I+"hash.hpp",I+"hex.hpp",I+"merkle_tree.hpp",I+"aligned_allocator.hpp",I+"announce_url_list.hpp",I+"file_entry.hpp"],[("template members","concurrent_queue, object_pool, basic_hash, merkle_tree, aligned_allocator, hex functions")])
p("P29","Computed piece hashes equal the hash of the data on disk",
  "For every storage the hashing job records for each piece exactly the digest of the bytes that the protocol assigns to this piece, and for protocol version 2 the root and layers of the tree over the file's blocks.",
  ["inputs","schedules"],"all file layouts, piece sizes and schedules",
  "the tests hash two or three sample directories",
  ["src/v1_chunk_hasher_sb.cpp","src/v2_chunk_hasher_sb.cpp",I+"merkle_tree.hpp"],[("piece hashing","v1/v2 chunk hashers, merkle_tree::update")])
p("P30","Reading back a written metafile gives an equal metafile",
  "For every metafile with complete hashes, parsing the result of writing it yields a metafile that compares equal to it.",
  ["inputs"],"all metafiles and protocol versions",
  "round trips are tested on a handful of samples",
  ["src/metafile_serialization.cpp","src/metafile_parsing.cpp"],[("writer and reader","write_metafile, read_metafile")])
p("P31","Every loop of the library ends",
  "No operation runs forever by itself, whatever it is given: every repetition of a loop changes something that the end of the loop depends on and moves counters towards a bound that they can reach. Only loops that wait for another thread may repeat without a change of their own.",
  ["inputs"],"all inputs, all loops of the library",
  "a loop that does not end for some inputs is never met by tests that do not use such inputs",
  ["src/*.cpp",I+"*.hpp"],[("loops","every loop of every function, for example encode_magnet_uri, from_hexadecimal_string, percent_decode, split_query_string, chunk readers")])
p("P32","Errors of the cryptographic library keep their identity",
  "Every named error of the OpenSSL layer has the number that OpenSSL gives the reason of that name, and converts to an error code. An error code or exception made from such a name, or from OpenSSL's error queue, carries that number unchanged together with the library's own error category, of which there is exactly one object; the error queue is not emptied before it is asked for the reason of a failure. The text of an error is available for every number, also for those OpenSSL has no text for.",
  ["inputs","faults"],"all error numbers and all failures of OpenSSL",
  "tests cannot make OpenSSL fail, and never ask for the text of an unknown error",
  [I+"hasher/backends/openssl.hpp","src/hasher/backends/openssl.cpp"],[("error enumeration","evp_errc, make_error_code, is_error_code_enum"),("category","openssl_crypto_category: name, message"),("throw sites","message_digest: constructor, update, finalize_to, reset")])
p("P33","Small records hand out the parts they were made of",
  "A DHT node and an announce URL hold exactly the text and the number they were made from; get<0> and get<1>, on constant objects and others, and structured bindings refer to the URL and to the port or tier of the object itself, in this order. The text of a DHT node is its host, a colon and its port. The message of a parse error contains the field and the reason it was made with. The list of cryptographic backends names each library that is compiled in, with that library's version.",
  ["inputs"],"all texts and numbers",
  "the tests use no structured binding, text form or error message of these types",
  [I+"dht_node.hpp",I+"announce_url.hpp",I+"error.hpp",I+"hasher/backend_info.hpp"],[("records","dht_node, announce_url: constructors, get, tuple_size, tuple_element, conversion to string"),("parse_error","error.hpp"),("cryptographic_backends","backend_info.hpp")])
p("P34","What may be absent is read only where it is present",
  "No function of the library dereferences an optional without a value, the result of a search that found nothing, a pointer that a function of the library returned as null, or the data of a chunk that has none: whatever the metafile, the options or the file list contain, absence is answered by the default, the exception or the early return that the function documents.",
  ["inputs"],"all metafiles, options, file lists and chunks, with any optional part left out",
  "the tests pass inputs in which the optional parts they need are present",
  [I+"hash.hpp",I+"file_entry.hpp",I+"concurrent_queue_processor.hpp","src/metafile.cpp","src/metafile_parsing.cpp","src/file_entry.cpp","src/file_storage.cpp","src/storage_verifier.cpp","src/v1_chunk_hasher_sb.cpp","src/v2_chunk_hasher_sb.cpp"],[("optionals","make_hash_from_hex, file_entry attributes, metafile::add_tracker, worker items"),("search results","dictionary lookups of the metafile parsers, announce_url_list::find, file_storage::remove_file"),("nullable pointers","file_entry::get_checksum, data_chunk::data")])
p("P35","Lookups in a file list are exact and made in current data",
  "The contents and the number of directories of a file list are decided by whole path components, so a sibling whose name begins with the same characters is never taken for a part of a directory, and directories of the same name in different places are different ones; a file lies outside the root only if its relative path begins with the component '..'. The path index is used only after it was built, in the order of the paths, for the present files. The piece range of a file covers every piece it has bytes in. Changing the piece size drops the piece hashes and layers made with the old one, and a piece hash is handed out only if one is stored.",
  ["inputs","histories"],"all file lists, directory names and sequences of changes and queries",
  "the tests list one directory of one small storage",
  [I+"file_storage.hpp","src/file_storage.cpp","src/file_entry.cpp"],[("directories","file_storage::directory_contents, directory_count, make_file_entry"),("index","file_storage::index, index_valid"),("pieces","file_storage::get_pieces_offsets, set_piece_size, get_piece_hash")])
p("P36","Merkle trees are complete binary trees of digests",
  "A tree made for any positive number of leaves has the smallest power of two of leaves that is enough, one node less inside, and its layers lie one behind the other, each twice as long as the one before it; the positions of parent and children agree with this. Making a tree or setting its number of leaves gives every node the initial value, setting a leaf changes that leaf only, and the accessors return exactly the nodes asked for. Updating makes every inner node the digest of its left child followed by its right child, up to the root, and changes no leaf; the hasher a tree makes for itself is one for its own hash function. The helpers for rounding quotients and binary logarithms are exact.",
  ["inputs"],"all numbers of leaves, leaf values and positions",
  "the tests look at trees of a few sizes",
  [I+"merkle_tree.hpp",I+"utils.hpp"],[("geometry","merkle_tree::get_flat_index, get_node_layer, nodes_in_layer, parent"),("update","merkle_tree::update"),("rounding","utils.hpp: div_ceil, log2_floor, log2_ceil")])
p("P37","An announce list is exactly the trackers put into it",
  "An announce list holds exactly the trackers that were put into it and not taken out, each with its URL and tier. Building it from nested lists numbers the tiers in order; an insertion adds the given tracker and hands back its position; a removal takes out that tracker only, closes the gap if its tier became empty, and hands back the position behind it; removing something that is not there changes nothing. Size, tier count and sizes, element access, tier ranges, lookups by URL and by tracker, comparison and the nested form answer for exactly these trackers; trackers compare by tier and then URL.",
  ["histories"],"all sequences of insertions, removals and lookups",
  "the tests try a few lists; a wrong tier number or missed lookup shows only after particular histories",
  [I+"announce_url_list.hpp",I+"announce_url.hpp","src/announce_url_list.cpp"],[("list","announce_url_list: every member"),("tracker","announce_url: constructor, comparison"),("nested form","as_nested_vector")])
p("P38","Digests and checksums are exactly the bytes they were made from",
  "A digest made from bytes, text or hexadecimal text has exactly these bytes in this order, gives them out unchanged as bytes and as lower-case hexadecimal text, and compares by them, byte by byte; a new one is all zeros. Anything that is longer or shorter than the digest, and text that is not hexadecimal, is refused with an exception. A checksum made by name, by hash function or from hexadecimal text has the algorithm, name, length and bytes asked for, and is refused for bytes of another length; one of a name that is no hash function keeps this name and its bytes. Checksums are equal exactly when name and bytes are.",
  ["inputs"],"all digest types, all bytes and lengths",
  "the tests build digests of two or three functions from valid text",
  [I+"hash.hpp",I+"checksum.hpp"],[("digests","basic_hash: constructors, conversions, comparison, hex_string; make_hash_from_hex"),("checksums","checksum, basic_checksum, generic_checksum, make_checksum, make_checksum_from_hex")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")

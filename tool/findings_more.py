
fixed("P16", "85f0203", "move assignment of file_entry moved its own checksums onto itself instead of taking the source's")
fixed("P16", "b583433", "copies of a file_storage lost the file mode and the regular size and kept a stale index")
fixed("P17", "a6eab19", "file_storage::index_valid_ was indeterminate after construction")
fixed("P18", "7f0476d", "file_storage::clear did not reset the regular file size")
fixed("P17", "8ac6c0c", "metafile::protocol_ was indeterminate after construction")
fixed("P17", "e70f1c3", "magnet_uri::size_ was indeterminate after construction")
fixed("P17", "da25ed9", "dht_node::port was indeterminate after default construction")
fixed("P17", "408b71f", "indices of default-initialised hashed pieces were indeterminate")
fixed("P17", "4653bed", "default-initialised file_progress_data was indeterminate")
fixed("P17", "9f35323", "default-initialised merkle node positions were indeterminate")
fixed("P24", "8114362", "announce_url_list::insert and emplace returned an iterator invalidated by the insertion")
fixed("P24", "b8601ed", "urls of a tier were not sorted when an announce_url_list was built from a list, so lookups missed them")
fixed("P23", "748d9d1", "keywords of a magnet link were written without their parameter name, and the encoder did not return for two or more")
fixed("P23", "be4c64b", "a magnet keyword with an encoded plus sign was restored as two keywords")
fixed("P23", "a016872", "the parser rejected links that the encoder writes when there is no topic")
fixed("P31", "748d9d1", "the loop over magnet keywords did not advance")
fixed("P32", "3af43e6", "openssl::evp_errc did not convert to std::error_code: its trait was inherited privately")
fixed("P19", "af8dc21", "a metafile without an info dictionary ended the program by an assertion")
fixed("P19", "7593b4c", "a malformed DHT node in a metafile ended the program by an assertion")
fixed("P19", "1adaf73", "a file list with entries or paths of the wrong type ended the program by an assertion")
fixed("P19", "d01d6c4", "the target of a symlink was assigned through an empty optional")
fixed("P19", "f4b7840", "a negative file length was taken for a huge one")
fixed("P19", "95445eb", "negative values of the private field were accepted")
fixed("P19", "36bcf5f", "an invalid piece length ended the program by an assertion")
fixed("P19", "5c2c1c3", "a piece string of the wrong length ended the program by an assertion or was accepted")
fixed("P19", "1626999", "a hybrid metafile with different v1 and v2 file lists was read past the end")
fixed("P19", "9b5f261", "an empty tier in an announce list ended the program by an assertion")
fixed("P19", "4eddf12", "a metafile with an inconsistent symlink ended the program by an assertion")
fixed("P21", "57be15e", "path components, link targets and the name of a metafile were stored unchecked, so that paths could leave the download directory")
fixed("P20", "092c119", "the target of a symlink was written as 'symlink path' and looked for as 'symlink'")
fixed("P20", "37cd6bf", "attributes, link target and checksums of a single file were not written")
fixed("P20", "cb783e6", "checksums were not written to the file tree of a hybrid metafile")
fixed("P20", "ad1f6aa", "the file name of a hybrid single file metafile was overwritten by the name of the storage")
fixed("P13", "790f5c7", "missing and padding files did not count as read in the v1 reader")
fixed("P25", "395effa", "the v2 reader pushed a chunk before looking at the outcome of the read")
fixed("P25", "07b1be4", "the v2 reader pushed an empty chunk, past the last piece, after a file that ends with a full chunk")
fixed("P25", "5e2a5a0", "serialize_json_to wrote to the standard output and left the stream it was given empty")
fixed("P25", "0fb4b69", "load_metafile did not notice that the file could not be opened")
fixed("P25", "fe853b7", "failures to write a metafile were not reported")
known("P25", "dottorrent::v1_chunk_reader::run:size", "a file shorter or longer than recorded: v1_chunk_reader::run goes on with the next file at the wrong offset, so that the hashes of all later pieces are those of shifted data")
known("P25", "dottorrent::v2_chunk_reader::run:size", "a file shorter than recorded: v2_chunk_reader::run hands on fewer blocks, the tree of the file is never completed and hashing ends without an error")
fixed("P14", "d9c509b", "cancelling a job told all stages to stop at once: the reader could wait for ever for room in the queue of hashers that had left")
fixed("P14", "445a59d", "the v1 reader ended the program after a cancellation because not every piece had been read")
fixed("P14", "69a1d47", "waiting for cancelled workers blocked for ever on their full queue")
fixed("P14", "29852ee", "a cancelled queue processor ended the program because of work that was left in its queue")
known("P15", "dottorrent::v1_piece_verifier::piece_map_:observed", "v1_piece_verifier: result() and percentage() read piece_map_ while verify_finished_piece changes it on a worker thread, without atomicity or a lock (calling percentage() before wait())")
known("P15", "dottorrent::v2_piece_verifier::piece_map_:observed", "v2_piece_verifier: result() and percentage() read piece_map_ while verify_piece_layers_and_root changes it on a worker thread, without atomicity or a lock (calling percentage() before wait())")
known("P15", "dottorrent::file_entry::checksums:unlocked:checksums_", "file_entry::checksums() hands out the map without checksum_mutex_, while a checksum hasher may add to it")
fixed("P27", "a5ac2c8", "make_file_entry copied symlinks although only add_attributes was asked for: one of the two bits of copy_symlinks was taken for the option")
fixed("P35", "d9ecade", "a file inside the root whose name starts with two dots was refused as lying outside")
fixed("P35", "bed0d2b", "directory_contents and directory_count took files of 'ab' for contents of the directory 'a'")
fixed("P35", "d70cd7a", "directory_count counted directories of the same name in different parents once")
fixed("P35", "0838811", "get_pieces_offsets left out the last piece of files that do not start at a piece boundary")
fixed("P35", "d6b5088", "set_piece_size kept hashes computed with the old piece size; get_piece_hash could read past the stored hashes")

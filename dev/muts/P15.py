CRH="include/dottorrent/chunk_reader.hpp"; CBH="include/dottorrent/chunk_processor_base.hpp"; CB="src/chunk_processor_base.cpp"; QP="include/dottorrent/concurrent_queue_processor.hpp"; CR="src/chunk_reader.cpp"; V1="src/v1_chunk_reader.cpp"; V2="src/v2_chunk_reader.cpp"
SB="src/v2_chunk_hasher_sb.cpp"; FE="src/file_entry.cpp"; FEH="include/dottorrent/file_entry.hpp"; HEX="include/dottorrent/hex.hpp"; OS="src/hasher/backends/openssl.cpp"; PE="src/percent_encode.cpp"
VH="include/dottorrent/v1_piece_verifier.hpp"; VC="src/v1_piece_verifier.cpp"; HD="include/dottorrent/hasher/factory.hpp"
V2W="include/dottorrent/v2_piece_writer.hpp"
M=[
("bug","reader cancelled flag plain",[(CRH,"std::atomic<bool> cancelled_ = false;","bool cancelled_ = false;"),(CR,"cancelled_.store(true, std::memory_order_relaxed);","cancelled_ = true;"),(CR,"return cancelled_.load(std::memory_order_acquire);","return cancelled_;"),(V1,"cancelled_.load(std::memory_order_relaxed)",("cancelled_",)),(V2,"cancelled_.load(std::memory_order_relaxed)",("cancelled_",))]),
("bug","reader counter plain",[(CRH,"std::atomic<std::size_t> bytes_read_ = 0;","std::size_t bytes_read_ = 0;"),(CR,"return bytes_read_.load(std::memory_order_relaxed);","return bytes_read_;"),(V1,"bytes_read_.fetch_add(",("bytes_read_ += (",)),(V2,"bytes_read_.fetch_add(",("bytes_read_ += (",)),(V1,"size, std::memory_order_relaxed)","size)"),(V1,"f_.gcount(), std::memory_order_relaxed)","f_.gcount())"),(V2,"size_, std::memory_order_relaxed)","size_)"),(V2,"size, std::memory_order_relaxed)","size)"),(V2,"size(), std::memory_order_relaxed)","size())")]),
("bug","padding unlocked",[(SB,"                    std::unique_lock lck{padding_mutex_};\n","")]),
("bug","padding used after unlock",[(SB,'''                    padding_.resize(padding_size, std::byte{0});
                    sha1_hasher.update(padding_);
                }
''','''                    padding_.resize(padding_size, std::byte{0});
                }
                sha1_hasher.update(padding_);
''')]),
("bug","checksum added unlocked",[(FE,'''{
    std::unique_lock lck{checksum_mutex_};
    checksums_.emplace''','''{
    checksums_.emplace''')]),
("bug","get_checksum unlocked",[(FE,'''const checksum* file_entry::get_checksum(hash_function algorithm) const {
    std::unique_lock lck{checksum_mutex_};
''','''const checksum* file_entry::get_checksum(hash_function algorithm) const {
''')]),
("bug","remove unlocked",[(FEH,'''        std::unique_lock lck{checksum_mutex_};
        if (auto''','''        if (auto''')]),
("bug","queue processor plain done",[(QP,"    std::vector<std::atomic<bool>> done_;\n","    std::vector<bool> done_;\n"),(QP,"b.load(std::memory_order_relaxed)",("static_cast<bool>(b)",)),(QP,"[](auto& b)",("[](const auto& b)",)),(QP,"done_ = std::vector<std::atomic<bool>>(max_concurrency);","done_ = std::vector<bool>(max_concurrency);")]),
("bug","valid count field",[(VH,"    std::vector<std::uint8_t> piece_map_;\n","    std::vector<std::uint8_t> piece_map_;\n    std::size_t valid_pieces_ = 0;\n"),(VC,"    piece_map_[piece.index] =","    ++valid_pieces_;\n    piece_map_[piece.index] =")]),
("bug","piece map as bits",[(VH,"    std::vector<std::uint8_t> piece_map_;\n","    std::vector<std::uint8_t> piece_map_;\n    std::vector<bool> seen_ = std::vector<bool>(65536);\n"),(VC,"    piece_map_[piece.index] =","    seen_[piece.index % 65536] = true;\n    piece_map_[piece.index] =")]),
("bug","static buffer in hex",[(HEX,"    std::string s(data.size() * 2, ' ');","    static std::string s;\n    s.assign(data.size() * 2, ' ');")]),
("bug","static counter in openssl",[(OS,"void message_digest::update(std::span<const std::byte> data) {","void message_digest::update(std::span<const std::byte> data) {\n    static std::size_t calls = 0;\n    ++calls;\n")]),
("refactor","thread local buffer in hex",[(HEX,"    std::string s(data.size() * 2, ' ');","    thread_local std::string s;\n    s.assign(data.size() * 2, ' ');")]),
("bug","global cache in percent",[("include/dottorrent/percent_encoding.hpp","inline std::string percent_encode(std::string_view value)\n{\n    std::string s {};","inline std::string last_encoded;\ninline std::string percent_encode(std::string_view value)\n{\n    last_encoded = value;\n    std::string s {};")]),
("refactor","thread local counter",[(OS,"void message_digest::update(std::span<const std::byte> data) {","void message_digest::update(std::span<const std::byte> data) {\n    thread_local std::size_t calls = 0;\n    ++calls;\n")]),
("refactor","static const",[(OS,"void message_digest::update(std::span<const std::byte> data) {","void message_digest::update(std::span<const std::byte> data) {\n    static const std::size_t limit = 7;\n    (void) limit;\n")]),
("refactor","scoped lock",[(SB,"std::unique_lock lck{padding_mutex_};","std::scoped_lock lck{padding_mutex_};")]),
("refactor","local padding",[(SB,'''                {
                    std::unique_lock lck{padding_mutex_};
                    padding_.resize(padding_size, std::byte{0});
                    sha1_hasher.update(padding_);
                }
''','''                const std::vector<std::byte> padding(padding_size, std::byte{0});
                sha1_hasher.update(padding);
''')]),
("refactor","checksum lock helper",[(FE,'''    std::unique_lock lck{checksum_mutex_};
    checksums_.emplace(std::string(value->name()), std::move(value));''','''    const std::lock_guard guard{checksum_mutex_};
    auto name = std::string(value->name());
    checksums_.emplace(std::move(name), std::move(value));''')]),
("refactor","lock and unlock",[(SB,'''                    std::unique_lock lck{padding_mutex_};
                    padding_.resize(padding_size, std::byte{0});
                    sha1_hasher.update(padding_);
''','''                    std::unique_lock lck{padding_mutex_, std::defer_lock};
                    lck.lock();
                    padding_.resize(padding_size, std::byte{0});
                    sha1_hasher.update(padding_);
                    lck.unlock();
''')]),
("refactor","atomic operators",[(V1,"bytes_read_.fetch_add(",("bytes_read_ += (",)),(V2,"bytes_read_.fetch_add(",("bytes_read_ += (",)),(V1,"size, std::memory_order_relaxed)","size)"),(V1,"f_.gcount(), std::memory_order_relaxed)","f_.gcount())"),(V2,"size_, std::memory_order_relaxed)","size_)"),(V2,"size, std::memory_order_relaxed)","size)"),(V2,"size(), std::memory_order_relaxed)","size())")]),
("refactor","atomic valid count",[(VH,"    std::vector<std::uint8_t> piece_map_;\n","    std::vector<std::uint8_t> piece_map_;\n    std::atomic<std::size_t> valid_pieces_ = 0;\n"),(VC,"    piece_map_[piece.index] =","    ++valid_pieces_;\n    piece_map_[piece.index] =")]),
("refactor","private reader field",[(CRH,"    std::atomic<bool> started_ = false;\n","    std::atomic<bool> started_ = false;\n    std::size_t reads_ = 0;\n"),(V1,"            file_offsets_.push_back(chunk_offset_);\n            chunk_offset_ += f_.gcount();","            ++reads_;\n            file_offsets_.push_back(chunk_offset_);\n            chunk_offset_ += f_.gcount();")]),
]

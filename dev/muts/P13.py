A = "src/v1_chunk_reader.cpp"
B = "src/v2_chunk_reader.cpp"
HQ = "    for (auto& queue : hash_queues_) {\n        queue->push(data_chunk);\n    }\n"
CQ = "    for (auto& queue: checksum_queues_) {\n        queue->push(data_chunk);\n    }\n"
HQ2 = HQ.replace("data_chunk", "chunk"); CQ2 = CQ.replace("data_chunk", "chunk")
BR = "            bytes_read_.fetch_add(f_.gcount(), std::memory_order_relaxed);\n"
BR2 = "            bytes_read_.fetch_add(current_chunk_size_, std::memory_order_relaxed);\n"
PUSH2 = "            push({static_cast<std::uint32_t>(piece_index_),\n                  static_cast<std::uint32_t>(file_index_),\n                  chunk});\n"
NEW = "                chunk_.reset();\n                // recycle a new chunk from the pool\n                chunk_ = pool_.get();\n                chunk_->resize(chunk_size_);\n"
NEW2 = "            chunk.reset();\n            // recycle a new chunk from the pool\n            chunk = pool_.get();\n            chunk->resize(chunk_size_);\n"
LAST = "    if (chunk_offset_ != 0) [[likely]] {\n        chunk_->resize"
M = [
 ("bug", "nocheckq", [(A, CQ, "")]),
 ("bug", "onlyfirst", [(A, HQ, "    hash_queues_.front()->push(data_chunk);\n")]),
 ("bug", "break", [(A, CQ, "    for (auto& queue: checksum_queues_) {\n        queue->push(data_chunk);\n        if (!data_chunk.data) break;\n    }\n")]),
 ("bug", "skipnull", [(A, CQ, "    for (auto& queue: checksum_queues_) {\n        if (!data_chunk.data) continue;\n        queue->push(data_chunk);\n    }\n")]),
 ("bug", "return", [(A, CQ, "    if (hash_queues_.size() > 1) return;\n" + CQ)]),
 ("bug", "twice", [(B, HQ2, HQ2 + "    if (chunk.piece_index == 0)\n        for (auto& queue : hash_queues_) queue->push(chunk);\n")]),
 ("bug", "sameq", [(B, CQ2, CQ2.replace("checksum_queues_", "hash_queues_"))]),
 ("bug", "from1", [(B, HQ2, "    for (std::size_t i = 0; i < hash_queues_.size(); i += 1) {\n        if (i == 1 && !chunk.data) continue;\n        hash_queues_[i]->push(chunk);\n    }\n")]),
 ("bug", "nolast", [(A, LAST, LAST.replace("!= 0", "== chunk_size_"))]),
 ("bug", "lastgt", [(A, LAST, LAST.replace("chunk_offset_ != 0", "chunk_offset_ >= piece_size"))]),
 ("bug", "nocount", [(A, BR, "")]),
 ("bug", "nocount2", [(B, BR2, "")]),
 ("bug", "count3", [(A, "    bytes_read_.fetch_add(missing_file_size, std::memory_order_relaxed);\n", "")]),
 ("bug", "countcap", [(B, BR2, BR2.replace("current_chunk_size_", "chunk_size_"))]),
 ("bug", "countlate", [(A, BR, ""), (A, NEW, BR.replace("    bytes", "        bytes") + NEW)]),
 ("bug", "countpad", [(B, "            bytes_read_.fetch_add(file_entry.file_size(), std::memory_order_relaxed);\n", "")]),
 ("bug", "countmiss", [(B, "            bytes_read_.fetch_add(file_size, std::memory_order_relaxed);\n", "")]),
 ("bug", "nonew", [(A, NEW, "                chunk_->resize(chunk_size_);\n")]),
 ("bug", "nonew2", [(B, NEW2, "            chunk->resize(chunk_size_);\n")]),
 ("bug", "reuse", [(B, NEW2, "            if (piece_index_ == 0) {\n                chunk = pool_.get();\n            }\n            chunk->resize(chunk_size_);\n")]),
 ("bug", "label", [(B, "            piece_index_ += pieces_per_chunk;\n", "")]),
 ("bug", "labelcond", [(A, "                piece_index_ += pieces_per_chunk;\n            }\n            // eof", "                if (!f_.eof()) piece_index_ += pieces_per_chunk;\n            }\n            // eof")]),
 ("bug", "emptyonly", [(B, "            if (current_chunk_size_ == 0 && piece_index_ != 0) break;\n", "            if (current_chunk_size_ < piece_size && piece_index_ != 0) break;\n")]),
 ("bug", "pushfull", [(B, PUSH2, "            if (current_chunk_size_ == chunk_size_ || piece_index_ == 0)\n" + PUSH2)]),
 ("bug", "eofdrop", [(A, "            if (chunk_offset_ == chunk_size_) [[likely]] {", "            if (chunk_offset_ == chunk_size_ && f_.eof()) {\n                chunk_offset_ = 0;\n                chunk_ = pool_.get();\n            }\n            else if (chunk_offset_ == chunk_size_) [[likely]] {")]),
 ("bug", "movefirst", [(A, "void v1_chunk_reader::push(const data_chunk& data_chunk) {\n" + HQ, "void v1_chunk_reader::push(const data_chunk& chunk) {\n    auto data_chunk = chunk;\n" + HQ.replace("push(data_chunk)", "push(std::move(data_chunk))"))]),
 ("refactor", "order", [(A, HQ + CQ, CQ + HQ)]),
 ("refactor", "index", [(B, HQ2, "    for (std::size_t i = 0; i < hash_queues_.size(); ++i) {\n        hash_queues_[i]->push(chunk);\n    }\n")]),
 ("refactor", "iter", [(B, HQ2, "    for (auto it = hash_queues_.begin(); it != hash_queues_.end(); ++it) {\n        (*it)->push(chunk);\n    }\n")]),
 ("refactor", "foreach", [(B, HQ2, "    std::for_each(hash_queues_.begin(), hash_queues_.end(), [&](auto& queue) { queue->push(chunk); });\n")]),
 ("refactor", "helper", [(A, "void v1_chunk_reader::push(const data_chunk& data_chunk) {\n" + HQ, "static void push_all(std::vector<std::shared_ptr<concurrent_queue<data_chunk>>>& queues, const data_chunk& c)\n{\n    for (auto& q : queues) q->push(c);\n}\n\nvoid v1_chunk_reader::push(const data_chunk& data_chunk) {\n    push_all(hash_queues_, data_chunk);\n")]),
 ("refactor", "lambda", [(A, HQ + CQ, "    const auto to_all = [&](auto& queues) {\n        for (auto& queue : queues) queue->push(data_chunk);\n    };\n    to_all(hash_queues_);\n    to_all(checksum_queues_);\n")]),
 ("refactor", "empty", [(A, CQ, "    if (checksum_queues_.empty()) return;\n" + CQ)]),
 ("refactor", "countearly", [(B, BR2, ""), (B, "            current_chunk_size_ = f_.gcount();\n", "            current_chunk_size_ = f_.gcount();\n" + BR2)]),
 ("refactor", "pluseq", [(B, BR2, "            bytes_read_ += current_chunk_size_;\n")]),
 ("refactor", "local", [(A, "            chunk_offset_ += f_.gcount();\n" + BR, "            const auto n = f_.gcount();\n            bytes_read_.fetch_add(n, std::memory_order_relaxed);\n            chunk_offset_ += n;\n")]),
 ("refactor", "emit", [(A, NEW, "                next_chunk();\n"), (A, "void v1_chunk_reader::handle_missing_file()", "void v1_chunk_reader::next_chunk()\n{\n    chunk_.reset();\n    chunk_ = pool_.get();\n    chunk_->resize(chunk_size_);\n}\n\nvoid v1_chunk_reader::handle_missing_file()"), ("include/dottorrent/v1_chunk_reader.hpp", "    void handle_missing_file();", "    void handle_missing_file();\n    void next_chunk();")]),
 ("refactor", "pos", [(A, LAST, LAST.replace("!= 0", "> 0"))]),
 ("refactor", "noreset", [(B, "            chunk.reset();\n            // recycle", "            // recycle")]),
 ("refactor", "localchunk", [(B, PUSH2, "            const data_chunk item {static_cast<std::uint32_t>(piece_index_), static_cast<std::uint32_t>(file_index_), chunk};\n            push(item);\n")]),
]

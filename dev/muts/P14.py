SH="src/storage_hasher.cpp"; SV="src/storage_verifier.cpp"; CB="src/chunk_processor_base.cpp"; QP="include/dottorrent/concurrent_queue_processor.hpp"; CR="src/chunk_reader.cpp"; V1="src/v1_chunk_reader.cpp"
SB="src/chunk_hasher_single_buffer.cpp"
SHC='''    reader_->request_cancellation();
    reader_->wait();

    hasher_->request_cancellation();
    for (auto& ch : checksum_hashers_) { ch->request_cancellation(); }
    hasher_->wait();
    for (auto& ch : checksum_hashers_) { ch->wait(); }

    verifier_->request_cancellation();
    verifier_->wait();
'''
SVC='''    reader_->request_cancellation();
    reader_->wait();

    hasher_->request_cancellation();
    hasher_->wait();

    verifier_->request_cancellation();
    verifier_->wait();
'''
WAIT='''    while (!all_done()) {
        queue_->try_push({
                std::numeric_limits<std::uint32_t>::max(),
                std::numeric_limits<std::uint32_t>::max(),
                nullptr
        });
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
'''
M=[
("bug","hasher cancel at once",[(SH,SHC,'''    reader_->request_cancellation();
    hasher_->request_cancellation();
    reader_->wait();
    for (auto& ch : checksum_hashers_) { ch->request_cancellation(); }
    hasher_->wait();
    for (auto& ch : checksum_hashers_) { ch->wait(); }
    verifier_->request_cancellation();
    verifier_->wait();
''')]),
("bug","cancel forgets checksum hashers",[(SH,'''    hasher_->wait();
    for (auto& ch : checksum_hashers_) { ch->wait(); }

    verifier_->request_cancellation();''','''    hasher_->wait();

    verifier_->request_cancellation();''')]),
("bug","wait stops verifier first",[(SH,'''    hasher_->wait();
    for (auto& ch : checksum_hashers_) { ch->wait(); }

    verifier_->request_stop();
    verifier_->wait();
''','''    verifier_->request_stop();
    hasher_->wait();
    for (auto& ch : checksum_hashers_) { ch->wait(); }

    verifier_->wait();
''')]),
("bug","wait stops hasher before reader ended",[(SV,'''    reader_->wait();
    Expects(hasher_->running());

    // no''','''    hasher_->request_stop();
    reader_->wait();

    // no''')]),
("bug","verifier never waited",[(SV,'''    verifier_->request_stop();
    verifier_->wait();
    Expects(verifier_->done());
''','''    verifier_->request_stop();
''')]),
("bug","verifier cancel verifier first",[(SV,SVC,'''    verifier_->request_cancellation();
    verifier_->wait();

    reader_->request_cancellation();
    reader_->wait();

    hasher_->request_cancellation();
    hasher_->wait();
''')]),
("bug","verifier cancel skips hasher wait if done",[(SV,'''    hasher_->request_cancellation();
    hasher_->wait();
''','''    hasher_->request_cancellation();
    if (!hasher_->done())
        hasher_->wait();
''')]),
("bug","checksum wait only first",[(SH,'''    hasher_->wait();
    for (auto& ch : checksum_hashers_) { ch->wait(); }

    verifier_->request_stop();''','''    hasher_->wait();
    for (auto& ch : checksum_hashers_) { if (!ch->done()) ch->wait(); }

    verifier_->request_stop();''')]),
("bug","base wait blocking push",[(CB,"queue_->try_push({","queue_->push({")]),
("bug","processor wait blocking push",[(QP,"queue_->try_push(std::nullopt);","queue_->push(std::nullopt);")]),
("bug","base wait skips threads",[(CB,'''    for (auto& t : threads_) {
        t.join();
    }''','''    for (auto i = 1; i < threads_.size(); ++i) {
        threads_[i].join();
    }''')]),
("bug","base wait joins when not cancelled",[(CB,'''    for (auto& t : threads_) {
        t.join();
    }''','''    if (!cancelled()) {
        for (auto& t : threads_) {
            t.join();
        }
    }''')]),
("bug","base wait detaches",[(CB,'''        t.join();
''','''        if (cancelled()) t.detach(); else t.join();
''')]),
("bug","base wait returns early when cancelled",[(CB,'''    if (!started()) return;
''','''    if (!started() || cancelled()) return;
''')]),
("bug","processor never wakes",[(QP,'''            queue_->try_push(std::nullopt);
            std::this''','''            std::this''')]),
("bug","processor joins one",[(QP,'''        for (auto& t : threads_) {
            t.join();
        }''','''        if (!threads_.empty())
            threads_.front().join();''')]),
("bug","drain assert unconditional",[(QP,"Ensures(cancelled_.load(std::memory_order_relaxed) || !item.has_value());","Ensures(!item.has_value());")]),
("bug","processor done skipped after cancel",[(QP,'''                std::invoke(work_function_, std::move(*item));
            }
        }
        done_[thread_idx] = true;''','''                std::invoke(work_function_, std::move(*item));
            }
            done_[thread_idx] = true;
        }''')]),
("bug","v1 reader assertion",[(V1,"Ensures(cancelled_.load(std::memory_order_relaxed) || piece_index_ == storage.piece_count());","Ensures(piece_index_ == storage.piece_count());")]),
("bug","reader wait when not cancelled",[(CR,'''    thread_.join();
''','''    if (!cancelled()) thread_.join();
''')]),
("bug","reader wait detach",[(CR,'''    thread_.join();
''','''    if (cancelled()) thread_.detach();
    else thread_.join();
''')]),
("refactor","processor join in helper",[(QP,'''        // should all be finished by now and ready to join
        for (auto& t : threads_) {
            t.join();
        }
        Expects(done());
    }
''','''        join_all();
        Expects(done());
    }

    void join_all()
    {
        for (auto& t : threads_) {
            if (t.joinable()) t.join();
        }
    }
''')]),
("refactor","join with ranges",[(CB,'''    for (auto& t : threads_) {
        t.join();
    }''','''    rng::for_each(threads_, [](std::jthread& t) { t.join(); });''')]),
("refactor","join by index",[(CB,'''    for (auto& t : threads_) {
        t.join();
    }''','''    for (std::size_t i = 0; i != threads_.size(); ++i) {
        threads_[i].join();
    }''')]),
("refactor","cancel helper",[(SV,SVC,'''    const auto stop = [](auto& stage) {
        stage->request_cancellation();
        stage->wait();
    };
    stop(reader_);
    stop(hasher_);
    stop(verifier_);
''')]),
("refactor","merge checksum loops",[(SH,'''    hasher_->request_cancellation();
    for (auto& ch : checksum_hashers_) { ch->request_cancellation(); }
    hasher_->wait();
    for (auto& ch : checksum_hashers_) { ch->wait(); }
''','''    hasher_->request_cancellation();
    hasher_->wait();
    for (auto& ch : checksum_hashers_) {
        ch->request_cancellation();
        ch->wait();
    }
''')]),
("refactor","index loop over checksum hashers",[(SH,'''    hasher_->wait();
    for (auto& ch : checksum_hashers_) { ch->wait(); }

    verifier_->request_cancellation();''','''    hasher_->wait();
    for (std::size_t i = 0; i < checksum_hashers_.size(); ++i) { checksum_hashers_[i]->wait(); }

    verifier_->request_cancellation();''')]),
("refactor","checksum hashers first",[(SH,'''    hasher_->request_stop();
    for (auto& ch : checksum_hashers_) { ch->request_stop(); }
    hasher_->wait();
    for (auto& ch : checksum_hashers_) { ch->wait(); }
''','''    for (auto& ch : checksum_hashers_) { ch->request_stop(); }
    for (auto& ch : checksum_hashers_) { ch->wait(); }
    hasher_->request_stop();
    hasher_->wait();
''')]),
("refactor","wake lambda",[(CB,WAIT,'''    const auto wake = [this] {
        data_chunk sentinel {
                std::numeric_limits<std::uint32_t>::max(),
                std::numeric_limits<std::uint32_t>::max(),
                nullptr
        };
        queue_->try_push(std::move(sentinel));
    };
    for (; !all_done(); std::this_thread::sleep_for(std::chrono::milliseconds(1)))
        wake();
''')]),
("refactor","reader joinable",[(CR,'''    thread_.join();
''','''    if (thread_.joinable()) {
        thread_.join();
    }
''')]),
("refactor","drain with early leave",[(QP,'''        if (queue_->size() != 0) {
            while (queue_->try_pop(item)) {
                Ensures(cancelled_.load(std::memory_order_relaxed) || !item.has_value());
            }
        }''','''        while (queue_->try_pop(item)) {
            if (cancelled()) continue;
            Ensures(!item.has_value());
        }''')]),
("refactor","v1 assertion in if",[(V1,'''    Ensures(cancelled_.load(std::memory_order_relaxed) || piece_index_ == storage.piece_count());''','''    if (!cancelled()) {
        Ensures(piece_index_ == storage.piece_count());
    }''')]),
("refactor","guard clause split",[(SH,'''    if (!started_) {
        cancelled_ = true;
        return;
    }
''','''    cancelled_ = !started_;
    if (cancelled_) return;
''')]),
 ("bug", "join-last", [(QP, "        for (auto& t : threads_) {\n            t.join();\n        }\n        Expects(done());", "        for (std::size_t i = 0; i + 1 < threads_.size() || i == 0; ++i) {\n            threads_[i].join();\n        }\n        Expects(done());")]),
 ("bug", "join-last2", [(QP, "        for (auto& t : threads_) {\n            t.join();\n        }\n        Expects(done());", "        const auto n = threads_.size() - 1;\n        for (std::size_t i = 0; i != n; ++i) {\n            threads_[i].join();\n        }\n        Expects(done());")]),
 ("refactor", "join-idx2", [(QP, "        for (auto& t : threads_) {\n            t.join();\n        }\n        Expects(done());", "        const auto n = threads_.size();\n        for (std::size_t i = 0; i != n; ++i) {\n            threads_[i].join();\n        }\n        Expects(done());")]),
 ("refactor", "join-idx3", [(QP, "        for (auto& t : threads_) {\n            t.join();\n        }\n        Expects(done());", "        const auto n = threads_.size() + 1;\n        for (std::size_t i = 0; i + 1 < n; ++i) {\n            threads_[i].join();\n        }\n        Expects(done());")]),
 ("refactor", "join-down", [(QP, "        for (auto& t : threads_) {\n            t.join();\n        }\n        Expects(done());", "        for (std::size_t i = threads_.size(); i > 0; --i) {\n            threads_[i - 1].join();\n        }\n        Expects(done());")]),
]

A = "include/dottorrent/announce_url_list.hpp"
U = "include/dottorrent/announce_url.hpp"
N = "src/announce_url_list.cpp"
M = [
 ("bug", "ctor-tier-one", [(A, "std::size_t tier = 0;\n", "std::size_t tier = 1;\n")]),
 ("bug", "ctor-empty", [(A, "rng::move(tmp, std::back_inserter(announce_list_));", ";")]),
 ("bug", "ctor-no-tier", [(A, "            ++tier;\n", "")]),
 ("bug", "front-back", [(A, "auto front() -> reference\n    { return announce_list_.front(); }", "auto front() -> reference\n    { return announce_list_.back(); }")]),
 ("bug", "tier-count", [(A, "announce_list_.back().tier + 1", "announce_list_.back().tier")]),
 ("bug", "tier-count-front", [(A, "announce_list_.back().tier + 1", "announce_list_.front().tier + 1")]),
 ("bug", "insert-strict", [(A, "    auto insert(announce_url&& announce)\n    {\n        Expects(announce.tier <= tier_count());", "    auto insert(announce_url&& announce)\n    {\n        Expects(announce.tier < tier_count());")]),
 ("bug", "emplace-zero", [(A, "return announce_list_.emplace(it, url, tier);", "return announce_list_.emplace(it, url);")]),
 ("bug", "erase-shifts", [(A, "if (tier_begin->tier != pos_tier) {", "if (tier_begin->tier == pos_tier) {")]),
 ("bug", "contains-first", [(A, "for (std::size_t tier = 0; tier <= tier_count(); ++tier)", "for (std::size_t tier = 1; tier <= tier_count(); ++tier)")]),
 ("bug", "contains-last-tier", [(A, "for (std::size_t tier = 0; tier <= tier_count(); ++tier)", "for (std::size_t tier = 0; tier + 1 < tier_count(); ++tier)")]),
 ("bug", "tier-end-lower", [(A, "    auto get_tier_end(std::size_t tier) -> iterator\n    {\n        const auto tmp = announce_url(\"\", tier);\n        return std::upper_bound(", "    auto get_tier_end(std::size_t tier) -> iterator\n    {\n        const auto tmp = announce_url(\"\", tier);\n        return std::lower_bound(")]),
 ("bug", "find-not-end", [(A, "    auto find(const announce_url& value) -> iterator\n    {\n        const auto [tier_begin, tier_end] = get_tier(value.tier);\n        auto it = std::find(tier_begin, tier_end, value);\n        return (it == tier_end) ? announce_list_.end() : it;", "    auto find(const announce_url& value) -> iterator\n    {\n        const auto [tier_begin, tier_end] = get_tier(value.tier);\n        auto it = std::find(tier_begin, tier_end, value);\n        return it;")]),
 ("bug", "nested-last", [(N, "idx < announces.tier_count(); ++idx", "idx + 1 < announces.tier_count(); ++idx")]),
 ("bug", "url-truncated", [(U, "            : url(url)", "            : url(url.substr(0, 36))")]),
 ("bug", "cmp-url-first", [(U, "auto tier_cmp = tier <=> that.tier;\n        if (tier_cmp  == std::strong_ordering::equal) {\n            return std::compare_strong_order_fallback(url, that.url);\n        }\n        return tier_cmp;", "auto url_cmp = url <=> that.url;\n        if (url_cmp == std::strong_ordering::equal) return tier <=> that.tier;\n        return url_cmp;")]),
 ("bug", "erase-all-equal", [(A, "        if (auto it = find(announce); it != announce_list_.end())\n            return erase(it);", "        if (auto it = find(announce.url); it != announce_list_.end())\n            return erase(it);")]),
 ("refactor", "loop-shift", [(A, "std::for_each(next_it, announce_list_.end(),\n                        [](announce_url& a) { --a.tier; });", "for (auto it = next_it; it != announce_list_.end(); ++it)\n                    it->tier -= 1;")]),
 ("refactor", "contains-loop", [(A, "            auto range = get_tier(tier);\n            bool exists = std::binary_search(range.first, range.second, url, url_comparator);\n            if (exists) return true;", "            const auto [first, last] = get_tier(tier);\n            if (std::find_if(first, last, [&](const announce_url& a) { return a.url == url; }) != last) return true;")]),
 ("refactor", "tiers-lower-bound", [(A, "        Expects(tier <= tier_count());\n\n        auto [begin, end] = get_tier(tier);\n        auto it = std::upper_bound(begin, end, url, url_comparator);\n        return announce_list_.emplace(it, url, tier);", "        return insert(announce_url(url, tier));")]),
 ("refactor", "nested-loop", [(N, "        std::transform(begin, end, std::back_inserter(result[idx]),\n                       [](const announce_url& a) { return  a.url; });", "        for (auto it = begin; it != end; ++it)\n            result[idx].push_back(it->url);")]),
 ("refactor", "nested-tier-of", [(N, "    for (auto idx = 0; idx < announces.tier_count(); ++idx) {\n        auto [begin, end] = announces.get_tier(idx);\n        std::transform(begin, end, std::back_inserter(result[idx]),\n                       [](const announce_url& a) { return  a.url; });\n    }", "    for (const auto& a : announces) result[a.tier].push_back(a.url);")]),
]

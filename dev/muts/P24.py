A = "include/dottorrent/announce_url_list.hpp"
MF = "src/metafile.cpp"
INS = "        return announce_list_.insert(it, announce);"
CT = """            std::vector<announce_url> tmp {};
            for (const auto& url : level) {
                tmp.emplace_back(url, tier);
            }
            rng::sort(tmp, url_comparator);
            rng::move(tmp, std::back_inserter(announce_list_));
            ++tier;"""
ER = """        auto pos_tier = pos->tier;
        auto next_it = announce_list_.erase(pos);
"""
GAP = """        if (next_it != announce_list_.end() && next_it->tier != pos_tier) {
            auto tier_begin = get_tier_begin(pos_tier);
            // check if we deleted the last element of the tier.
            if (tier_begin->tier != pos_tier) {
                std::for_each(next_it, announce_list_.end(),
                        [](announce_url& a) { --a.tier; });
            }
        }
        return next_it;"""
UB = "        auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce);\n" + INS
EM = "        auto it = std::upper_bound(begin, end, url, url_comparator);"
M = [
 ("bug", "orig1", [(A, INS, "        announce_list_.insert(it, announce);\n        return it;")]),
 ("bug", "orig2", [(A, CT, "            for (const auto& url : level) {\n                std::vector<announce_url> tmp {};\n                tmp.emplace_back(url, tier);\n                rng::sort(tmp, url_comparator);\n                rng::move(tmp, std::back_inserter(announce_list_));\n            }\n            ++tier;")]),
 ("bug", "append", [(A, UB, "        return announce_list_.insert(announce_list_.end(), announce);")]),
 ("bug", "pushback", [(A, UB, "        announce_list_.push_back(announce);\n        return std::prev(announce_list_.end());")]),
 ("bug", "urlcmp", [(A, UB, "        auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), std::string_view(announce.url), url_comparator);\n" + INS)]),
 ("bug", "wrongtier", [(A, "        auto [begin, end] = get_tier(tier);\n" + EM, "        auto [begin, end] = get_tier(0);\n" + EM)]),
 ("bug", "tierend", [(A, "        auto [begin, end] = get_tier(tier);\n" + EM, "        auto [begin, end] = get_tier(tier);\n        auto it = end;")]),
 ("bug", "eraseuse", [(A, ER, "        auto next_it = announce_list_.erase(pos);\n        auto pos_tier = pos->tier;\n")]),
 ("bug", "nogapcheck", [(A, "            if (tier_begin->tier != pos_tier) {\n", "            if (tier_begin != announce_list_.end()) {\n")]),
 ("bug", "mfuse", [(MF, "            announce_url old = *it;\n            announce_list_.insert(std::move(announce));\n            announce_list_.erase(old);", "            announce_list_.insert(std::move(announce));\n            announce_list_.erase(it);")]),
 ("bug", "nosort", [(A, "            rng::sort(tmp, url_comparator);\n", "")]),
 ("bug", "sortearly", [(A, CT, CT.replace("            rng::sort(tmp, url_comparator);\n", "").replace("            for (const auto& url", "            rng::sort(tmp, url_comparator);\n            for (const auto& url"))]),
 ("ok", "early", [(A, GAP, "        if (next_it == announce_list_.end() || next_it->tier == pos_tier) return next_it;\n        auto tier_begin = get_tier_begin(pos_tier);\n        if (tier_begin->tier == pos_tier) return next_it;\n        for (auto it = next_it; it != announce_list_.end(); ++it) { --it->tier; }\n        return next_it;")]),
 ("ok", "tiersize", [(A, GAP, GAP.replace("            auto tier_begin = get_tier_begin(pos_tier);\n", "").replace("tier_begin->tier != pos_tier", "tier_size(pos_tier) == 0"))]),
 ("ok", "helper", [(A, UB, "        return put_at(std::upper_bound(announce_list_.begin(), announce_list_.end(), announce), announce);"), (A, "private:\n    static constexpr auto tier_comparator", "private:\n    iterator put_at(iterator it, const announce_url& a) { return announce_list_.insert(it, a); }\n    static constexpr auto tier_comparator")]),
 ("ok", "ctor-sort", [(A, CT, "            for (const auto& url : level) {\n                announce_list_.emplace_back(url, tier);\n            }\n            ++tier;"), (A, "            ++tier;\n        }\n", "            ++tier;\n        }\n        std::sort(announce_list_.begin(), announce_list_.end());\n")]),
 ("ok", "lb", [(A, "        auto [begin, end] = get_tier(tier);\n" + EM, "        auto range = get_tier(tier);\n        auto it = std::lower_bound(range.first, range.second, url, url_comparator);")]),
 ("ok", "emplacevia", [(A, "        auto [begin, end] = get_tier(tier);\n" + EM + "\n        return announce_list_.emplace(it, url, tier);", "        return insert(announce_url(url, tier));")]),
 ("ok", "reassign", [(A, UB, "        auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce);\n        it = announce_list_.insert(it, announce);\n        return it;")]),
 ("ok", "rngub", [(A, UB, "        auto it = rng::upper_bound(announce_list_, announce);\n" + INS)]),
 ("ok", "movins", [(A, CT, CT.replace("rng::move(tmp, std::back_inserter(announce_list_));", "announce_list_.insert(announce_list_.end(), tmp.begin(), tmp.end());"))]),
 ("bug", "gap-dist", [(A, "        if (next_it != announce_list_.end() && next_it->tier != pos_tier) {", "        if (std::distance(next_it, announce_list_.end()) > 1 && next_it->tier != pos_tier) {")]),
 ("bug", "gap-none", [(A, "        if (next_it != announce_list_.end() && next_it->tier != pos_tier) {", "        if (std::next(pos) != announce_list_.begin() && announce_list_.size() > 5 && next_it != announce_list_.end() && next_it->tier != pos_tier) {")]),
 ("bug", "gap-size", [(A, "        if (next_it != announce_list_.end() && next_it->tier != pos_tier) {", "        if (announce_list_.size() > 2 && next_it != announce_list_.end() && next_it->tier != pos_tier) {")]),
 ("refactor", "gap-dist", [(A, "        if (next_it != announce_list_.end() && next_it->tier != pos_tier) {", "        if (std::distance(next_it, announce_list_.end()) > 0 && next_it->tier != pos_tier) {")]),
 ("refactor", "gap-early", [(A, "        if (next_it != announce_list_.end() && next_it->tier != pos_tier) {", "        if (next_it == announce_list_.end()) return next_it;\n        if (next_it->tier != pos_tier) {")]),
 ("refactor", "gap-empty", [(A, "        if (next_it != announce_list_.end() && next_it->tier != pos_tier) {", "        if (announce_list_.empty()) return next_it;\n        if (next_it != announce_list_.end() && next_it->tier != pos_tier) {")]),
]

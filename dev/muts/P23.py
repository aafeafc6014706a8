H = "include/dottorrent/magnet_uri.hpp"
C = "src/magnet_uri.cpp"
TR = """    for (const auto& tr : magnet.trackers()) {
        rng::copy("&tr="sv, out);
        rng::copy(detail::percent_encode(tr), out);
    }
"""
DN = """    if (!magnet.display_name().empty()) {
        rng::copy("&dn="sv, out);
        rng::copy(detail::percent_encode(magnet.display_name()), out);
    }
"""
KW = """        auto it = magnet.keywords().begin();
        rng::copy("&kt="sv, out);
        rng::copy(detail::percent_encode(*it++), out);

        while (it != magnet.keywords().end()) {
            *out++ = '+';
            rng::copy(detail::percent_encode(*it++), out);
        }
"""
TOP = """    for (const auto& topic : magnet.topics()) {
        if (first) {
            rng::copy("xt="sv, out);
            first = false;
        }
        else {
            rng::copy("&xt="sv, out);
        }
        rng::copy(topic, out);
    }
"""
WS = """    for (const auto& ws : magnet.web_seeds()) {
        rng::copy("&ws="sv, out);
        rng::copy(detail::percent_encode(ws), out);
    }
"""
M = [
 ("bug", "noprogress", [(H, "percent_encode(*it++), out);\n        }", "percent_encode(*it), out);\n        }")]),
 ("bug", "nokt", [(H, '        rng::copy("&kt="sv, out);\n', "")]),
 ("bug", "emptypart", [(C, "        if (part.empty()) {\n            continue;\n        }\n", "")]),
 ("bug", "decodefirst", [(C, "split_keywords_string(value);", "split_keywords_string(dec);"), (C, "            auto keywords =", "            auto dec = detail::percent_decode(value);\n            auto keywords ="), (C, "add_keyword(detail::percent_decode(kw))", "add_keyword(kw)")]),
 ("bug", "keyswap", [(H, '"&ws="', '"&as="')]),
 ("bug", "bothswap", [(H, '"&ws="', '"&TMP="'), (H, '"&as="', '"&ws="'), (H, '"&TMP="', '"&as="'), (C, 'key == "ws"', 'key == "TMP"'), (C, 'key == "as"', 'key == "ws"'), (C, 'key == "TMP"', 'key == "as"')]),
 ("bug", "parserkey", [(C, 'key == "xs"', 'key == "es"')]),
 ("bug", "parserfield", [(C, "result.set_manifest(", "result.set_exact_source(")]),
 ("bug", "setter", [(H, "manifest_ = std::move(manifest);", "exact_source_ = std::move(manifest);")]),
 ("bug", "noamp", [(H, '"&mt="', '"mt="')]),
 ("bug", "noenc", [(H, TR, TR.replace("detail::percent_encode(tr)", "tr"))]),
 ("bug", "nodec", [(C, "result.add_web_seed(detail::percent_decode(value))", "result.add_web_seed(value)")]),
 ("bug", "twice", [(C, "result.add_tracker(detail::percent_decode(value))", "result.add_tracker(detail::percent_decode(detail::percent_decode(value)))")]),
 ("bug", "sizeguard", [(H, "magnet.size() != 0", "magnet.size() > 1024")]),
 ("bug", "skiptr", [(H, TR, TR.replace('        rng::copy("&tr="sv', '        if (tr.starts_with("udp")) continue;\n        rng::copy("&tr="sv'))]),
 ("bug", "breaktr", [(H, TR, TR.replace('out);\n    }', 'out);\n        break;\n    }'))]),
 ("bug", "nextonly", [(H, "        while (it != magnet.keywords().end()) {", "        if (it != magnet.keywords().end()) {")]),
 ("bug", "wrongsrc", [(H, "percent_encode(magnet.manifest())", "percent_encode(magnet.exact_source())")]),
 ("bug", "condpair", [(H, "    if (!magnet.manifest().empty()) {", "    if (!magnet.manifest().empty() && magnet.exact_source().empty()) {")]),
 ("bug", "firststuck", [(H, "            first = false;\n", "")]),
 ("bug", "narrow", [(C, "std::size_t xl_value;", "std::uint32_t xl_value;")]),
 ("bug", "base16", [(C, "value.data()+value.size(), xl_value);", "value.data()+value.size(), xl_value, 16);")]),
 ("bug", "valueoff", [(C, "substr(offset+1)};", "substr(offset)};")]),
 ("bug", "lastpart", [(C, "            parts.emplace_back(it, ampersand_it);\n            break;", "            break;")]),
 ("bug", "btmh", [(C, '"urn:btmh:1220{}", info_hash_v2', '"urn:btmh:1220{}", info_hash_v1')]),
 ("bug", "prefix", [(C, '"urn:btmh:1220{}"', '"urn:btmh:{}"')]),
 ("bug", "hybridelse", [(C, "        if ((protocol & protocol::v2) == protocol::v2) {", "        else if ((protocol & protocol::v2) == protocol::v2) {")]),
 ("bug", "noseeds", [(C, "    for (const auto& ws : m.web_seeds()) {\n        magnet.add_web_seed(ws);\n    }\n", "")]),
 ("bug", "trkprivate", [(C, "        magnet.add_tracker(tr.url);", "        if (tr.tier == 0) magnet.add_tracker(tr.url);")]),
 ("bug", "assigncont", [(H, "        trackers_.emplace_back(std::move(tracker));", "        trackers_ = {std::move(tracker)};")]),
 ("bug", "storecond", [(C, "            result.set_exact_source(detail::percent_decode(value));", "            if (result.exact_source().empty() && value.size() > 4) result.set_exact_source(detail::percent_decode(value));")]),
 ("ok", "helper", [(H, "template <std::output_iterator<char> OutputIterator>\nvoid encode_magnet_uri", "namespace detail {\ntemplate <std::output_iterator<char> OutputIterator>\nvoid write_parameter(std::string_view name, std::string_view value, OutputIterator out)\n{\n    rng::copy(name, out);\n    rng::copy(percent_encode(value), out);\n}\n}\n\ntemplate <std::output_iterator<char> OutputIterator>\nvoid encode_magnet_uri"), (H, DN, '    if (!magnet.display_name().empty()) {\n        detail::write_parameter("&dn="sv, magnet.display_name(), out);\n    }\n'), (H, TR, '    for (const auto& tr : magnet.trackers()) {\n        detail::write_parameter("&tr="sv, tr, out);\n    }\n')]),
 ("ok", "kwloop", [(H, KW, """        rng::copy("&kt="sv, out);
        for (auto it = magnet.keywords().begin(); it != magnet.keywords().end(); ++it) {
            if (it != magnet.keywords().begin()) {
                *out++ = '+';
            }
            rng::copy(detail::percent_encode(*it), out);
        }
""")]),
 ("ok", "kwfirst", [(H, KW, """        rng::copy("&kt="sv, out);
        bool first_kw = true;
        for (const auto& kw : magnet.keywords()) {
            if (!first_kw) { *out++ = '+'; }
            first_kw = false;
            rng::copy(detail::percent_encode(kw), out);
        }
""")]),
 ("ok", "sep", [(H, TOP, """    std::string_view prefix = "xt="sv;
    for (const auto& topic : magnet.topics()) {
        rng::copy(prefix, out);
        rng::copy(topic, out);
        prefix = "&xt="sv;
    }
""")]),
 ("ok", "index", [(H, TR, """    const auto& trackers = magnet.trackers();
    for (std::size_t i = 0; i < trackers.size(); ++i) {
        rng::copy("&tr="sv, out);
        rng::copy(detail::percent_encode(trackers[i]), out);
    }
""")]),
 ("ok", "lambda", [(H, WS, """    auto put = [&](std::string_view name, std::string_view v) {
        rng::copy(name, out);
        rng::copy(detail::percent_encode(v), out);
    };
    for (const auto& ws : magnet.web_seeds()) { put("&ws="sv, ws); }
""")]),
 ("ok", "rngforeach", [(H, WS, """    rng::for_each(magnet.web_seeds(), [&](const auto& ws) {
        rng::copy("&ws="sv, out);
        rng::copy(detail::percent_encode(ws), out);
    });
""")]),
 ("ok", "string", [(H, DN, '    if (const auto& name = magnet.display_name(); !name.empty()) {\n        std::string part = "&dn=" + detail::percent_encode(name);\n        rng::copy(part, out);\n    }\n')]),
 ("ok", "order", [(H, DN, ""), (H, TR, TR + DN)]),
 ("ok", "sizepos", [(H, "magnet.size() != 0", "magnet.size() > 0")]),
 ("ok", "elseif", [(C, '        if (key == "xt") {', '        else if (key == "xt") {')]),
 ("ok", "swapcond", [(C, '        if (key == "dn") {', '        if ("dn" == key) {')]),
 ("ok", "once", [(C, '            result.add_tracker(detail::percent_decode(value));', '            auto decoded = detail::percent_decode(value);\n            result.add_tracker(std::move(decoded));')]),
 ("ok", "kwinline", [(C, "            auto keywords = detail::split_keywords_string(value);\n            for (auto kw : keywords) {", "            for (auto kw : detail::split_keywords_string(value)) {")]),
 ("ok", "splitfor", [(C, """        if (ampersand_it != end) {
            parts.emplace_back(it, ampersand_it);
            it = std::next(ampersand_it);
        }
        else {
            parts.emplace_back(it, ampersand_it);
            break;
        }""", """        parts.emplace_back(it, ampersand_it);
        if (ampersand_it == end) {
            break;
        }
        it = ampersand_it + 1;""")]),
 ("ok", "pair", [(C, "    auto offset = std::distance(uri_query_string.begin(), it);\n", "    const auto offset = static_cast<std::size_t>(it - uri_query_string.begin());\n")]),
 ("ok", "switchproto", [(C, "    if (m.storage().protocol() == protocol::hybrid) {", "    const auto storage_protocol = m.storage().protocol();\n    if (storage_protocol == protocol::hybrid) {"), (C, "else if (m.storage().protocol() == protocol::v1)", "else if (storage_protocol == protocol::v1)"), (C, "else if (m.storage().protocol() == protocol::v2)", "else if (storage_protocol == protocol::v2)")]),
 ("ok", "guardwrap", [(C, """        if (part.empty()) {
            continue;
        }
""", "        if (part.size() == 0) continue;\n")]),
 ("ok", "backins", [(C, "    std::string result {};\n    encode_magnet_uri(magnet, std::back_inserter(result));", "    std::string result;\n    auto it = std::back_inserter(result);\n    encode_magnet_uri(magnet, it);")]),
 ("ok", "findpos", [(C, """    auto it = rng::find(uri_query_string, '=');
    if (it == uri_query_string.end()) {
        throw std::invalid_argument("not a key-value pair");
    }
    auto offset = std::distance(uri_query_string.begin(), it);
""", """    const auto offset = uri_query_string.find('=');
    if (offset == std::string_view::npos) {
        throw std::invalid_argument("not a key-value pair");
    }
""")]),
 ("bug", "split-key-rfind", [(C, "    auto offset = std::distance(uri_query_string.begin(), it);\n", "    auto offset = std::distance(uri_query_string.begin(), it);\n    if (offset > 3) offset = 2;\n")]),
 ("bug", "parts-limit", [(C, "    std::vector<std::string_view> parts;\n\n    auto it = uri_query_string.begin();\n    auto end = uri_query_string.end();\n\n    while (it != end) {", "    std::vector<std::string_view> parts;\n\n    auto it = uri_query_string.begin();\n    auto end = uri_query_string.end();\n\n    while (it != end && parts.size() < 16) {")]),
 ("bug", "int-size", [(C, "std::size_t xl_value;", "std::uint32_t xl_value;")]),
 ("bug", "kw-skip-short", [(C, "result.add_keyword(detail::percent_decode(kw));", "if (kw.size() > 1) result.add_keyword(detail::percent_decode(kw));")]),
 ("bug", "set-name-first", [(H, "        display_name_ = std::move(name);", "        if (display_name_.empty() && name.size() > 1) display_name_ = std::move(name);")]),
 ("bug", "add-tracker-dedupe", [(H, "        trackers_.emplace_back(std::string(tracker));", "        if (trackers_.empty() || trackers_.back().size() != tracker.size()) trackers_.emplace_back(std::string(tracker));")]),
]

F = "src/metafile_parsing.cpp"
CK = "        check_path_component(component, \"path\");\n"
NK = "        check_path_component(name, \"name\");\n"
TK = "                check_path_component(key, \"file tree\");\n"
MK = "            check_path_component(desc, key);\n"
H1 = "    if (component.empty() || component == \".\" || component == \"..\") {"
H2 = "    if (component.find('/') != std::string_view::npos ||\n        component.find(static_cast<char>(fs::path::preferred_separator)) != std::string_view::npos ||\n        component.find('\\0') != std::string_view::npos)\n    {"
BODY_A = "static void check_path_component(std::string_view component, std::string_view key)\n{\n" + H1
M = [
 ("bug", "nocheck_path", [(F, CK, "")]),
 ("bug", "nocheck_name", [(F, NK, "")]),
 ("bug", "nocheck_tree", [(F, TK, "")]),
 ("bug", "nocheck_title", [(F, MK, "")]),
 ("bug", "nodotdot", [(F, H1, "    if (component.empty() || component == \".\") {")]),
 ("bug", "nodot", [(F, H1, "    if (component.empty() || component == \"..\") {")]),
 ("bug", "noempty", [(F, H1, "    if (component == \".\" || component == \"..\") {")]),
 ("bug", "nosep", [(F, "    if (component.find('/') != std::string_view::npos ||\n        component.find(static", "    if (component.find('\\\\') != std::string_view::npos ||\n        false && component.find(static")]),
 ("bug", "andor", [(F, H1, "    if (component.empty() || (component == \".\" && component == \"..\")) {")]),
 ("bug", "onlyfirst", [(F, CK, "        if (p.empty()) check_path_component(component, \"path\");\n")]),
 ("bug", "onlylast", [(F, CK + "        p /= component;", "        p /= component;\n    }\n    if (!blist.empty()) {\n        check_path_component(bc::get_as<std::string_view>(blist.back()), \"path\");")]),
 ("bug", "wrongvar", [(F, NK, "        check_path_component(\"name\", name);\n")]),
 ("bug", "symlink_raw", [(F, "        symlink = parse_path(it->second);\n    }\n\n    file_entry entry(std::move(path), size, attributes, symlink);", "        symlink = fs::path(bencode::get_as<std::string_view>(it->second));\n    }\n\n    file_entry entry(std::move(path), size, attributes, symlink);")]),
 ("bug", "startswith", [(F, "    if (component.find('/') != std::string_view::npos ||\n", "    if (component.starts_with('/') ||\n"), (F, "        component.find(static_cast<char>(fs::path::preferred_separator)) != std::string_view::npos ||\n", "")]),
 ("bug", "swallow", [(F, CK, "        try { check_path_component(component, \"path\"); } catch (const parse_error&) { }\n")]),
 ("bug", "leaf", [(F, TK, "                if (!value.empty()) check_path_component(key, \"file tree\");\n")]),
 ("refactor", "inlinecheck", [(F, CK, "        if (component.empty() || component == \".\"sv || component == \"..\"sv || component.find_first_of(\"/\\\\\"sv) != std::string_view::npos) throw parse_error(\"path\", \"bad component\");\n")]),
 ("refactor", "boolhelper", [(F, CK, "        if (!is_valid_component(component)) throw parse_error(\"path\", \"bad component\");\n"), (F, "/// Path components of a metafile must", "static bool is_valid_component(std::string_view c)\n{\n    if (c.empty()) return false;\n    if (c == \".\" || c == \"..\") return false;\n    return c.find('/') == std::string_view::npos;\n}\n\n/// Path components of a metafile must")]),
 ("refactor", "boolexpr", [(F, CK, "        const bool ok = !component.empty() && component != \".\" && component != \"..\" && component.find('/') == std::string_view::npos;\n        if (!ok) throw parse_error(\"path\", \"bad component\");\n")]),
 ("refactor", "loopsep", [(F, H2, "    bool bad = false;\n    for (char c : component) {\n        if (c == '/' || c == '\\0') { bad = true; break; }\n    }\n    if (bad) {")]),
 ("refactor", "loopthrow", [(F, H2, "    for (char c : component) {\n        if (c == '/' || c == '\\0') throw parse_error(key, \"separator\");\n    }\n    if (component.size() > 4096) {")]),
 ("refactor", "anyof", [(F, H2, "    if (std::any_of(component.begin(), component.end(), [](char c) { return c == '/' || c == '\\0'; })) {")]),
 ("refactor", "split", [(F, H1, "    if (component.size() == 0) {\n        throw parse_error(key, \"empty path component\");\n    }\n    const bool special = component == \".\" || component == \"..\";\n    if (special) {")]),
 ("refactor", "append", [(F, CK + "        p /= component;", CK + "        p.append(component);")]),
 ("refactor", "local_string", [(F, CK + "        p /= component;", "        const std::string text(component);\n        check_path_component(text, \"path\");\n        p = p / text;")]),
 ("refactor", "pathlocal", [(F, NK + "        path = name;", NK + "        fs::path file_name(name);\n        path = std::move(file_name);")]),
 ("refactor", "index", [(F, "    for (auto& path_component : blist) {\n        const auto component = bc::get_as<std::string_view>(path_component);", "    for (std::size_t i = 0; i < blist.size(); ++i) {\n        const auto component = bc::get_as<std::string_view>(blist[i]);")]),
 ("refactor", "treelocal", [(F, TK, "                const std::string component(key);\n                check_path_component(component, \"file tree\");\n"), (F, "path_components.push_back(std::string(key));", "path_components.push_back(component);")]),
 ("refactor", "treeemplace", [(F, "path_components.push_back(std::string(key));", "path_components.emplace_back(key);")]),
 ("refactor", "filepath_div", [(F, "file_path.append(component);", "file_path /= component;")]),
 ("refactor", "setnamelocal", [(F, "            const auto& desc = get_string(it->second);\n            check_path_component(desc, key);\n            m.set_name(desc);", "            const std::string name(get_string(it->second));\n            check_path_component(name, key);\n            m.set_name(name);")]),
]

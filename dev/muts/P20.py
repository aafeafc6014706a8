W = "src/metafile_serialization.cpp"
R = "src/metafile_parsing.cpp"
def line(s): return s
ATT1 = '''            if (file.attributes()) {
                file_info["attr"] = file.attributes().value();
            }
            if (file.is_symlink()) {
                file_info["symlink path"] = file.symlink_path().value();
            }
'''
V2CK = '''        for (const auto& [algo, checksum] : file.checksums()) {
            file_info[algo] = checksum->value();
        }

        ptr->insert_or_assign("", file_info);
        // reset ptr to root of file tree
        ptr = &file_tree;
    }

    info.insert_or_assign("file tree", std::move(bfile_tree));

    // only'''
COM = '''    if (!m.comment().empty()) {
        btorrent.insert_or_assign("comment", m.comment());
    }
'''
COL = '''    if (!m.collections().empty()) {
        btorrent.insert_or_assign("collections", m.collections());
    }
'''
M = [
 ("bug", "commentkey", [(W, '"comment", m.comment()', '"Comment", m.comment()')]),
 ("bug", "commentval", [(W, '"comment", m.comment()', '"comment", m.created_by()')]),
 ("bug", "nocomment", [(W, COM, "")]),
 ("bug", "commentcond", [(W, "if (!m.comment().empty()) {", "if (!m.created_by().empty()) {")]),
 ("bug", "commentneg", [(W, "if (!m.comment().empty()) {", "if (m.comment().empty()) {")]),
 ("bug", "createdby", [(W, '"created by"', '"created_by"')]),
 ("bug", "createdbyr", [(R, '"created by"', '"created_by"')]),
 ("bug", "date", [(W, 'btorrent.insert_or_assign("creation date", m.creation_date().count());', 'btorrent.insert_or_assign("creation date", std::to_string(m.creation_date().count()));')]),
 ("bug", "collplace", [(W, COL, "")]),
 ("bug", "httpweb", [(W, '"httpseeds", m.http_seeds()', '"httpseeds", m.web_seeds()')]),
 ("bug", "webkey", [(W, '"url-list", m.web_seeds()', '"url_list", m.web_seeds()')]),
 ("bug", "nodes", [(W, '"nodes", m.dht_nodes()', '"node", m.dht_nodes()')]),
 ("bug", "attr1", [(W, ATT1, ATT1.replace('"attr"', '"attributes"'))]),
 ("bug", "noattr1", [(W, ATT1, ATT1[ATT1.index("            if (file.is_symlink"):])]),
 ("bug", "symlist", [(W, ATT1, ATT1.replace('"symlink path"', '"symlink"'))]),
 ("bug", "v2nocheck", [(W, V2CK, V2CK[V2CK.index("        ptr->insert"):])]),
 ("bug", "knownkey", [(R, '        "source"sv,\n    };', '        "source"sv,\n        "cross_seed_entry"sv,\n    };')]),
 ("bug", "pathstr", [(W, '''            file_info["path"] = file.path();

            if (file.attributes()) {
                file_info["attr"] = file.attributes().value();
            }
            if''', '''            file_info["path"] = file.path().string();

            if (file.attributes()) {
                file_info["attr"] = file.attributes().value();
            }
            if''')]),
 ("bug", "lenread", [(R, 'auto length_field_it = file_dict.find("length");\n    if (length_field_it == file_dict.end()) {\n        throw parse_error("name", "missing file size");\n    }\n    const auto length = bencode::get_integer(length_field_it->second);\n    if (length < 0) {\n        throw parse_error("length", "expected a non-negative integer");\n    }\n    std::size_t size = length;\n\n    // file attributes\n    std::optional<file_attributes> attributes = parse_file_attributes(data);\n\n    // symlinks', 'auto length_field_it = file_dict.find("size");\n    if (length_field_it == file_dict.end()) {\n        throw parse_error("name", "missing file size");\n    }\n    const auto length = bencode::get_integer(length_field_it->second);\n    if (length < 0) {\n        throw parse_error("length", "expected a non-negative integer");\n    }\n    std::size_t size = length;\n\n    // file attributes\n    std::optional<file_attributes> attributes = parse_file_attributes(data);\n\n    // symlinks')]),
 ("bug", "attrr", [(R, 'file_dict.find("attr")', 'file_dict.find("attrs")')]),
 ("bug", "hybridname", [(W, "    if (storage.file_mode() != file_mode::single) {\n        if (m.name().empty()) {", "    {\n        if (m.name().empty()) {")]),
 ("bug", "parsenosource", [(R, '''        detail::parse_pieces_v1(data, m);
        detail::parse_source(data, m);
''', '''        detail::parse_pieces_v1(data, m);
''')]),
 ("bug", "parsenocomment2", [(R, '''    else if (protocol == protocol::v2) {
        detail::parse_announce(data, m);
        detail::parse_private(data, m);
        detail::parse_comment(data, m);
''', '''    else if (protocol == protocol::v2) {
        detail::parse_announce(data, m);
        detail::parse_private(data, m);
''')]),
 ("refactor", "helperput", [(W, "bencode::bvalue make_bvalue_common(const metafile& m)\n{", '''static void put_comment(bencode::bvalue& bd, const metafile& m)
{
    const auto& text = m.comment();
    if (text.empty()) return;
    get_dict(bd).insert_or_assign("comment", text);
}

bencode::bvalue make_bvalue_common(const metafile& m)
{'''), (W, COM, "    put_comment(torrent, m);\n")]),
 ("refactor", "readcommon", [(R, "template<bc::bvalue_or_bview T>\nmetafile parse_metafile(const T& data)\n{", "template <bc::bvalue_or_bview T>\nstatic void parse_texts(const T& data, metafile& m)\n{\n    detail::parse_created_by(data, m);\n    detail::parse_comment(data, m);\n}\n\ntemplate <bc::bvalue_or_bview T>\nmetafile parse_metafile(const T& data)\n{"), (R, "    else if (protocol == protocol::v2) {\n        detail::parse_announce(data, m);\n        detail::parse_private(data, m);\n        detail::parse_comment(data, m);\n        detail::parse_created_by(data, m);\n", "    else if (protocol == protocol::v2) {\n        parse_texts(data, m);\n        detail::parse_announce(data, m);\n        detail::parse_private(data, m);\n")]),
 ("bug", "readskip", [(R, "    else if (protocol == protocol::v2) {\n        detail::parse_announce(data, m);\n        detail::parse_private(data, m);\n        detail::parse_comment(data, m);\n", "    else if (protocol == protocol::v2) {\n        detail::parse_announce(data, m);\n        detail::parse_private(data, m);\n        if (detail::check_if_hybrid(data)) detail::parse_comment(data, m);\n")]),
 ("refactor", "order", [(W, COM, ""), (W, COL, COL + COM)]),
 ("refactor", "localval", [(W, COM, '''    if (const auto& c = m.comment(); !c.empty()) {
        btorrent["comment"] = c;
    }
''')]),
 ("refactor", "constkey", [(W, COM, COM.replace('"comment"', 'key_comment')), (W, "bencode::bvalue make_bvalue_common(const metafile& m)\n{", 'static constexpr auto key_comment = "comment";\nbencode::bvalue make_bvalue_common(const metafile& m)\n{')]),
 ("refactor", "hybridname2", [(W, "    // the name of a single file metafile is the name of the file\n    if (storage.file_mode() != file_mode::single) {", "    if (const bool single = storage.file_mode() == file_mode::single; !single) {")]),
 ("refactor", "readcontains", [(R, '''    if (auto it = file_dict.find("symlink path"); it != file_dict.end()) {
        symlink = parse_path(it->second);
    }

    file_entry entry(std::move''', '''    if (file_dict.contains("symlink path")) {
        symlink = parse_path(file_dict.at("symlink path"));
    }

    file_entry entry(std::move''')]),
 ("refactor", "attrhelper", [(W, ATT1, '''            put_file_fields(file_info, file);
'''), (W, "bencode::bvalue make_bvalue_infodict_v1(", '''static void put_file_fields(bencode::bvalue& file_info, const file_entry& file)
{
    if (const auto a = file.attributes()) {
        file_info["attr"] = *a;
    }
    if (file.is_symlink()) {
        file_info["symlink path"] = file.symlink_path().value();
    }
}

bencode::bvalue make_bvalue_infodict_v1(''')]),
 ("refactor", "singleelse", [(W, '''    else if (storage.file_mode() == file_mode::multi) {
        bencode::bvalue file_list(bc::btype::list);
        auto& bfile_list = get_list(file_list);
        bfile_list.reserve(storage.file_count());

        for (auto& file : storage) {
            auto file_info = bc::bvalue(bc::btype::dict);
            file_info["length"] = file.file_size();
            file_info["path"] = file.path();

            if (file.attributes()) {
                file_info["attr"] = file.attributes().value();
            }
            if''', '''    if (file_mode::multi == storage.file_mode()) {
        bencode::bvalue file_list(bc::btype::list);
        auto& bfile_list = get_list(file_list);
        bfile_list.reserve(storage.file_count());

        for (auto& file : storage) {
            auto file_info = bc::bvalue(bc::btype::dict);
            file_info["length"] = file.file_size();
            file_info["path"] = file.path();

            if (file.attributes()) {
                file_info["attr"] = file.attributes().value();
            }
            if''')]),
]

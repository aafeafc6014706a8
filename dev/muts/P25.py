A = "src/v1_chunk_reader.cpp"
B = "src/v2_chunk_reader.cpp"
C = "src/metafile.cpp"
CHK2 = "            if (f_.fail() && !f_.eof()) {\n                throw std::runtime_error(\n                        fmt::format(\"I/O error reading: {}\", file_entry.path().string()));\n            }\n"
CHK1 = "            if (f_.fail()) [[unlikely]] {\n                throw std::runtime_error(\n                        fmt::format(\"I/O error reading: {}\", file_entry.path().string()));\n            }\n"
OPN = "    if (!ifs) {\n        throw std::runtime_error(\"could not open \" + path.string());\n    }\n"
SAV = "    ofs.close();\n\n    if (!ofs) {\n        throw std::runtime_error(\"could not write \" + path.string());\n    }\n"
EOF1 = "            if (f_.eof())  [[unlikely]] break;\n"
M = [
 ("bug", "nochk2", [(B, CHK2, "")]),
 ("bug", "chk2bad", [(B, "f_.fail() && !f_.eof()", "f_.fail() && f_.eof()")]),
 ("bug", "chk2late", [(B, CHK2, ""), (B, "            if (f_.eof()) break;\n", "            if (f_.eof()) break;\n" + CHK2)]),
 ("bug", "chk2empty", [(B, CHK2, CHK2.replace("            if (f_.fail() && !f_.eof()) {", "            if (f_.fail() && !f_.eof() && current_chunk_size_ != 0) {"))]),
 ("bug", "nochk1", [(A, EOF1 + CHK1, "            if (!f_) break;\n")]),
 ("bug", "breakfail", [(A, EOF1, "            if (f_.eof() || f_.fail()) break;\n")]),
 ("bug", "noopen", [(C, OPN, "")]),
 ("bug", "openinv", [(C, OPN, OPN.replace("!ifs", "ifs"))]),
 ("bug", "nosave", [(C, SAV, "")]),
 ("bug", "noclose", [(C, SAV, SAV.replace("    ofs.close();\n\n", ""))]),
 ("bug", "savebefore", [(C, "    write_metafile_to(ofs, m, protocol_version);\n" + SAV, SAV.replace("    ofs.close();\n\n", "") + "    write_metafile_to(ofs, m, protocol_version);\n")]),
 ("bug", "closeonly", [(C, SAV, "    ofs.close();\n")]),
 ("bug", "nodump", [(C, "    if (!file) {\n        throw std::runtime_error(\"could not write \" + dst.string());\n    }\n", "")]),
 ("bug", "cout", [(C, "to_json(os)", "to_json(std::cout)")]),
 ("bug", "iter", [(C, "    os.write(data.data(), static_cast<std::streamsize>(data.size()));\n", "    std::copy(data.begin(), data.end(), std::ostreambuf_iterator<char>(os));\n")]),
 ("bug", "savecond", [(C, "    if (!ofs) {\n        throw std::runtime_error(\"could not write \"", "    if (!ofs && ofs.is_open()) {\n        throw std::runtime_error(\"could not write \"")]),
 ("refactor", "readbool", [(B, "            f_.read(reinterpret_cast<char*>(chunk->data()), chunk_size_);\n            current_chunk_size_ = f_.gcount();\n\n" + CHK2, "            const bool good = static_cast<bool>(f_.read(reinterpret_cast<char*>(chunk->data()), chunk_size_));\n            current_chunk_size_ = f_.gcount();\n            if (!good && !f_.eof()) throw std::runtime_error(\"I/O error\");\n")]),
 ("refactor", "nested", [(B, CHK2, "            if (!f_.eof()) {\n                if (!f_) throw std::runtime_error(\"I/O error\");\n            }\n")]),
 ("refactor", "order1", [(A, EOF1 + CHK1, "            if (f_.fail() && !f_.eof()) {\n                throw std::runtime_error(\"I/O error\");\n            }\n            if (f_.eof()) break;\n")]),
 ("refactor", "isopen", [(C, OPN, OPN.replace("!ifs", "!ifs.is_open()"))]),
 ("refactor", "openelse", [(C, OPN, "    if (ifs.fail()) {\n        throw std::runtime_error(\"could not open \" + path.string());\n    }\n")]),
 ("refactor", "flush", [(C, SAV, SAV.replace("ofs.close", "ofs.flush").replace("!ofs", "ofs.fail()"))]),
 ("refactor", "good", [(C, SAV, "    ofs.close();\n    if (ofs.good()) return;\n    throw std::runtime_error(\"could not write \" + path.string());\n")]),
 ("refactor", "exc", [(C, SAV, "    ofs.close();\n"), (C, "    write_metafile_to(ofs, m, protocol_version);\n", "    ofs.exceptions(std::ios::failbit | std::ios::badbit);\n    write_metafile_to(ofs, m, protocol_version);\n")]),
 ("refactor", "helper", [(C, SAV, "    finish(ofs, path);\n"), (C, "void save_metafile(", "static void finish(std::ofstream& out, const std::filesystem::path& path)\n{\n    out.close();\n    if (!out) {\n        throw std::runtime_error(\"could not write \" + path.string());\n    }\n}\n\nvoid save_metafile(")]),
 ("refactor", "opencheck", [(B, "        f_.open(file_path, std::ios::binary);\n", "        f_.open(file_path, std::ios::binary);\n        if (!f_.is_open()) throw std::runtime_error(\"cannot open\");\n")]),
 ("refactor", "shift", [(C, "    os.write(data.data(), static_cast<std::streamsize>(data.size()));\n", "    os << data;\n")]),
 ("refactor", "helperread", [(B, "            f_.read(reinterpret_cast<char*>(chunk->data()), chunk_size_);\n            current_chunk_size_ = f_.gcount();\n\n" + CHK2, "            current_chunk_size_ = read_some(f_, reinterpret_cast<char*>(chunk->data()), chunk_size_);\n"), (B, "void v2_chunk_reader::run()", "static std::size_t read_some(std::ifstream& in, char* to, std::size_t n)\n{\n    in.read(to, n);\n    if (in.fail() && !in.eof()) throw std::runtime_error(\"I/O error\");\n    return in.gcount();\n}\n\nvoid v2_chunk_reader::run()")]),
]

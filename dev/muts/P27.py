FE="src/file_entry.cpp"; FH="include/dottorrent/file_entry.hpp"
SYM="""    return attributes_ ?
           (*attributes_ & file_attributes::symlink) == file_attributes::symlink :
           false;
"""
B="include/dottorrent/bitmask_operators.hpp"; L="include/dottorrent/literals.hpp"; G="include/dottorrent/general.hpp"
M=[
 ("bug","xorassign",[(B,"static_cast<T>(lhs) ^ static_cast<T>(rhs));\n    return lhs;","static_cast<T>(lhs) | static_cast<T>(rhs));\n    return lhs;")]),
 ("bug","trunc",[(B,"static_cast<T>(lhs) & static_cast<T>(rhs));\n}","static_cast<T>(lhs) & static_cast<int>(rhs));\n}")]),
 ("bug","not",[(B,"~static_cast<T>(lhs)","static_cast<T>(lhs) ^ static_cast<T>(0xff)")]),
 ("bug","byval",[(B,"operator|=(Enum& lhs, Enum rhs) -> Enum&","operator|=(Enum& lhs, Enum rhs) -> Enum")]),
 ("bug","mib",[(L,"return value*1024*1024;","return value*1024*1000;")]),
 ("bug","tib",[(L,"return value*1024*1024*1024*1024;","return static_cast<std::uint16_t>(value)*1024ull*1024*1024*1024;")]),
 ("bug","gb",[(L,"return value*1000*1000*1000;\n","return value*(1000u << 20);\n")]),
 ("bug","bits",[(L,"value / 8","(value & 0xffff) / 8")]),
 ("bug","attr",[(G,"if ((v & file_attributes::hidden) == file_attributes::hidden)","else if ((v & file_attributes::hidden) == file_attributes::hidden)")]),
 ("bug","attr2",[(G,"case 'h': attributes |= file_attributes::hidden;       break;","case 'h': attributes = file_attributes::hidden;       break;")]),
 ("bug","attrbit",[(G,"padding_file = 8","padding_file = 6")]),
 ("refactor","swap",[(B,"static_cast<T>(lhs) | static_cast<T>(rhs));\n    return lhs;","static_cast<T>(rhs) | static_cast<T>(lhs));\n    return lhs;")]),
 ("refactor","viaop",[(B,"    using T = typename std::underlying_type<Enum>::type;\n    lhs = static_cast<Enum>(\n            static_cast<T>(lhs) | static_cast<T>(rhs));\n    return lhs;","    return lhs = lhs | rhs;")]),
 ("refactor","shift",[(L,"return value*1024*1024;","return value << 20;")]),
 ("refactor","strs",[(G,"    std::string out = \"\";\n    if (v == file_attributes::none) return out;","    std::string out;\n    out.reserve(4);")]),
 ("refactor","lits",[(L,"return value*1024*1024;","return (value * 1_KiB) * 1024;")]),

 ("bug","anybit",[(FE,"(options & file_options::copy_symlinks) == file_options::copy_symlinks","(options & file_options::copy_symlinks) != file_options::none")]),
 ("bug","anybit2",[(FE,"(options & file_options::copy_symlinks) == file_options::copy_symlinks","!((file_options::copy_symlinks & options) == file_options::none)")]),
 ("bug","wrongattr",[(FE,SYM,SYM.replace("symlink","hidden"))]),
 ("bug","wrongattr2",[(FE,SYM,SYM.replace("(*attributes_ & file_attributes::symlink)","(*attributes_ & file_attributes::executable)"))]),
 ("bug","absent",[(FE,SYM,SYM.replace("false","true"))]),
 ("bug","opposite",[(FE,SYM,SYM.replace("==","!="))]),
 ("refactor","bits",[(FE,"(options & file_options::copy_symlinks) == file_options::copy_symlinks","file_options::copy_symlinks == (file_options::copy_symlinks & options)")]),
 ("refactor","bits2",[(FE,"(options & file_options::copy_symlinks) == file_options::copy_symlinks","!((options & file_options::copy_symlinks) != file_options::copy_symlinks)")]),
 ("refactor","sym-early",[(FE,SYM,"    if (!attributes_) return false;\n    return (*attributes_ & file_attributes::symlink) != file_attributes::none;\n")]),
 ("refactor","sym-and",[(FE,SYM,"    return attributes_.has_value() && (*attributes_ & file_attributes::symlink) == file_attributes::symlink;\n")]),
 ("refactor","sym-or",[(FE,SYM,"    return !(!attributes_ || (*attributes_ & file_attributes::symlink) != file_attributes::symlink);\n")]),
 ("refactor","sym-val",[(FE,SYM,"    return (attributes_.value_or(file_attributes::none) & file_attributes::symlink) == file_attributes::symlink;\n")]),
 ("refactor","sym-loc",[(FE,SYM,"    const bool known = attributes_.has_value();\n    if (!known) return false;\n    const auto a = *attributes_;\n    return (a & file_attributes::symlink) == file_attributes::symlink;\n")]),
 ("refactor","sym-if",[(FE,SYM,"    if (attributes_) {\n    if ((*attributes_ & file_attributes::symlink) == file_attributes::symlink) return true; }\n    return false;\n")]),
 ("refactor","helper",[(FE,SYM,"    return has_flag(file_attributes::symlink);\n"),(FE,"bool file_entry::is_symlink()","bool file_entry::has_flag(file_attributes f) const noexcept { return attributes_ && (*attributes_ & f) == f; }\n\nbool file_entry::is_symlink()"),(FH,"    friend class file_storage;","    bool has_flag(file_attributes f) const noexcept;\n    friend class file_storage;")]),
 ("refactor","helper3",[(FE,SYM,"    return has_flag(attributes_, file_attributes::symlink);\n"),(FE,"bool file_entry::is_symlink()","static bool has_flag(const std::optional<file_attributes>& a, file_attributes f) { return a && (*a & f) == f; }\n\nbool file_entry::is_symlink()")]),
 ("bug", "hidden-or-exec", [("src/file_entry.cpp", "           (*attributes_ & file_attributes::hidden) == file_attributes::hidden :", "           (*attributes_ & (file_attributes::hidden | file_attributes::executable)) != file_attributes::none :")]),
 ("refactor", "hidden-any", [("src/file_entry.cpp", "           (*attributes_ & file_attributes::hidden) == file_attributes::hidden :", "           (*attributes_ & file_attributes::hidden) != file_attributes::none :")]),
 ("refactor", "hidden-first", [("src/file_entry.cpp", "    return attributes_ ?\n           (*attributes_ & file_attributes::hidden) == file_attributes::hidden :\n           false;", "    if (!attributes_ || (*attributes_ & file_attributes::hidden) == file_attributes::none) return false;\n    return *attributes_ != file_attributes::none;")]),
]

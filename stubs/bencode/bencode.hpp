// Analysis model of the bencode library (absent from the sandbox). Declarations only.
#pragma once
#include <cstddef>
#include <cstdint>
#include <concepts>
#include <exception>
#include <stdexcept>
#include <istream>
#include <ostream>
#include <map>
#include <string>
#include <string_view>
#include <vector>
#include <utility>
#include <memory>
#include <compare>
#include <span>
#include <stack>
#include <fmt/format.h>
#include <type_traits>

namespace bencode {
enum class btype { uninitialized, integer, string, list, dict };
enum class bencode_type { uninitialized, integer, string, list, dict };

struct exception : std::runtime_error { using std::runtime_error::runtime_error; };
struct bad_access : exception { using exception::exception; };
struct bad_conversion : exception { using exception::exception; };
struct out_of_range : exception { using exception::exception; };
struct decoding_error : exception { using exception::exception; };
struct parsing_error : exception { using exception::exception; };

template <class T> struct customization_point_type {};
template <class T> inline constexpr customization_point_type<T> customization_for{};
template <class T> struct serializes_to : std::integral_constant<int, 0> {};

template <class T>
concept event_consumer = requires(T& t) { t.list_begin(); t.list_end(); t.list_item(); };

class bvalue {
public:
    using integer_type = std::int64_t;
    using string_type = std::string;
    using list_type = std::vector<bvalue>;
    using dict_type = std::map<std::string, bvalue, std::less<>>;
    bvalue() noexcept; bvalue(const bvalue&); bvalue(bvalue&&) noexcept;
    explicit bvalue(btype t);
    template <class T> requires (!std::same_as<std::remove_cvref_t<T>, bvalue> && !std::same_as<std::remove_cvref_t<T>, btype>)
    bvalue(T&& v);
    bvalue& operator=(const bvalue&); bvalue& operator=(bvalue&&) noexcept;
    template <class T> requires (!std::same_as<std::remove_cvref_t<T>, bvalue>)
    bvalue& operator=(T&& v);
    ~bvalue();
    bvalue& operator[](std::string_view key); bvalue& operator[](std::string&& key);
    bvalue& operator[](const char* key); bvalue& operator[](const std::string& key);
    bvalue& operator[](std::size_t i); const bvalue& operator[](std::size_t i) const;
    bvalue& at(std::string_view key); const bvalue& at(std::string_view key) const;
    bvalue& at(std::size_t i); const bvalue& at(std::size_t i) const;
    btype type() const noexcept;
    bool contains(std::string_view) const; std::size_t size() const noexcept; bool empty() const noexcept;
    void clear() noexcept;
    bool operator==(const bvalue&) const; std::partial_ordering operator<=>(const bvalue&) const;
    friend bvalue::dict_type& get_dict(bvalue&);
    friend const bvalue::dict_type& get_dict(const bvalue&);
};
bvalue::dict_type& get_dict(bvalue&); const bvalue::dict_type& get_dict(const bvalue&);
bvalue::list_type& get_list(bvalue&); const bvalue::list_type& get_list(const bvalue&);
bvalue::string_type& get_string(bvalue&); const bvalue::string_type& get_string(const bvalue&);
bvalue::integer_type& get_integer(bvalue&); const bvalue::integer_type& get_integer(const bvalue&);
bool holds_dict(const bvalue&) noexcept; bool holds_list(const bvalue&) noexcept;
bool holds_string(const bvalue&) noexcept; bool holds_integer(const bvalue&) noexcept;
bool is_dict(const bvalue&) noexcept; bool is_list(const bvalue&) noexcept;
bool is_string(const bvalue&) noexcept; bool is_integer(const bvalue&) noexcept;

class list_bview; class dict_bview; class string_bview; class integer_bview;
class bview {
public:
    using integer_type = std::int64_t;
    using string_type = std::string_view;
    using list_type = list_bview;
    using dict_type = dict_bview;
    bview() noexcept; bview(const bview&) noexcept; bview& operator=(const bview&) noexcept;
    operator bvalue() const;
    const bview at(std::string_view) const; const bview at(std::size_t) const;
    const bview operator[](std::size_t) const;
    std::size_t size() const noexcept; bool empty() const noexcept; bool contains(std::string_view) const;
    bool operator==(const bview&) const;
protected:
    const void* desc_; const char* buf_;
};
class integer_bview : public bview { public: operator std::int64_t() const; std::int64_t value() const; };
class string_bview : public bview { public:
    operator std::string_view() const noexcept; std::string_view value() const noexcept;
    const char* data() const noexcept; const char* begin() const noexcept; const char* end() const noexcept;
    std::size_t length() const noexcept; std::string_view substr(std::size_t p = 0, std::size_t n = std::string_view::npos) const; };
class list_bview : public bview { public:
    struct const_iterator {
        using value_type = bview; using difference_type = std::ptrdiff_t; using reference = const bview&;
        using pointer = const bview*; using iterator_category = std::bidirectional_iterator_tag;
        reference operator*() const; pointer operator->() const; const_iterator& operator++(); const_iterator operator++(int);
        const_iterator& operator--(); const_iterator operator--(int); bool operator==(const const_iterator&) const; };
    using iterator = const_iterator;
    const_iterator begin() const; const_iterator end() const;
    const bview at(std::size_t) const; const bview operator[](std::size_t) const; bview front() const; bview back() const; };
class dict_bview : public bview { public:
    using value_type = std::pair<string_bview, bview>;
    struct const_iterator {
        using value_type = std::pair<string_bview, bview>; using difference_type = std::ptrdiff_t; using reference = const value_type&;
        using pointer = const value_type*; using iterator_category = std::bidirectional_iterator_tag;
        reference operator*() const; pointer operator->() const; const_iterator& operator++(); const_iterator operator++(int);
        const_iterator& operator--(); const_iterator operator--(int); bool operator==(const const_iterator&) const; };
    using iterator = const_iterator;
    const_iterator begin() const; const_iterator end() const; const_iterator find(std::string_view) const;
    const bview at(std::string_view) const; bool contains(std::string_view) const; };
bool operator==(const string_bview&, std::string_view); 
inline bool operator==(const string_bview& a, const char* b) { return std::string_view(a) == b; }
const dict_bview& get_dict(const bview&); const list_bview& get_list(const bview&);
std::string_view get_string(const bview&); std::int64_t get_integer(const bview&);
bool holds_dict(const bview&) noexcept; bool holds_list(const bview&) noexcept;
bool holds_string(const bview&) noexcept; bool holds_integer(const bview&) noexcept;
bool is_dict(const bview&) noexcept; bool is_list(const bview&) noexcept;
bool is_string(const bview&) noexcept; bool is_integer(const bview&) noexcept;

template <class T> concept bvalue_or_bview = std::derived_from<T, bvalue> || std::derived_from<T, bview>;
template <class T> T get_as(const bvalue&); template <class T> T get_as(const bview&);

class descriptor_table { public: bview get_root() const; };
bvalue decode_value(std::istream&); bvalue decode_value(std::string_view);
descriptor_table decode_view(std::string_view);
template <class T> std::string encode(const T&);
template <class It, class T> void encode_to(It, const T&);
template <class T> void encode_to(std::ostream&, const T&);
template <class C, class T> void connect(C& c, const T& t);
namespace events { class encode_json_to { public: explicit encode_json_to(std::ostream&); template <class It> explicit encode_json_to(It);
    void integer(std::int64_t); void string(std::string_view); void list_begin(); void list_end(); void list_item();
    void dict_begin(); void dict_end(); void dict_key(); void dict_value(); }; 
  class encode_to { public: explicit encode_to(std::ostream&);
    void integer(std::int64_t); void string(std::string_view); void list_begin(); void list_end(); void list_item();
    void dict_begin(); void dict_end(); void dict_key(); void dict_value(); }; }
namespace detail {}
}
#define BENCODE_SERIALIZES_TO_LIST(T) template <> struct bencode::serializes_to<T> : std::integral_constant<int, 3> {};
#define BENCODE_SERIALIZES_TO_STRING(T) template <> struct bencode::serializes_to<T> : std::integral_constant<int, 2> {};
#define BENCODE_SERIALIZES_TO_DICT(T) template <> struct bencode::serializes_to<T> : std::integral_constant<int, 4> {};
#define BENCODE_SERIALIZES_TO_INTEGER(T) template <> struct bencode::serializes_to<T> : std::integral_constant<int, 1> {};

"""Writes known_findings.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def fixed(prop, commit, what): F.append({"property": prop, "status": "fixed", "key": "fixed:%s:%s" % (prop, commit), "commit": commit, "what": what, "text": "fixed: property=%s %s %s" % (prop, commit, what)})
def known(prop, key, what): F.append({"property": prop, "status": "open", "key": key, "what": what})
fixed("P03", "0f95b0b", "try_push inserted into a queue holding more items than its (lowered) capacity")
fixed("P02", "aeca47f", "set_capacity did not wake producers blocked in push")
fixed("P28", "fa4e907", "object_pool::clear and object_pool::capacity did not compile when used")
fixed("P05", "f6a6874", "hex_to_int indexed its table with a negative number for characters above 0x7f")
fixed("P05", "9cc008b", "hexadecimal text of odd length was accepted (last character dropped)")
fixed("P05", "41b010f", "from_hexadecimal_string(iterator, text) did not compile or decode")
fixed("P05", "e40ad88", "to_hexadecimal_string(iterator, bytes) wrote every byte to the same place")
fixed("P06", "a3ef5e2", "percent_decode read past the end for a truncated escape and accepted non-hexadecimal digits")
fixed("P06", "ceafbda", "percent_decode(string) ignored malformed input")
fixed("P06", "7a2d315", "percent_encode did not advance its output iterator")
fixed("P28", "5c141fe", "hex.hpp used std::copy_n without including <algorithm>")
fixed("P08", "711619c", "results of EVP_DigestUpdate and EVP_DigestFinal_ex were ignored")
fixed("P10", "a08087d", "message_digest::finalize_to wrote the digest into a buffer smaller than the digest")
fixed("P09", "2147352", "message_digest leaked its context when its constructor threw and freed it twice when copied")
fixed("P07", "5082bd8", "the digest type of sha3_384 had 284 bits")
fixed("P07", "9a680f8", "hash_function_traits::name was named after the macro argument")
fixed("P28", "5a852ab", "basic_hash::value() const did not compile")
fixed("P28", "9fccd38", "file_entry::remove_checksum did not compile")
fixed("P28", "79ddf0d", "the assignment operators of merkle_tree locked a member that does not exist and returned nothing")
fixed("P11", "a1623d3", "copying or moving a merkle_tree did not lock the source")
fixed("P28", "90df97b", "merkle_tree::has_root did not compile and did not lock")
fixed("P11", "de44e5f", "merkle_tree::set_node read the node count without the lock")
fixed("P28", "26b1908", "the hash functors of announce urls could not be called on const objects")
fixed("P11", "c50be0a", "merkle_tree::get_layer read the nodes without the lock")
fixed("P22", "1656ea6", "info_hash::v1, v2, truncated_v2 and get_binary read an empty optional for a part that is absent")
fixed("P22", "49a5bb3", "ordering of hybrid info hashes ignored the v1 part, so different ones compared equivalent")
fixed("P22", "52f8127", "the hash code of hybrid info hashes ignored the v2 part")
fixed("P28", "a6959eb", "generic_checksum(key, span<const char>) wrote past the end of an empty vector")
exec(open(os.path.join(here, "tool", "findings_more.py")).read()) if os.path.exists(os.path.join(here, "tool", "findings_more.py")) else None
json.dump({"findings": F}, open(here + "/known_findings.json", "w"), indent=1)

// Stand-in for the third-party cpp-btree header (not installed here, no network):
// db/mem_store.hpp only uses the ordered-multimap interface, which std::multimap
// provides with the same semantics (equal keys keep insertion order).
#ifndef RONSIM_BTREE_MAP_H
#define RONSIM_BTREE_MAP_H
#include <map>
namespace btree {
template <typename K, typename V>
using btree_multimap = std::multimap<K, V>;
template <typename K, typename V>
using btree_map = std::map<K, V>;
}  // namespace btree
#endif

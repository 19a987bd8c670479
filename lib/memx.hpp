// The in-memory and the joined store, over the stand-in map.
#ifndef VERIF_MEMX_HPP
#define VERIF_MEMX_HPP
#include "storex.hpp"
#include <btree_map.h>
#include "db/mem_store.hpp"
#include "db/joined_store.hpp"
namespace sx {
using Mem = ron::InMemoryStore<rx::Frame>;
using DiskMem = ron::JoinedStore<Store, Mem>;
using MemMem = ron::JoinedStore<Mem, Mem>;

inline Ops ops_at(rx::Cursor c, string& bad) {
    rx::Read r = rx::read(c);
    if (!r.clean || !r.bad.empty()) bad = "no valid value: " + r.status + " " + r.bad;
    return r.ops;
}
inline string showk(Key k) {
    if (k == Key::END) return "END";
    if (k == Key::ZERO) return "ZERO";
    return k.str();
}
}  // namespace sx
#endif

// Long series of one-event frames of one object, and many keys.
#ifndef VERIF_SCALEX_HPP
#define VERIF_SCALEX_HPP
#include "memx.hpp"
namespace sc {
using rdtref::Ops;
// n frames: the creation, then an event in each (big: long values)
inline std::vector<Ops> series(int form, int n, bool big) {
    std::vector<Ops> v;
    ref::U first, last;
    for (int i = 0; i < n; i++) {
        ref::Op o;
        o.id = rdtref::event(100 + i + (i % 10 == 9 ? 4096 * i : 0), i % 3 == 2 ? "B" : "A");
        const char* name = form == 13 ? "lww" : form == 1 ? "yarn" : form == 8 ? "meta" : form == 15 ? "mx" : form == 14 ? "rga" : form == 2 ? "lww" : form == 19 ? "max" : "zero";
        if (!i || form == 8 || form == 0) o.ref = rdtref::name(name);
        else o.ref = form == 14 ? first : form == 19 ? first : last;
        std::string s(big ? 300 : 1, char('a' + i % 26));
        if (form == 8) o.a = {ref::Q(o.id), ref::Q(rdtref::name("rga")), ref::S(s)};
        else if (i) switch (form) {
            case 13: o.a = {ref::Q(rdtref::name(i % 2 ? "key" : "other")), ref::S(s + std::to_string(i))}; break;
            case 15: o.a = {ref::I(i), ref::I(0), ref::S(s)}; break;
            case 19: o.a = {ref::I((i * 37) % 101)}; break;
            default: o.a = {ref::S(s)};
        }
        if (!i) first = o.id;
        last = o.id;
        v.push_back({o});
    }
    return v;
}
inline rx::Frame frame(const Ops& o, int i) { return i % 3 == 1 ? rdtx::plain(o) : rdtx::frame(o); }
}  // namespace sc
#endif

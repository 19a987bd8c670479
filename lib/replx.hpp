// A replica over the real database, and what it is to hold.
#ifndef VERIF_REPLX_HPP
#define VERIF_REPLX_HPP
#include <botan/sha2_64.h>
#include <time.h>
#include "storex.hpp"
#include "db/replica.hpp"

// the wall clock of the case
namespace px { inline time_t& wall() { static time_t t = 1600000000; return t; } }
extern "C" __attribute__((weak, visibility("default"))) time_t time(time_t* to) { if (to) *to = px::wall(); return px::wall(); }

namespace px {
using ref::Op;
using ref::U;
using rdtref::Ops;
using std::map;
using std::string;
using std::vector;
using sx::Key;
using sx::Store;
using Rep = ron::Replica<Store>;

// ---- hashes of events, as documented
inline void be(string& s, uint64_t x) { for (int i = 7; i >= 0; i--) s += char(x >> (8 * i)); }
inline string sha(const string& s) { Botan::SHA_512_256 h; h.update((const uint8_t*)s.data(), s.size()); string r(32, 0); h.final((uint8_t*)&r[0]); return r; }
inline string id_hash(U u) { string s; be(s, u.v); be(s, u.o); return sha(s); }
inline string op_hash(const Op& o, const string& prev, const string& rf) {
    string s;
    be(s, o.id.v); be(s, o.id.o); s += prev;
    be(s, o.ref.v); be(s, o.ref.o); s += rf;
    for (auto& a : o.a) switch (a.t) {
        case ref::STR: be(s, uint64_t(a.s.size()) << 32); be(s, uint64_t(8) << 60); s += ref::utf8(a.s); break;
        case ref::UUID: be(s, a.u.v); be(s, a.u.o); break;
        case ref::INT: be(s, uint64_t(a.i)); be(s, uint64_t(4) << 60); break;
        case ref::FLT: { uint64_t x; memcpy(&x, &a.f, 8); be(s, x); be(s, uint64_t(12) << 60); break; }
    }
    return sha(s);
}

struct Ev { Op op; U obj, rdt; string hash; };
// one branch: the events in the order they were accepted
struct Model {
    map<U, Ev> ev;
    map<uint64_t, U> last;           // the last event by yarn
    vector<U> objects;
    Ops order;
    uint64_t yarn{0};
    U tip() const { auto i = last.find(yarn); return i == last.end() ? U{} : i->second; }
    bool is_root(const Op& o) const { return o.ref == rdtref::name("yarn"); }
    bool add(Op o) {
        o.term = ',';
        bool known = last.count(o.id.o);
        if (is_root(o)) {
            if (known) return false;
            Ev e{o, o.id, o.ref, op_hash(o, string(32, 0), id_hash(o.ref))};
            ev.emplace(o.id, e);
            objects.push_back(o.id);
        } else {
            if (!known) return false;
            U l = last[o.id.o];
            if (!(l < o.id)) return false;
            const string& prev = ev[l].hash;
            if (rdtref::is_time(o.ref)) {
                if (!(o.ref < o.id)) return false;
                auto i = ev.find(o.ref);
                if (i == ev.end()) return false;
                Ev e{o, i->second.obj, i->second.rdt, op_hash(o, prev, i->second.hash)};
                ev.emplace(o.id, e);
            } else {
                bool type = false;
                for (const char* t : {"lww", "rga", "mx", "max"}) type = type || o.ref == rdtref::name(t);
                if (!type) return false;
                Ev e{o, o.id, o.ref, op_hash(o, prev, id_hash(o.ref))};
                ev.emplace(o.id, e);
                objects.push_back(o.id);
            }
        }
        last[o.id.o] = o.id;
        order.push_back(o);
        return true;
    }
    bool add(const Ops& f) {
        Model m = *this;
        for (auto& o : f) if (!m.add(o)) return false;
        *this = m;
        return true;
    }
    Ops log(U obj) const {
        Ops r;
        for (auto& o : order) if (ev.at(o.id).obj == obj) r.push_back(o);
        return r;
    }
    Ops state(U obj) const {
        U rdt = ev.at(obj).rdt;
        Ops l = log(obj);
        if (rdt == rdtref::name("rga")) return rdtref::weave(l);
        if (rdt == rdtref::name("max")) return rdtref::max_merge({l}).ops;
        return rdtref::set_merge({l}).ops;
    }
};
inline string dump(Store& s) {
    string r;
    Store::Iterator i{s};
    if (!i.SeekTo(Key{})) return "no iteration";
    while (i.key() != Key::END) {
        r += i.key().str() + "\t" + i.value().data().str() + "\n";
        if (!i.Next()) break;
    }
    mc::transition();
    return r;
}
inline string dump(Rep& r) {
    ron::Uuids ids;
    r.ListStores(ids);
    map<string, string> all;
    for (auto& u : ids) all[u.str()] = dump(r.GetStore(u));
    string s;
    for (auto& p : all) s += "[" + p.first + "]\n" + p.second;
    return s;
}
// the branch as the replica shows it
inline string compare(Rep& rep, const Model& m, const vector<U>& unknown, const string& at) {
    if (!rep.HasBranch(ron::Word{m.yarn})) return at + ": the branch is gone";
    Rep::Commit c{rep, rep.GetBranch(ron::Word{m.yarn})};
    if (rx::u(c.base()) != m.tip()) return at + ": the tip is " + c.base().str() + " not " + ref::text(m.tip());
    for (U obj : m.objects) {
        const Ev& e = m.ev.at(obj);
        for (int which = 0; which < 3; which++) {
            rx::Frame f;
            ron::Status ok;
            if (which == 0) ok = c.GetFrame(f, rx::uuid(obj), rx::uuid(e.rdt));
            else if (which == 1) ok = c.GetObjectLog(f, rx::uuid(obj));
            else {
                if (e.rdt == rdtref::name("max")) continue;  // no such query
                rx::Builder resp;
                rx::Frame q{"@" + ref::text(obj) + " :" + ref::text(e.rdt) + " ?"};
                ok = rep.ReceiveFrame(resp, q, ron::Word{m.yarn});
                f = resp.Release();
            }
            mc::transition();
            const char* what[] = {"the state", "the log", "the query"};
            string w = at + ": " + what[which] + " of " + ref::text(obj);
            if (!ok) return w + " fails: " + ok.str();
            string bad;
            Ops got = sx::ops_of(f.data(), bad);
            if (!bad.empty()) return w + ": " + bad;
            bad = rx::diff(which == 1 ? m.log(obj) : m.state(obj), got, false);
            if (!bad.empty()) return w + ": " + bad;
        }
    }
    // the log by queries: in full, and up to an event
    for (auto& p : m.ev) {
        if (p.second.obj == U{} || p.second.rdt == rdtref::name("yarn")) continue;
        Ops want = m.log(p.second.obj);
        Ops with = want;  // whether the event itself is in it is not said
        if (p.first != p.second.obj) for (size_t i = 0; i < want.size(); i++) if (want[i].id == p.first) { want.resize(i); with.resize(i + 1); break; }
        rx::Builder resp;
        rx::Frame q{"@" + ref::text(p.first) + " :log ?"};
        ron::Status ok = rep.ReceiveFrame(resp, q, ron::Word{m.yarn});
        mc::transition();
        string w = at + ": the log query at " + ref::text(p.first);
        if (!ok) return w + " fails: " + ok.str();
        string bad;
        Ops got = sx::ops_of(resp.data(), bad);
        if (bad.empty()) bad = rx::diff(got.size() == with.size() ? with : want, got, false);
        if (!bad.empty()) return w + ": " + bad + " in " + resp.data();
    }
    for (auto& p : m.ev) {
        ron::OpMeta o;
        ron::Status ok = c.FindOpMeta(o, rx::uuid(p.first));
        mc::transition();
        string w = at + ": event " + ref::text(p.first);
        if (!ok) return w + " is not found: " + ok.str();
        if (rx::u(o.id) != p.first) return w + " is found as " + o.id.str();
        if (rx::u(o.object) != p.second.obj) return w + " is attached to " + o.object.str();
        if (rx::u(o.rdt) != p.second.rdt) return w + " is of type " + o.rdt.str();
        if (o.hash.bits_ != p.second.hash) return w + " has a wrong hash";
    }
    for (auto& p : m.last) {
        ron::OpMeta o;
        ron::Status ok = c.FindYarnTipMeta(o, rx::uuid(p.second).origin);
        mc::transition();
        if (!ok) return at + ": no tip of a yarn: " + ok.str();
        if (rx::u(o.id) != p.second) return at + ": the tip of a yarn is " + o.id.str() + " not " + ref::text(p.second);
    }
    for (U x : unknown) {
        if (m.ev.count(x)) continue;
        ron::OpMeta o;
        if (c.FindOpMeta(o, rx::uuid(x))) return at + ": " + ref::text(x) + " is found, but never was there";
        mc::transition();
    }
    return "";
}
}  // namespace px
#endif

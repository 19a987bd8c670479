// C22, more: events the replica stamps, names and queries in frames; branches;
// frames cut and edited; crashes. Included by c22_replica.cc.
namespace more {
static const uint64_t SYM = 0x0ffffffffffffff0UL;  // the origin of ids not yet known
struct Item { char kind; Op op; U obj, rdt; string name; };  // e event, n name, q query

// a branch, with names
struct Branch {
    Model m;
    map<string, U> names;
};
static string names_of(Rep& rep, uint64_t y, const Branch& b, const string& at) {
    Rep::Commit c{rep, rep.GetBranch(ron::Word{y})};
    Rep::Names got;
    ron::Status ok = c.ReadNames(got);
    mc::transition();
    if (!ok) return at + ": the names can not be read: " + ok.str();
    if (got.size() != b.names.size()) return at + ": " + to_string(got.size()) + " names, not " + to_string(b.names.size());
    for (auto& p : b.names) {
        auto i = got.find(rx::uuid(rdtref::name(p.first.c_str())));
        if (i == got.end()) return at + ": name " + p.first + " is gone";
        if (rx::u(i->second) != p.second) return at + ": name " + p.first + " is " + i->second.str() + " not " + ref::text(p.second);
    }
    return "";
}
// the events in the logs of a branch
static string events_in(sx::Store& s, map<U, Op>& all) {
    sx::Store::Iterator i{s};
    if (!i.SeekTo(sx::Key{})) return "no iteration";
    while (i.key() != sx::Key::END) {
        if (i.key().form() == ron::LOG_RAW_FORM) {
            string bad;
            for (auto& o : sx::ops_of(i.value().data().str(), bad)) all[o.id] = o;
            if (!bad.empty()) return bad;
        }
        if (!i.Next()) break;
    }
    return "";
}
struct Sim {
    Branch b;
    uint64_t own{yid("test")}, oth{yid("other")};
    uint64_t far{3UL << 57};
    size_t syms{0}, vals{0}, group{0};  // unstamped chunks in a row count on
    U ftip{};                    // the tip within the frame, maybe symbolic
    vector<Item> items;
    string text;
    bool bad{false};
    set<U> seen;                 // since the replica was opened, and the own yarn
    Sim() { b.m.yarn = own; b.m.add(sx::op(U{0, own}, rdtref::name("yarn"))); }
    void start() { group = SIZE_MAX; items.clear(); text.clear(); bad = false; syms = 0; ftip = b.m.tip(); }
    U known_object() { for (size_t i = b.m.objects.size(); i-- > 0;) { auto& e = b.m.ev[b.m.objects[i]]; if (e.op.id.o == own && e.rdt != rdtref::name("yarn")) return e.op.id; } return U{}; }
    vector<ref::A> value(U rdt) {
        size_t n = vals++;
        if (rdt == rdtref::name("lww")) return {Q(rdtref::name(n % 2 ? "x" : "y")), I(int64_t(n))};
        if (rdt == rdtref::name("mx")) return {I(int64_t(n % 2)), I(0), S("m")};
        return {S(string(1, char('a' + n % 26)))};
    }
    U sym() { return U{syms++, SYM}; }
    // adds an event; unstamped ones count from 0 in their chunk
    void event(U id, U r, vector<ref::A> a, size_t base) {
        Op o = sx::op(id, r, a);
        U obj;
        items.push_back({'e', o, obj, obj, ""});
        Op w = o;
        if (w.id.o == SYM) w.id = U{w.id.v - base, 0};
        if (w.ref.o == SYM) w.ref = U{w.ref.v - base, 0};
        string s = "@" + (w.id.o ? ref::text(w.id) : ref::text(w.id) + (w.id.v ? "+0" : "+0")) + " :" + (rdtref::is_time(w.ref) && !w.ref.o ? ref::text(w.ref) + "+0" : ref::text(w.ref));
        for (auto& x : a) switch (x.t) {
            case ref::INT: s += " " + to_string(x.i); break;
            case ref::UUID: s += " >" + ref::text(x.u); break;
            default: s += " '" + ref::utf8(x.s) + "'";
        }
        text += s;
        if (id.o == own || id.o == SYM) ftip = id;
    }
    bool token(char c) {
        U tip = b.m.tip(), obj = known_object(), N{};
        if (!strchr("abtuolmp", c)) group = SIZE_MAX;
        else if (group == SIZE_MAX) group = syms;
        size_t base = group == SIZE_MAX ? syms : group;
        U lww = rdtref::name("lww"), rga = rdtref::name("rga"), mx = rdtref::name("mx");
        switch (c) {
            case 'a': { U r = sym(); event(r, lww, {}, base); text += ","; U k = sym(); event(k, r, value(lww), base); text += ","; U l = sym(); event(l, k, value(lww), base); text += ";\n"; break; }
            case 'b': { U r = sym(); event(r, mx, {}, base); text += ","; event(sym(), r, value(mx), base); text += ","; event(sym(), r, value(mx), base); text += ";\n"; break; }
            case 't': { U r = sym(); event(r, rga, {}, base); text += ","; U k = sym(); event(k, r, value(rga), base); text += ","; U l = sym(); event(l, k, value(rga), base); text += ","; event(sym(), k, value(rga), base); text += ";\n"; break; }
            case 'u': if (tip == U{0, own}) { event(sym(), tip, {S("u")}, base); } else event(sym(), tip, value(b.m.ev[tip].rdt), base); text += ";\n"; break;
            // long ones: a chain, a tree, many objects
            case 'l': { U r = sym(); event(r, lww, {}, base); for (int i = 0; i < 40; i++) { text += ","; U k = sym(); event(k, r, value(lww), base); r = k; } text += ";\n"; break; }
            case 'm': { vector<U> e{sym()}; event(e[0], rga, {}, base); for (int i = 1; i < 100; i++) { text += ","; e.push_back(sym()); event(e[i], e[i / 2], value(rga), base); } text += ";\n"; break; }
            case 'p': { for (int i = 0; i < 35; i++) { U r = sym(); event(r, i % 2 ? lww : rga, {}, base); text += ","; event(sym(), r, value(i % 2 ? lww : rga), base); text += i < 34 ? "," : ";\n"; } break; }
            case 'o': { if (obj == N) return false; U k = sym(), rdt = b.m.ev[obj].rdt; event(k, obj, value(rdt), base); text += ","; event(sym(), k, value(rdt), base); text += ";\n"; break; }
            case 'f': { far += 4096; event(U{far, own}, tip, b.m.ev[tip].rdt == rdtref::name("yarn") ? vector<ref::A>{S("f")} : value(b.m.ev[tip].rdt), base); text += ";\n"; break; }
            case 'O': if (b.m.last.count(oth)) return false; for (auto& i : items) if (i.kind == 'e' && i.op.id.o == oth) return false; event(U{5, oth}, rdtref::name("yarn"), {}, base); text += ";\n"; break;
            case 'F': { bool y = b.m.last.count(oth); for (auto& i : items) y = y || (i.kind == 'e' && i.op.id.o == oth); if (!y) return false;
                        far += 4096; event(U{far, oth}, tip, b.m.ev[tip].rdt == rdtref::name("yarn") ? vector<ref::A>{S("F")} : value(b.m.ev[tip].rdt), base); text += ";\n"; break; }
            case 'n': case 'N': { string nm = c == 'n' ? "foo" : "bar"; Item i{'n', Op{}, ftip, U{}, nm}; items.push_back(i); text += "@name :0 >" + nm + ";\n"; break; }
            case 'q': if (obj == N) return false; items.push_back({'q', Op{}, obj, b.m.ev[obj].rdt, ""}); text += "@" + ref::text(obj) + " :" + ref::text(b.m.ev[obj].rdt) + " ?\n"; break;
            case 'g': if (obj == N) return false; items.push_back({'g', Op{}, obj, b.m.ev[obj].rdt, ""}); text += "@" + ref::text(obj) + " :log ?\n"; break;
            case 'G': if (tip == U{0, own} || tip == obj || b.m.ev[tip].rdt == rdtref::name("yarn")) return false; items.push_back({'G', Op{}, tip, b.m.ev[tip].rdt, ""}); text += "@" + ref::text(tip) + " :log ?\n"; break;
            case 'c': text += "@~ 'a comment' ;\n"; break;
            // to be refused
            case 'X': bad = true; event(tip, lww, {}, base); text += ";\n"; break;
            case 'Y': bad = true; text += "@~ 'then';\n"; text += "@0+0 :50+0 'x' 1;\n"; break;
            case 'Z': bad = true; text += "@name :0 5;\n"; break;
            case 'V': bad = true; text += "@name :0;\n"; break;
            case 'W': bad = true; text += "@0+0 :" + ref::text(U{1UL << 59, own}) + " 'x' 1;\n"; break;
            case 'U': bad = true; text += "@name :0 >" + ref::text(U{5, own}) + ";\n"; break;
            case 'T': bad = true; text += "@~ 'then';\n@0+0 :lww, @1+0 :1+0 'x' 1;\n"; break;
            case 'S': bad = true; text += "@0+0 :nonsuch 'x' 1;\n"; break;
            default: return false;
        }
        return true;
    }
    // gives the new events their ids, and checks these
    string settle(Rep& rep, string& resp) {
        map<U, Op> now;
        string e = events_in(rep.GetBranch(ron::Word{own}), now);
        if (!e.empty()) return e;
        vector<U> fresh;
        for (auto& p : now) if (p.first.o == own && !b.m.ev.count(p.first)) fresh.push_back(p.first);
        sort(fresh.begin(), fresh.end(), [](U x, U y) { return x.v < y.v; });
        vector<U> of(syms);
        size_t n = 0;
        for (auto& i : items) if (i.kind == 'e' && (i.op.id.o == SYM || i.op.id.o == own)) {
            if (n == fresh.size()) return "not all of the events are in the log";
            U id = fresh[n++];
            if (i.op.id.o == SYM) {
                of[i.op.id.v] = id;
                for (U s : seen) if (!(s.v < id.v)) return "an event is stamped " + ref::text(id) + ", not after " + ref::text(s);
            }
            seen.insert(i.op.id.o == SYM ? id : i.op.id);
            i.op.id = i.op.id.o == SYM ? id : i.op.id;
        }
        else if (i.kind == 'e') seen.insert(i.op.id);
        if (n != fresh.size()) return to_string(fresh.size()) + " new events in the logs, not " + to_string(n);
        auto real = [&](U u) { return u.o == SYM ? of[u.v] : u; };
        Ops answers;
        for (auto& i : items) {
            if (i.kind == 'e') { i.op.ref = real(i.op.ref); if (!b.m.add(i.op)) return "a bad case: " + text; }
            if (i.kind == 'n') b.names[i.name] = real(i.obj);
            if (i.kind == 'q') for (auto& o : b.m.state(i.obj)) answers.push_back(o);
            if (i.kind == 'g') for (auto& o : b.m.log(i.obj)) answers.push_back(o);
            if (i.kind == 'G') for (auto& o : b.m.log(b.m.ev[i.obj].obj)) { if (o.id == i.obj) break; answers.push_back(o); }
        }
        string bad;
        Ops got = sx::ops_of(resp, bad);
        if (!bad.empty()) return "the response is " + bad;
        bad = rx::diff(answers, got, false);
        return bad.empty() ? "" : "the response: " + bad + " in " + resp;
    }
    void reopened() { set<U> s; for (U u : seen) if (u.o == own) s.insert(u); seen = s; }
};
// letters; | ends a frame, / ends it and reopens, > and < move the clock, + moves it while the replica is closed
static string check_writes(const string& t) {
    px::wall() = 4000000000L;
    Sim s;
    World x;
    string e = x.init();
    if (!e.empty()) return e;
    ron::Status ok = x.rep->CreateBranch(yarn(s.own), true);
    if (!ok) return "no branch: " + ok.str();
    vector<U> unknown{U{3, s.own}};
    s.start();
    size_t n = 0;
    for (char c : t + "|") {
        if (isalpha(c)) { if (!s.token(c)) return ""; n++; continue; }
        if (!s.text.empty()) {
            string before = px::dump(*x.rep);
            rx::Builder resp;
            ok = x.rep->ReceiveFrame(resp, rx::Frame{s.text}, yarn(s.own));
            mc::transition();
            string what = "frame\n" + s.text;
            if (s.bad) {
                if (ok) return "accepted: " + what;
                if (px::dump(*x.rep) != before) return "refused, but leaves a trace: " + what;
            } else {
                if (!ok) return "refused, " + ok.str() + ": " + what;
                string r = resp.Release().data();
                e = s.settle(*x.rep, r);
                if (!e.empty()) return e + ", after " + what;
            }
        }
        if (c == '/' || c == '+') { if (c == '+') px::wall() += 100; e = x.reopen(); if (!e.empty()) return e; s.reopened(); }
        if (c == '>') px::wall() += 1;
        if (c == '<') px::wall() -= 1000;
        s.start();
    }
    if (n > 1) mc::nontrivial();
    mc::trace();
    mc::state(t);
    for (int k = 0; k < 2; k++) {
        string at = k ? "after a reopening" : "after all";
        e = px::compare(*x.rep, s.b.m, unknown, at);
        if (e.empty()) e = names_of(*x.rep, s.own, s.b, at);
        if (!e.empty()) return e;
        if (!k) { string d = px::dump(*x.rep); e = x.reopen(); if (!e.empty()) return e; if (px::dump(*x.rep) != d) return "a reopening changes the data"; }
    }
    return "";
}
// ---- branches
struct BSim {
    map<int, Branch> b;
    int active{-1};
    size_t n{0};
    uint64_t y(int i) { static const char* N[] = {"nil", "test", "second", "3rd"}; return yid(N[i]); }
};
static string compare_all(Rep& rep, BSim& s, const string& at) {
    ron::Uuids ids;
    rep.ListStores(ids);
    set<string> got, want{ron::Uuid::NIL.str()};
    for (auto& u : ids) got.insert(u.str());
    for (auto& p : s.b) want.insert(Rep::yarn2branch(yarn(s.y(p.first))).str());
    if (got != want) return at + ": there are " + to_string(got.size()) + " stores, not " + to_string(want.size()) + " as expected";
    set<U> all;
    for (auto& p : s.b) for (auto& q : p.second.m.ev) all.insert(q.first);
    vector<U> unknown(all.begin(), all.end());
    for (int i = 1; i <= 3; i++) if (rep.HasBranch(yarn(s.y(i))) != bool(s.b.count(i))) return at + ": branch " + to_string(i) + (s.b.count(i) ? " is gone" : " is there");
    for (auto& p : s.b) {
        string w = at + ": branch " + to_string(p.first);
        string e = px::compare(rep, p.second.m, unknown, w);
        if (e.empty()) e = names_of(rep, s.y(p.first), p.second, w);
        if (!e.empty()) return e;
    }
    ron::Uuid act = s.active < 0 ? ron::Uuid::NIL : Rep::yarn2branch(yarn(s.y(s.active)));
    if (rep.active_store() != act) return at + ": the active branch is " + rep.active_store().str() + " not " + act.str();
    return "";
}
static string tip_of(Rep& rep, uint64_t y, U& tip) {
    Rep::Commit c{rep, rep.GetBranch(ron::Word{y})};
    tip = rx::u(c.base());
    return tip.o == y ? "" : "the tip of a new branch is " + c.base().str();
}
static string step(World& x, BSim& s, const string& op) {
    auto num = [&](size_t i) { return op[i] - '0'; };
    ron::Status ok;
    Rep& rep = *x.rep;
    string e;
    auto expect = [&](bool good) -> string {
        mc::transition();
        if (bool(ok) == good) return "";
        return op + (good ? " fails: " + ok.str() : " is accepted");
    };
    switch (op[0]) {
        case 'c': {
            int i = num(1);
            bool good = !s.b.count(i);
            ok = rep.CreateBranch(yarn(s.y(i)), i == 1);
            if (e = expect(good); !e.empty() || !good) return e;
            Branch b;
            b.m.yarn = s.y(i);
            U tip;
            if (e = tip_of(rep, s.y(i), tip); !e.empty()) return e;
            if (i == 1 && tip.v) return "the first event of a transcendent branch has the time " + ref::text(tip);
            b.m.add(sx::op(tip, rdtref::name("yarn")));
            s.b[i] = b;
            return "";
        }
        case 'f': {
            int i = num(1), j = num(2);
            bool good = s.b.count(i) && !s.b.count(j);
            ok = rep.ForkBranch(yarn(s.y(j)), yarn(s.y(i)));
            if (e = expect(good); !e.empty() || !good) return e;
            Branch b = s.b[i];
            b.m.yarn = s.y(j);
            U tip;
            if (e = tip_of(rep, s.y(j), tip); !e.empty()) return e;
            if (b.m.last.count(s.y(j))) return "-";  // such a yarn has had another beginning
            b.m.add(sx::op(tip, rdtref::name("yarn")));
            s.b[j] = b;
            return "";
        }
        case 'd': {
            int i = num(1);
            bool good = s.b.count(i);
            ok = rep.DropBranch(yarn(s.y(i)));
            if (e = expect(good); !e.empty() || !good) return e;
            s.b.erase(i);
            if (s.active == i) s.active = -1;
            return "";
        }
        case 's': {
            int i = num(1);
            bool good = s.b.count(i);
            ok = rep.SetActiveStore(Rep::yarn2branch(yarn(s.y(i))));
            if (e = expect(good); !e.empty() || !good) return e;
            s.active = i;
            return "";
        }
        case 'w': case 'n': {  // an object and a write, unstamped; to branch 0: the active one
            int i = num(1), to = i ? i : s.active;
            bool good = to > 0 && s.b.count(to);
            Sim one;
            if (good) { one.own = s.y(to); one.b = s.b[to]; }
            one.vals = s.n++;
            one.start();
            one.token(op[0] == 'n' ? 'n' : s.n % 2 ? 'a' : 't');
            rx::Builder resp;
            ok = i ? rep.ReceiveFrame(resp, rx::Frame{one.text}, yarn(s.y(i))) : rep.ReceiveFrame(resp, rx::Frame{one.text});
            if (e = expect(good); !e.empty() || !good) return e;
            string r = resp.Release().data();
            if (e = one.settle(rep, r); !e.empty()) return op + ": " + e;
            s.b[to] = one.b;
            return "";
        }
        case '/': return x.reopen();
        case '>': px::wall() += 7; return "";
    }
    return "bad case";
}
static string check_branches(const string& t) {
    px::wall() = 4000000000L;
    World x;
    string e = x.init();
    if (!e.empty()) return e;
    BSim s;
    auto ops = mc::split(t, ' ');
    for (size_t k = 0; k < ops.size(); k++) {
        e = step(x, s, ops[k]);
        if (e == "-") return "";
        if (!e.empty()) return "step " + to_string(k + 1) + ": " + e;
    }
    if (ops.size() > 2) mc::nontrivial();
    mc::trace();
    mc::state(t);
    e = compare_all(*x.rep, s, "after all");
    if (!e.empty()) return e;
    string d = px::dump(*x.rep);
    e = x.reopen();
    if (!e.empty()) return e;
    e = compare_all(*x.rep, s, "after a reopening");
    if (!e.empty()) return e;
    if (px::dump(*x.rep) != d) return "a reopening changes the data";
    return "";
}
// ---- frames cut short, or edited: judged by the reference parser and the model
static const vector<string>& edited() {
    static const vector<string> v{
        "@1A+test :lww,'x' 1,'y' 2;@1B+test :lww!",
        "@1A+test :rga,('abc'),@1K+test :1A1+test 'd';",
        "@1+other :yarn;@2+other :lww,>a 1;@1C+test :2+other >b 2;",
        "@1A+test :mx! @1B+test :1A+test 0 0 'v'; @~ 'note'; @1C+test :1A+test 1 0 'w';",
        "@1A+test :lww, @1B+test 'k' 'it\\u0027s' ; @1C+test :1B+test 'k' 1.5; @1D+test :1A+test 'f' =3 ^2.0 >id;",
        "@1A+test :rga! 'a', 'b', 'c'; @1B+test :1A01+test >rm; @1+other :yarn; @2+other :1A01+test 'x';",
    };
    return v;
}
static string check_edit(const string& t) {
    World x;
    string e = x.init();
    if (!e.empty()) return e;
    uint64_t own = yid("test");
    ron::Status ok = x.rep->CreateBranch(yarn(own), true);
    if (!ok) return "no branch";
    // one replica for all the edits of one kind and place; it is made anew after every accepted one
    auto w = mc::split(t, ' ');
    string base = edited()[stoul(w[0])];
    size_t at = stoul(w[1]);
    vector<string> all;
    all.push_back(base.substr(0, at));
    if (at < base.size()) {
        all.push_back(base.substr(0, at) + base.substr(at + 1));
        for (char c : string("@:;,!.'10 aA+>=)(\\\n")) { string s = base; s[at] = c; if (s != base) all.push_back(s); all.push_back(base.substr(0, at) + c + base.substr(at)); }
    }
    string before = px::dump(*x.rep);
    for (auto& s : all) {
        ref::Parsed p = ref::parse(s);
        mc::state(s);
        rx::Builder resp;
        bool plain = true;
        Ops f;
        for (auto& o : p.ops) {
            if (o.id == rx::u(ron::Uuid::COMMENT)) continue;
            if (o.term == 3 || !rdtref::is_time(o.id) || !(o.id.o & ref::M60)) plain = false;
            f.push_back(o);
        }
        Model m;
        m.yarn = own;
        m.add(sx::op(U{0, own}, rdtref::name("yarn")));
        ok = x.rep->ReceiveFrame(resp, rx::Frame{s}, yarn(own));
        mc::transition();
        bool fine = p.ok;
        if (!fine && ok) return "accepted, though no valid frame: " + s;
        if (plain && fine) fine = m.add(f);
        else if (fine) fine = bool(ok);  // not judged here
        if (bool(ok) != fine) return (fine ? "refused, " + ok.str() + ": " : "accepted: ") + s;
        if (!ok) { if (px::dump(*x.rep) != before) return "refused, but leaves a trace: " + s; continue; }
        mc::trace();
        if (plain) { e = px::compare(*x.rep, m, {U{3, own}}, "after " + s); if (!e.empty()) return e; }
        if (px::dump(*x.rep) == before) continue;
        mc::nontrivial();
        x.rep->Close();
        x.rep.reset();
        sx::rm_tree(x.dir->path);
        e = x.init();
        if (!e.empty()) return e;
        ok = x.rep->CreateBranch(yarn(own), true);
        if (!ok) return "no branch";
        before = px::dump(*x.rep);
    }
    return "";
}
// ---- crashes
static string prelude(World& x, BSim& s, const vector<string>& ops) {
    string e = x.init();
    for (size_t k = 0; e.empty() && k < ops.size(); k++) e = step(x, s, ops[k]);
    return e;
}
// an event frame of three objects, with ids that are known
static rx::Frame big_frame(uint64_t y, U tip, Ops& ops) {
    uint64_t t = max<uint64_t>(tip.v + 1, 3UL << 57);
    auto id = [&](uint64_t k) { return U{t + k * 64, y}; };
    U lww = rdtref::name("lww"), rga = rdtref::name("rga"), mx = rdtref::name("mx");
    ops = {sx::op(id(0), lww), sx::op(id(1), id(0), {Q(rdtref::name("x")), I(1)}), sx::op(id(2), rga), sx::op(id(3), id(2), {S("a")}),
           sx::op(id(4), id(3), {S("b")}), sx::op(id(5), mx), sx::op(id(6), id(5), {I(0), I(0), S("m")}), sx::op(id(7), id(1), {Q(rdtref::name("y")), I(2)})};
    return rdtx::frame(ops);
}
// the last step: R the making of the replica, W a frame with three objects and a name, C a new branch, D the drop of 1, S the choice of it, O reopening
static string last_step(World& x, BSim& s, char c) {
    ron::Status ok;
    switch (c) {
        case 'R': return x.init();
        case 'W': {
            Ops ops;
            rx::Frame f = big_frame(s.y(1), s.b[1].m.tip(), ops);
            rx::Builder resp;
            ok = x.rep->ReceiveFrame(resp, rx::Frame{f.data() + "@name :0 >foo;"}, yarn(s.y(1)));
            break;
        }
        case 'C': ok = x.rep->CreateBranch(yarn(s.y(3))); break;
        case 'D': ok = x.rep->DropBranch(yarn(s.y(1))); break;
        case 'S': ok = x.rep->SetActiveStore(Rep::yarn2branch(yarn(s.y(1)))); break;
        case 'O': return x.reopen();
    }
    return ok ? "" : string("step ") + c + " fails: " + ok.str();
}
// the state after it, as far as it is known
static void after(BSim& s, char c) {
    switch (c) {
        case 'W': {
            Ops ops;
            big_frame(s.y(1), s.b[1].m.tip(), ops);
            s.b[1].m.add(ops);
            s.b[1].names["foo"] = s.b[1].m.tip();
            break;
        }
        case 'D': s.b.erase(1); if (s.active == 1) s.active = -1; break;
        case 'S': s.active = 1; break;
    }
}
static string verify(BSim before, char c, bool died) {
    World x{true};
    string e;
    if (c == 'R') {
        // made, or to be made again
        e = x.open();
        if (!e.empty()) { x.rep.reset(); e = x.init(); }
    } else e = x.open();
    if (!e.empty()) return e;
    BSim s = before, t = before;
    after(t, c);
    if (c == 'C') {
        if (x.rep->HasBranch(yarn(s.y(3)))) {
            // in full, or it can be dropped
            U tip;
            if (e = tip_of(*x.rep, s.y(3), tip); !e.empty()) return e;
            Branch b;
            b.m.yarn = s.y(3);
            b.m.add(sx::op(tip, rdtref::name("yarn")));
            t.b[3] = b;
            e = compare_all(*x.rep, t, "with the branch");
            if (e.empty()) s = t;
            else {
                if (!died) return e;
                e = step(x, t, "d3");
                if (!e.empty()) return e;
            }
        } else if (!died) return "the branch is not there";
        e = compare_all(*x.rep, s, "with or without the branch");
        if (!e.empty()) return e;
    } else {
        e = compare_all(*x.rep, t, "after it");
        if (e.empty()) s = t;
        else if (!died) return e;
        else if (c == 'D') {
            // not active any more, but not yet dropped
            string e2 = compare_all(*x.rep, s, "before it");
            if (!e2.empty()) { s.active = -1; string e3 = compare_all(*x.rep, s, "between"); if (!e3.empty()) return "neither done (" + e + ") nor not done (" + e2 + ")"; }
        }
        else { string e2 = compare_all(*x.rep, s, "before it"); if (!e2.empty()) return "neither done (" + e + ") nor not done (" + e2 + ")"; }
    }
    // and it goes on
    for (string op : {"c2", "w2", "c1", "w1", "s1", "w0", "n1", "/", "w1"}) {
        if (op[0] == 'c' && s.b.count(op[1] - '0')) continue;
        e = step(x, s, op);
        if (!e.empty()) return "going on after the crash: " + e;
    }
    e = compare_all(*x.rep, s, "going on after the crash");
    if (!e.empty()) return e;
    e = x.reopen();
    return e.empty() ? compare_all(*x.rep, s, "reopened once more") : e;
}
// "steps of the beginning, last step": it is killed at every call of the last step
static string check_crash(const string& t) {
    cx::init();
    auto ops = mc::split(t, ' ');
    char c = ops.back()[0];
    ops.pop_back();
    sx::Dir dir;
    long points = 0;
    // the beginning is made once, and copied
    string base = dir.path + ".base", verdict;
    BSim sim;
    px::wall() = 4000000000L;
    ron::ROCKSDB_STORE_DIR = base;
    sx::rm_tree(base);
    struct Rm { string p; ~Rm() { sx::rm_tree(p); } } rm{base};
    if (c != 'R') {
        World* x = new World{true};
        verdict = prelude(*x, sim, ops);
        if (verdict.empty()) verdict = x->rep->Close() ? "" : "no close";
        delete x;
        if (!verdict.empty()) return verdict;
    }
    ron::ROCKSDB_STORE_DIR = dir.path;
    for (long at = 1; at < 5000; at++) {
        long size = -1;
        bool died = true;
        vector<long> parts{0};
        for (size_t k = 0; k < parts.size(); k++) {
            sx::rm_tree(dir.path);
            if (c != 'R' && system(("cp -r " + base + " " + dir.path).c_str())) return "no copy";
            cx::arm(at, parts[k], dir.path);
            int sig = 0;
            int rc = cx::child([&]() -> string {
                World* x = new World{true};
                string e;
                if (c != 'R') { e = x->open(); if (!e.empty()) return e; }
                cx::fire();
                return last_step(*x, sim, c);
            }, &sig);
            died = cx::sh()->died;
            size = cx::sh()->size;
            mc::transition();
            if (!died && rc) return "it dies by itself, signal " + to_string(sig);
            if (!died && cx::sh()->verdict[0]) return cx::sh()->verdict;
            string where = died ? "killed at call " + to_string(at) + ", " + string(cx::sh()->what) + (size >= 0 ? ", " + to_string(parts[k]) + " bytes of " + to_string(size) + " done" : "") : "not killed";
            if (died && k == 0 && size > 0) for (long p : {1L, 6L, 7L, size / 2, size - 1, size}) if (p > 0 && p <= size && p != parts.back()) parts.push_back(p);
            mc::state(t + to_string(at) + "." + to_string(parts[k]));
            points++;
            cx::arm(0, 0, "");
            rc = cx::child([&] { return verify(sim, c, died); }, &sig);
            mc::trace();
            if (rc) return where + ": reopening dies of signal " + to_string(sig);
            if (cx::sh()->verdict[0]) return where + ": " + string(cx::sh()->verdict);
            if (!died) break;
        }
        if (!died) break;
    }
    if (points > 1) mc::nontrivial();
    return "";
}
}  // namespace more

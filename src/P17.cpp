#include "stream.h"
#include "gen.h"
#include "objs.h"

using namespace doc;
using namespace Srl;

static const std::string big = "a text which does not fit into the place of a value, with \"quotes\" \xC3\xA4";
static const std::string longname = "a name too long for local storage";

/* path of indices to a node */
static Node& at(Node& root, const std::vector<int>& path) { Node* n = &root; for(int i : path) n = &n->node((size_t)i); return *n; }
static Doc& at(Doc& root, const std::vector<int>& path) { Doc* n = &root; for(int i : path) n = &n->nodes.at(i).second; return *n; }
static std::string show(const std::vector<int>& p) { std::string r = "/"; for(int i : p) r += std::to_string(i) + "/"; return r; }

/* all paths to scopes in order, up to n */
static void paths(const Doc& d, std::vector<int>& cur, std::vector<std::vector<int>>& r, size_t n)
{
    if(r.size() >= n) return;
    r.push_back(cur);
    for(size_t i = 0; i < d.nodes.size(); i++) { cur.push_back(i); paths(d.nodes[i].second, cur, r, n); cur.pop_back(); }
}
/* in arrays names are kept by the tree */
static std::string diff_names(const Doc& e, Node& n)
{
    std::string r;
    if(n.num_values() != e.values.size() || n.num_nodes() != e.nodes.size()) return "number of items is " + std::to_string(n.num_values()) + ", " + std::to_string(n.num_nodes());
    if(n.type() != (e.array ? Type::Array : Type::Object)) return "kind of scope";
    size_t i = 0;
    n.foreach_value([&](Value& v) {
        if(!r.empty()) return;
        if(i >= e.values.size()) { r = "too many values"; return; }
        auto& a = e.values[i++];
        if(v.name().unwrap() != a.first) r = "value " + std::to_string(i - 1) + ": expected name '" + mc::show(a.first, 60) + "' got '" + mc::show(v.name().unwrap(), 60) + "'";
        else { auto g = get(v); if(!same(a.second, g, false)) r = "value '" + mc::show(a.first, 60) + "': expected " + show(a.second) + " got " + show(g); }
    });
    if(!r.empty()) return r;
    if(i != e.values.size()) return "values are missing";
    i = 0;
    n.foreach_node([&](Node& c) {
        if(!r.empty()) return;
        if(i >= e.nodes.size()) { r = "too many scopes"; return; }
        auto& a = e.nodes[i++];
        if(c.name().unwrap() != a.first) r = "scope " + std::to_string(i - 1) + ": expected name '" + mc::show(a.first, 60) + "' got '" + mc::show(c.name().unwrap(), 60) + "'";
        else { r = diff_names(a.second, c); if(!r.empty()) r = "in scope '" + a.first + "': " + r; }
    });
    if(r.empty() && i != e.nodes.size()) r = "scopes are missing";
    return r;
}

struct World {
    mc::X& x;
    Tree tree; Doc doc;
    std::unique_ptr<Tree> other; Doc odoc;     /* source of copies */
    std::string log;
    World(mc::X& x_, bool array = false) : x(x_), tree(array ? Type::Array : Type::Object), doc(array), other(new Tree)
    {
        auto& r = other->root();
        r.insert("x", 1, "y", big, "list", std::vector<int> { 1, 2 });
        r.insert("sub", ScopeWrap([](Node& n) { n.insert("deep", ScopeWrap([](Node& m) { m.insert("z", 2.5, longname, big); }), "v", true); }));
        odoc.v("x", Val::i32(1)).v("y", Val::str(big));
        Doc l(true); l.v("", Val::i32(1)).v("", Val::i32(2)); odoc.n("list", l);
        Doc d, s; d.v("z", Val::dbl(2.5)).v(longname, Val::str(big)); s.v("v", Val::boolean(true)); s.n("deep", d); odoc.n("sub", s);
    }
    void verify(const char* when)
    {
        x.step();
        auto d = diff_names(doc, tree.root());
        if(!d.empty()) x.fail("tree differs from the edits", std::string(when) + ": " + d + "\nexpected " + doc::show(doc) + "\ngot " + doc::show(extract(tree.root())) + "\nedits:\n" + log);
        x.state(hash(doc));
    }
    void reload(int f)
    {
        auto b = write(tree, f);
        auto e = doc;
        auto d = diff(e, load_doc(f, b), is_text(f));
        x.step();
        if(!d.empty()) x.fail("written document differs from the edits", std::string(fmt_name(f)) + ": " + d + "\n" + mc::show(b) + "\nedits:\n" + log);
    }
    void part(int f, const std::vector<int>& path)
    {
        auto& n = at(tree.root(), path);
        auto b = with(f, [&](auto& p) { return n.to_source(p); });
        Tree t;
        with(f, [&](auto& p) { t.load_source(b, p); return 0; });
        auto d = diff(at(doc, path), extract(t.root()), is_text(f));
        x.step();
        if(!d.empty()) x.fail("written scope differs from the edits", std::string(fmt_name(f)) + ": " + d + "\n" + mc::show(b) + "\nedits:\n" + log);
    }

    /* one edit of scope p; the model first */
    enum { NumEdits = 31 };
    bool edit(int op, const std::vector<int>& p)
    {
        auto& n = at(tree.root(), p);
        auto& d = at(doc, p);
        auto name = [&](const char* what) { log += show(p) + " " + what + "\n"; x.note("%s %s", show(p).c_str(), what); };
        auto nv = d.values.size(), nn = d.nodes.size();
        auto rmv = [&](const std::string& k) { for(size_t i = 0; i < d.values.size(); i++) if(d.values[i].first == k) { d.values.erase(d.values.begin() + i); return; } };
        auto rmn = [&](const std::string& k) { for(size_t i = 0; i < d.nodes.size(); i++) if(d.nodes[i].first == k) { d.nodes.erase(d.nodes.begin() + i); return; } };
        switch(op) {
            case 0: name("insert a=7"); d.v("a", Val::i32(7)); n.insert("a", 7); break;
            case 1: name("insert b=text"); d.v("b", Val::str(big)); n.insert("b", big); break;
            case 2: name("remove_value a"); rmv("a"); n.remove_value("a"); break;
            case 3: name("remove_value(0)"); if(nv) d.values.erase(d.values.begin()); n.remove_value((size_t)0); break;
            case 4: { name("insert scope a"); Doc s; s.v("q", Val::i32(1)); d.n("a", s); n.insert("a", ScopeWrap([](Node& m) { m.insert("q", 1); })); break; }
            case 5: { name("insert list b"); Doc s(true); s.v("", Val::i32(1)).v("", Val::i32(2)); d.n("b", s); n.insert("b", { 1, 2 }); break; }
            case 6: name("remove_node a"); rmn("a"); n.remove_node("a"); break;
            case 7: name("remove_node(0)"); if(nn) d.nodes.erase(d.nodes.begin()); n.remove_node((size_t)0); break;
            case 8: { if(!nn) return false; name("insert copy of node(0) as c"); Doc c = d.nodes[0].second; d.n("c", c); n.insert("c", n.node((size_t)0)); break; }
            case 9: { name("insert copy of itself as a"); Doc c = d; if(doc::show(c, 4000).size() > 1500) return false; d.n("a", c); n.insert("a", n); break; }
            case 10: { name("insert other tree's root as o"); d.n("o", odoc); n.insert("o", other->root()); break; }
            case 11: { name("insert other tree's scope, value"); d.n("s", odoc.nodes[1].second).v("y", odoc.values[1].second); n.insert("s", other->root().node("sub"), "y", other->root().value("y")); break; }
            case 12: { if(!nv) return false; name("insert copy of value(0) as b"); auto v = d.values[0].second; d.v("b", v); n.insert("b", n.value((size_t)0)); break; }
            case 13: { if(!nv) return false; name("remove last value by reference"); d.values.pop_back(); n.remove_value(n.all_values().back()); break; }
            case 14: { if(!nn) return false; name("remove last node by reference"); d.nodes.pop_back(); n.remove_node(n.all_nodes().back()); break; }
            case 15: { name("insert separate node"); Doc s; s.v("k", Val::str(big)).n("e", Doc()); Node m(tree); m.insert("k", big, "e", ScopeWrap([](Node&) { })); d.n("b", s); n.insert("b", m); break; }
            case 16: name("several at once"); d.v("a", Val::boolean(true)).v(longname, Val::null()).v("", Val::bin("\1\2\3")); n.insert("a", true, longname, nullptr, "", BitWrap((const uint8_t*)"\1\2\3", 3)); break;
            case 17: name("remove_value b"); rmv("b"); n.remove_value(String(u"b")); break;
            case 18: name("remove_node b"); rmn("b"); n.remove_node("b"); break;
            case 19: { if(nv < 2) return false; name("remove_value(last)"); d.values.pop_back(); n.remove_value(nv - 1); break; }
            case 20: { if(nn < 2) return false; name("remove_node(last)"); d.nodes.pop_back(); n.remove_node(nn - 1); break; }
            case 21: name("remove absent positions"); n.remove_value(nv); n.remove_node(nn); n.remove_value((size_t)-1); n.remove_node((size_t)-1); break;
            case 22: name("remove absent names"); n.remove_value("absent"); n.remove_node("absent"); n.remove_value(longname + "2"); break;
            case 23: { name("insert object"); Doc s; s.v("x", Val::i32(3)); Doc w(true); w.v("", Val::str("p")).v("", Val::str(big)); s.n("w", w); d.n("a", s);
                struct O { int x = 3; std::vector<std::string> w { "p", big }; void srl_resolve(Context& c) { c("x", x)("w", w); } } o; n.insert("a", o); break; }
            case 24: { name("unnamed items"); Doc s(true); s.v("", Val::dbl(1.5)); d.v("", Val::i64(-1)).n("", s); n.insert((int64_t)-1); n.insert(std::vector<double> { 1.5 }); break; }
            case 25: { if(!nv) return false; name("remove foreign references"); Value v(7); n.remove_value(&v); n.remove_node(&other->root()); n.remove_value(&other->root().value("x")); break; }
            case 26: { if(nn < 2) return false; name("move: copy of node(1) into node(0), remove node(1)"); Doc c = d.nodes[1].second; d.nodes[0].second.n("m", c); d.nodes.erase(d.nodes.begin() + 1);
                auto& to = n.node((size_t)0); to.insert("m", n.node((size_t)1)); n.remove_node((size_t)1); break; }
            case 27: { if(!nn) return false; name("insert root into node(0)"); Doc c = doc; if(doc::show(c, 4000).size() > 1500) return false; d.nodes[0].second.n("r", c); n.node((size_t)0).insert("r", tree.root()); break; }
            case 28: { name("other tree takes a copy and is replaced"); if(doc::show(d, 4000).size() > 1500) return false; odoc = Doc(); odoc.v("x", Val::i32(1)).v("y", Val::str(big)); odoc.n("list", Doc(true)); Doc s; s.n("d", d); odoc.n("sub", s);
                std::unique_ptr<Tree> t(new Tree); t->root().insert("x", 1, "y", big, "list", std::vector<int> { }); t->root().insert("sub", ScopeWrap([&](Node& m) { m.insert("d", n); })); other = std::move(t); break; }
            case 29: { if(!nv) return false; name("insert copies of all values"); auto v = d.values; for(auto& e : v) d.values.push_back(e); auto l = n.all_values(); for(auto* e : l) n.insert(e->name(), *e); break; }
            case 30: { name("insert a name of 3 encodings"); d.v("\xC3\xA4", Val::i32(1)).v("\xC3\xA4", Val::i32(2)).v("\xC3\xA4", Val::i32(3)); n.insert(String(u"\u00e4"), 1, String(U"\u00e4"), 2, String("\xC3\xA4"), 3); break; }
        }
        return true;
    }
};

/* every edit at every scope */
static void history(mc::X& x, World& w, int depth, int first, size_t scopes)
{
    for(int i = 0; i < depth; i++) {
        std::vector<std::vector<int>> ps; std::vector<int> cur;
        paths(w.doc, cur, ps, scopes);
        auto& p = ps[i == 0 ? 0 : x.choose(ps.size())];
        int op = i == 0 && first >= 0 ? first : x.choose(World::NumEdits);
        if(!w.edit(op, p)) x.skip();
        w.verify("after edit");
    }
    std::vector<std::vector<int>> ps; std::vector<int> cur;
    paths(w.doc, cur, ps, 20);
    size_t h = ps.size() + w.log.size();
    w.reload(h % NumFmt);
    w.part((h + 1) % NumFmt, ps[h % ps.size()]);
    /* only the edits of this tree count when the other is gone */
    w.other.reset();
    w.verify("after the other tree is gone");
    w.reload((h + 2) % NumFmt);
}

MC_SCENARIO("histories from an empty tree", "all histories of up to 3 (thorough 4) of 31 kinds of edits, each at each of the first 3 scopes, from an empty object or array")
{
    int s = x.shard(2 * World::NumEdits);
    World w(x, s & 1);
    history(x, w, x.thorough ? 4 : 3, s >> 1, 3);
}

MC_SCENARIO("histories from a filled tree", "all histories of 2 (thorough 3) edits, each at each of the first 6 scopes, from trees which were built, loaded from 4 formats or given an object")
{
    int s = x.shard(6 * World::NumEdits);
    int how = s % 6;
    World w(x);
    Doc d;
    d.v("a", Val::i32(1)).v("b", Val::str(big)).v("a", Val::i32(2)).v(longname, Val::str("s"));
    Doc l(true); l.v("", Val::i32(1)).v("", Val::i32(2)).v("", Val::i32(3)); { Doc e; e.v("a", Val::i32(5)); l.n("", e); }
    Doc sub; sub.v("a", Val::str(big)).n("a", l); d.n("a", sub).n("b", Doc()).n("a", l);
    struct O { int a = 1; struct P { std::string s = big; std::vector<int> a { 1, 2 }; void srl_resolve(Context& c) { c("a", s)("l", a); } } p; std::vector<P> v { 2, P() }; std::string b = big; void srl_resolve(Context& c) { c("a", a)("b", b)("p", p)("a", v); } } o;
    if(how < 4) { Tree t; build(t.root(), d); auto b = write(t, how); load(w.tree, how, b); }
    else if(how == 4) build(w.tree.root(), d);
    else w.tree.load_object(o);
    /* what is there is right by other properties; types are those of the format */
    w.doc = extract(w.tree.root());
    if(how < 5 && !diff(d, w.doc, how < 2).empty()) x.fail("document to start from");
    w.verify("start");
    int depth = x.thorough ? 3 : 2;
    for(int i = 0; i < depth; i++) {
        std::vector<std::vector<int>> ps; std::vector<int> cur;
        paths(w.doc, cur, ps, 6);
        auto& p = ps[x.choose(ps.size())];
        if(!w.edit(i == 0 ? s / 6 : x.choose(World::NumEdits), p)) x.skip();
        w.verify("after edit");
    }
    w.other.reset();
    w.verify("end");
    for(int f = 0; f < NumFmt; f++) w.reload(f);
}

/* removal while a list of items is gone through, and memory which is used again */
MC_SCENARIO("many items", "n = 0..64 and boundary counts up to 2000 values, scopes or both; removal by 8 patterns x 3 ways; then insertion of others of 12 sizes")
{
    static std::vector<size_t> ns;
    if(ns.empty()) { for(size_t i = 0; i <= 64; i++) ns.push_back(i); for(size_t i : { 100, 127, 128, 129, 255, 256, 257, 500, 1000, 2000 }) ns.push_back(i); }
    size_t n = ns[x.shard(ns.size())];
    int kind = x.choose(3), pattern = x.choose(8), way = x.choose(3), size = x.choose(x.thorough || n < 40 ? 12 : 3);
    static const size_t sizes[] { 3, 8, 9, 200, 0, 1, 7, 16, 17, 100, 255, 256 };
    World w(x);
    w.log = "n " + std::to_string(n) + " kind " + std::to_string(kind) + " pattern " + std::to_string(pattern) + " way " + std::to_string(way) + " size " + std::to_string(size);
    auto& r = w.tree.root();
    auto put = [&](size_t i, size_t len, const std::string& pre) {
        auto name = pre + std::to_string(i % 50) + std::string(i % 7 == 0 ? 20 : 0, 'n');
        auto text = gen::pattern(len + i % 3, 0);
        if(kind != 1) { w.doc.v(name, Val::str(text)); r.insert(name, text); }
        if(kind != 0) { Doc d; d.v("t", Val::str(text)); w.doc.n(name, d); r.insert(name, ScopeWrap([&](Node& m) { m.insert("t", text); })); }
    };
    for(size_t i = 0; i < n; i++) put(i, sizes[size], "a");
    w.verify("filled");
    auto gone = [&](size_t i, size_t n) { switch(pattern) { case 0: return true; case 1: return i % 2 == 0; case 2: return i % 2 == 1; case 3: return i % 3 != 0; case 4: return i < n / 2; case 5: return i >= n / 2; case 6: return i == 0; default: return i + 1 == n; } };
    for(int k = 0; k < 2; k++) {
        auto strip = [&](auto& list, bool values) {
            size_t cnt = list.size();
            std::vector<size_t> idx;
            for(size_t i = 0; i < cnt; i++) if(gone(i, cnt)) idx.push_back(i);
            if(way == 1) {   /* by reference, all taken before */
                auto vs = r.all_values(); auto nds = r.all_nodes();
                std::vector<Value*> va(vs.begin(), vs.end()); std::vector<Node*> na(nds.begin(), nds.end());
                for(auto i : idx) { if(values) r.remove_value(va[i]); else r.remove_node(na[i]); }
                for(size_t j = idx.size(); j-- > 0;) list.erase(list.begin() + idx[j]);
            } else for(size_t j = idx.size(); j-- > 0;) {
                if(way == 0) { if(values) r.remove_value(idx[j]); else r.remove_node(idx[j]); list.erase(list.begin() + idx[j]); }
                else {   /* by name: the first of the name */
                    auto name = list[idx[j]].first;
                    if(values) r.remove_value(String(name)); else r.remove_node(String(name));
                    for(size_t i = 0; i < list.size(); i++) if(list[i].first == name) { list.erase(list.begin() + i); break; }
                }
            }
        };
        strip(w.doc.values, true);
        strip(w.doc.nodes, false);
        w.verify("after removal");
        for(size_t i = 0; i < n / 2 + 1; i++) put(i, sizes[(size + 5 + k) % 12], k ? "c" : "b");
        w.verify("after insertion");
    }
    w.reload(n % NumFmt);
}

/* names are shared within a tree */
MC_SCENARIO("many names", "0..300 and 1000 (thorough 5000) different names of 9 lengths, each used for values and scopes in two trees; insertion of one tree into the other; look-up, removal of every second")
{
    static const int lens[] { 1, 4, 7, 8, 9, 15, 31, 255, 300 };
    std::vector<int> ns; for(int i = 0; i <= 300; i += i < 70 ? 1 : 10) ns.push_back(i); ns.push_back(1000); ns.push_back(1024); if(x.thorough) ns.push_back(5000);
    int n = ns[x.shard(ns.size())], len = lens[x.choose(9)];
    World w(x);
    w.log = std::to_string(n) + " names of length " + std::to_string(len);
    auto nm = [&](int i) { auto s = std::to_string(i); return (int)s.size() >= len ? s : std::string(len - s.size(), 'x') + s; };
    Tree u; Doc ud;
    for(int i = 0; i < n; i++) {
        auto s = nm(i);
        w.doc.v(s, Val::i32(i)); w.tree.root().insert(s, i);
        ud.v(s, Val::i32(-i)); u.root().insert(s, -i);
        if(i % 4 == 0) { Doc d; d.v(nm(i + 1), Val::i32(1)); ud.n(s, d); u.root().insert(s, ScopeWrap([&](Node& m) { m.insert(nm(i + 1), 1); })); }
    }
    w.verify("filled");
    w.doc.n("u", ud); w.tree.root().insert("u", u.root());
    u.clear();
    w.verify("copied");
    for(int i = 0; i < n; i++) {
        x.step(2);
        if(w.tree.root().unwrap_field<int>(nm(i)) != i || w.tree.root().node("u").unwrap_field<int>(nm(i)) != -i) x.fail("wrong value under a name", w.log);
    }
    std::vector<std::pair<std::string, Val>> left;
    for(int i = 0; i < n; i++) if(i % 2) left.push_back(w.doc.values[i]);
    for(int i = 0; i < n; i += 2) w.tree.root().remove_value(nm(i));
    w.doc.values = left;
    w.verify("removed");
    w.reload(SrlF); w.reload(Msg);
}

MC_SCENARIO("names alike", "all histories of 3 (thorough 5) insertions, removals and copies of values and scopes under two names which share a hash or nearly everything (19 pairs), from a tree which has both or none, names in 3 encodings")
{
    auto& t = gen::twins()[x.shard(gen::twins().size())];
    bool filled = x.flip(); int enc = x.choose(3);
    World w(x);
    auto& r = w.tree.root();
    std::u32string u[2] { to32(t[0]), to32(t[1]) }; std::u16string v[2] { to16(u[0]), to16(u[1]) };
    auto id = [&](int k) { return enc == 0 ? String(t[k]) : enc == 1 ? String(v[k]) : String(u[k]); };
    auto put = [&](int k, int i) { w.doc.v(t[k], Val::i32(i)); r.insert(id(k), i); };
    auto puts = [&](int k, int i) { Doc d; d.v(t[1 - k], Val::i32(i)); w.doc.n(t[k], d); r.insert(id(k), ScopeWrap([&](Node& m) { m.insert(id(1 - k), i); })); };
    if(filled) { put(0, 100); put(1, 101); puts(1, 102); puts(0, 103); }
    int n = x.thorough ? 5 : 3;
    for(int i = 0; i < n; i++) {
        int op = x.choose(9), k = op & 1;
        w.log += std::to_string(op) + " ";
        auto first = [&](auto& list) { for(size_t j = 0; j < list.size(); j++) if(list[j].first == t[k]) return j; return list.size(); };
        switch(op / 2) {
            case 0: put(k, i); break;
            case 1: puts(k, i); break;
            case 2: { auto j = first(w.doc.values); if(j < w.doc.values.size()) w.doc.values.erase(w.doc.values.begin() + j); r.remove_value(id(k)); break; }
            case 3: { auto j = first(w.doc.nodes); if(j < w.doc.nodes.size()) w.doc.nodes.erase(w.doc.nodes.begin() + j); r.remove_node(id(k)); break; }
            case 4: { auto c = w.doc; if(doc::show(c, 4000).size() > 1000) x.skip(); w.doc.n(t[0], c); r.insert(id(0), r); break; }
        }
        w.verify("after edit");
        for(int q = 0; q < 2; q++) {
            const Val* want = nullptr; for(auto& e : w.doc.values) if(!want && e.first == t[q]) want = &e.second;
            x.step();
            if(r.has_value(id(q)) != (want != nullptr) || (want && r.value(id(q)).template unwrap<int>() != want->i)) x.fail("wrong value under a name", mc::show(t[q], 60) + " edits: " + w.log);
        }
    }
    w.reload(mc::mix(w.log.size(), enc) % NumFmt);
}

int main(int argc, char** argv) { return mc::main("P17", argc, argv); }

/* Documents as sequences of items in any order, values and scopes mixed, written directly to an output */
#ifndef DYN_H
#define DYN_H
#include "doc.h"
#include "stream.h"

namespace dyn {

    enum K { Num, Text, Null, Blob, Real, Obj, Arr };

    struct Item {
        std::string name; K kind = Num; int64_t num = 0; std::string text; std::vector<Item> sub;
        static Item of(const std::string& n, int64_t i)            { Item r; r.name = n; r.num = i; return r; }
        static Item of(const std::string& n, const std::string& s) { Item r; r.name = n; r.kind = Text; r.text = s; return r; }
        static Item obj(const std::string& n, const std::vector<Item>& s) { Item r; r.name = n; r.kind = Obj; r.sub = s; return r; }
        static Item arr(const std::string& n, const std::vector<Item>& s) { Item r; r.name = n; r.kind = Arr; r.sub = s; return r; }
        static Item other(const std::string& n, K k, const std::string& s = "") { Item r; r.name = n; r.kind = k; r.text = s; return r; }
        static Item ints(const std::string& n, const std::vector<int>& v) { Item r; r.name = n; r.kind = Arr; for(int i : v) r.sub.push_back(of("", i)); return r; }
    };
    typedef std::vector<Item> Items;

    inline std::string show(const Items& s, bool arr = false)
    {
        std::string r = arr ? "[" : "{";
        for(auto& i : s) {
            if(!arr) r += i.name + ":";
            r += i.kind == Num ? std::to_string(i.num) : i.kind == Text ? "'" + mc::show(i.text, 30) + "'" : i.kind == Obj ? show(i.sub) : i.kind == Arr ? show(i.sub, true) : i.kind == Null ? "null" : i.kind == Real ? "1.5" : "<blob>";
            r += " ";
        }
        return r + (arr ? "]" : "}");
    }

    struct Emit {
        static void all(Srl::Node& n, const Items& s)
        {
            for(auto& i : s) switch(i.kind) {
                case Num:  n.insert(i.name, i.num); break;
                case Text: n.insert(i.name, i.text); break;
                case Null: n.insert(i.name, Srl::Value(Srl::Type::Null)); break;
                case Real: n.insert(i.name, 1.5); break;
                case Blob: n.insert(i.name, Srl::BitWrap((const uint8_t*)i.text.data(), i.text.size())); break;
                case Obj:  n.insert(i.name, Srl::ScopeWrap([&i](Srl::Node& c) { all(c, i.sub); })); break;
                case Arr:  n.insert(i.name, Srl::ScopeWrap([&i](Srl::Node& c) { all(c, i.sub); }, Srl::Type::Array)); break;
            }
        }
    };

    struct Root { const Items* items; void srl_resolve(Srl::Context& c) { if(c.mode() == Srl::Mode::Insert) Emit::all(c.node(), *items); } };

    inline doc::Buf write(const Items& s, Srl::Parser& p) { Root r { &s }; return Srl::Tree().store(r, p); }
}
#endif

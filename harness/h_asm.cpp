// Two-pass relation assembly with every combination of wanted types and a nested handler.
#include "chain.hpp"
#include <osmium/relations/assembler.hpp>
#include <osmium/relations/relation_info.hpp>
using namespace vf;
static std::string any(const shared_ptr<OSM::Object const>& o) {
    if (!o) return "[]";
    switch (o->type()) {
        case NODE: return js(static_cast<const OSM::Node&>(*o));
        case WAY: return js(static_cast<const OSM::Way&>(*o));
        default: return js(static_cast<const OSM::Relation&>(*o));
    }
}
// Kept: relations with a visible flag.  Wanted members: role starts with "y".
template <bool N, bool W, bool R> struct Asm : Relations::Assembler<Asm<N, W, R>, Relations::RelationInfo, N, W, R, Rec> {
    typedef Relations::Assembler<Asm<N, W, R>, Relations::RelationInfo, N, W, R, Rec> A;
    bool clean;
    Asm(Rec& r, bool c) : A(r), clean(c) {}
    void relation(const shared_ptr<OSM::Relation const>& r) {
        std::string w; for (unsigned i = 0; i < r->members().size(); ++i) w += std::string(i ? "," : "") + bl(r->members()[i].role()[0] == 'y');
        emit("{\"e\":\"rel\",\"o\":" + js(*r) + ",\"kept\":" + bl(r->visible()) + ",\"wants\":[" + w + "]}");
        if (r->visible()) { if (r->id() % 2) A::relation(r); else this->add_relation(Relations::RelationInfo(r)); } // the default keeps all
    }
    bool keep_member(Relations::RelationInfo&, const OSM::RelationMember& m) { return m.role()[0] == 'y'; }
    void complete_relation(Relations::RelationInfo& i) {
        std::string s = "{\"e\":\"complete\",\"o\":" + js(*i.relation()) + ",\"members\":[";
        for (size_t k = 0; k < i.members().size(); ++k) s += (k ? "," : "") + any(i.members()[k]);
        emit(s + "]}");
    }
    void node_not_in_any_relation(const shared_ptr<OSM::Node const>& o) { emit("{\"e\":\"notin\",\"o\":" + js(*o) + "}"); }
    void way_not_in_any_relation(const shared_ptr<OSM::Way const>& o) { emit("{\"e\":\"notin\",\"o\":" + js(*o) + "}"); }
    void relation_not_in_any_relation(const shared_ptr<OSM::Relation const>& o) { emit("{\"e\":\"notin\",\"o\":" + js(*o) + "}"); }
    void left(const char* e) {
        std::string s = std::string("{\"e\":\"") + e + "\",\"left\":["; bool f = true;
        for (size_t i = 0; i < this->relations().size(); ++i) {
            const Relations::RelationInfo& ri = this->relations()[i];
            if (ri.has_all_members()) continue;      // done (or nothing wanted)
            s += std::string(f ? "" : ",") + "{\"o\":" + js(*ri.relation()) + ",\"members\":[";
            for (size_t k = 0; k < ri.members().size(); ++k) s += (k ? "," : "") + any(ri.members()[k]);
            s += "]}"; f = false;
        }
        emit(s + "],\"n\":" + num(this->relations().size()) + "}");
    }
    void clean_assembled_relations_() { this->clean_assembled_relations(); }
    void all_members_available() {
        if (clean) this->clean_assembled_relations();
        left("avail");
    }
};
template <bool N, bool W, bool R> void go(const toks& t) { // asm NWR stop clean; pass-1 lines to "end"; pass-2 lines to "end"
    Rec r; r.direct = true; r.stop_at = toi(t[2]);
    Asm<N, W, R> a(r, t[3] == "1");
    OSM::Meta m1 = mkmeta("one", "", "0"), m2 = mkmeta("two", "-1,-2,3,4", "1");
    drive(a.handler_pass1(), m1);
    emit("{\"e\":\"pass2\"}");
    Tee<typename Asm<N, W, R>::HandlerPass2> tee(a.handler_pass2());
    drive(tee, m2);
    a.clean_assembled_relations_();
    a.left("done");
}

int main() {
    toks t;
    while (read_line(t)) {
        const std::string c = t[0];
        if (c == "B") emit(t[1]);
        else if (c == "asm") {
            const std::string k = t[1];
            if (k == "n") go<true, false, false>(t); else if (k == "w") go<false, true, false>(t); else if (k == "r") go<false, false, true>(t);
            else if (k == "nw") go<true, true, false>(t); else if (k == "nr") go<true, false, true>(t); else if (k == "wr") go<false, true, true>(t);
            else go<true, true, true>(t);
        }
        else return 3;
    }
    flush();
    return 0;
}

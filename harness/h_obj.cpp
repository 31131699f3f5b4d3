// Objects as values: every operation is followed by a dump of all objects.
#include "vf.hpp"
using namespace vf;
using namespace Osmium::OSM;
struct Slot { char t; Node* n; Way* w; Relation* r; RelationMemberList* m; Slot() : t('-'), n(0), w(0), r(0), m(0) {}
    Object& o() { return t == 'n' ? static_cast<Object&>(*n) : t == 'w' ? static_cast<Object&>(*w) : static_cast<Object&>(*r); }
    void clear() { delete n; delete w; delete r; delete m; n = 0; w = 0; r = 0; m = 0; t = '-'; } };
static Slot sl[4];
static std::string memb(const RelationMemberList& l) {
    std::string r; bool f = true;
    for (RelationMemberList::const_iterator i = l.begin(); i != l.end(); ++i) { r += std::string(f ? "" : ",") + "[" + q(std::string(1, i->type())) + "," + qn(i->ref()) + "," + q(i->role()) + "]"; f = false; }
    return r;
}
static std::string dump(Slot& s) {
    if (s.t == '-') return "{\"t\":\"-\"}";
    if (s.t == 'm') return "{\"t\":\"m\",\"mem\":[" + memb(*s.m) + "]}";
    const Object& o = s.o();
    std::string r = std::string("{\"t\":\"") + (o.type() == NODE ? "n" : o.type() == WAY ? "w" : o.type() == RELATION ? "r" : "?") + "\",\"id\":" + qn(o.id()) + ",\"version\":" + qn(o.version()) + ",\"changeset\":" + qn(o.changeset()) +
        ",\"timestamp\":" + qn(o.timestamp()) + ",\"endtime\":" + qn(o.endtime()) + ",\"uid\":" + qn(o.uid()) + ",\"user\":" + q(o.user()) + ",\"visible\":\"" + bl(o.visible()) + "\",\"tags\":[";
    bool f = true;
    for (TagList::const_iterator i = o.tags().begin(); i != o.tags().end(); ++i) { r += std::string(f ? "" : ",") + "[" + q(i->key()) + "," + q(i->value()) + "]"; f = false; }
    r += "],\"x\":" + num(s.n ? s.n->position().x() : 2147483647) + ",\"y\":" + num(s.n ? s.n->position().y() : 2147483647) + ",\"nodes\":["; f = true;
    if (s.w) { const Way& w = *s.w; for (WayNodeList::const_iterator i = w.nodes().begin(); i != w.nodes().end(); ++i) { r += std::string(f ? "" : ",") + "[" + qn(i->ref()) + "," + num(i->position().x()) + "," + num(i->position().y()) + "]"; f = false; } }
    r += "],\"mem\":["; f = true;
    if (s.r) { const Relation& x = *s.r; r += memb(x.members()); }
    return r + "]}";
}
static std::string extra(Slot& s) {
    if (s.t == '-') return "[]";
    if (s.t == 'm') return "[" + num(s.m->size()) + "]";
    const Object& o = s.o();
    return "[" + num(o.user_is_anonymous() ? 1 : 0) + "," + num(s.w ? (s.w->is_closed() ? 1 : 0) : 2) + "," + num(o.tags().size()) + "," + num(s.w ? s.w->nodes().size() : 0) + "," + num(s.r ? s.r->members().size() : 0) + "]";
}
static int64_t fixed(double d) { // decimal text with seven places as a number
    char b[64]; snprintf(b, sizeof b, "%.7f", d); std::string s;
    for (char* p = b; *p; ++p) if (*p != '.') s += *p;
    return toi(s);
}
static void num_set(Object& o, const std::string& a, const std::string& v) {
    int64_t n = toi(v);
    if (a == "id") o.id(osm_object_id_t(n)); else if (a == "version") o.version(osm_version_t(n)); else if (a == "changeset") o.changeset(osm_changeset_id_t(n));
    else if (a == "timestamp") o.timestamp(time_t(n)); else if (a == "endtime") o.endtime(time_t(n)); else if (a == "uid") o.uid(osm_user_id_t(n)); else if (a == "visible") o.visible(v == "true");
}
static void text_set(Object& o, const std::string& a, const char* v) {
    if (a == "id") o.id(v); else if (a == "version") o.version(v); else if (a == "changeset") o.changeset(v); else if (a == "timestamp") o.timestamp(v);
    else if (a == "uid") o.uid(v); else if (a == "user") o.user(v); else if (a == "visible") o.visible(v);
}
static double dbl(const std::string& s) { return strtod(s.c_str(), 0); }
int main() {
    toks t;
    while (read_line(t)) { // event(open) slot op args...
        if (t[0] == "B") { for (int i = 0; i < 4; ++i) sl[i].clear(); emit(t[1]); continue; }
        const std::string ev = t[0], op = t[2];
        Slot& s = sl[toi(t[1]) - 1]; std::string err = "none";
        if (op == "?") {
            std::string r;
            if (t[3] == "key") { const char* v = s.o().tags().get_value_by_key(unpct(t[4]).c_str()); r = v ? "[" + q(v) + "]" : "[]"; }
            else if (t[3] == "tageq") { r = "["; TagList& l = s.o().tags(); for (int i = 0; i < l.size(); ++i) r += std::string(i ? "," : "") + bl((l[i] == l[0]) && !(l[i] != l[0])); r += "]"; }
            else if (t[3] == "ends") { r = "[" + qn(s.w->get_first_node_id()) + "," + qn(s.w->get_last_node_id()) + "," + qn(s.w->get_node_id(toi(t[4]))) + "]"; }
            else if (t[3] == "back") { r = "["; bool f = true; const Way& w = *s.w; for (WayNodeList::const_reverse_iterator i = w.nodes().rbegin(); i != w.nodes().rend(); ++i) { r += (f ? "" : ",") + qn(i->ref()); f = false; } r += "]"; }
            else if (t[3] == "mem") { const RelationMember* m = s.r->get_member(toi(t[4])); r = m ? "[" + q(std::string(1, m->type())) + "," + qn(m->ref()) + "," + q(m->role()) + "," + q(m->type_name()) + "]" : "[]"; }
            else if (t[3] == "deg") r = "[" + num(fixed(s.n->lon())) + "," + num(fixed(s.n->lat())) + "],\"def\":" + bl(s.n->position().defined());
            emit(ev + ",\"res\":" + r + "}");
            continue;
        }
        try {
            if (op == "new") { s.clear(); s.t = t[3][0]; if (s.t == 'n') s.n = new Node; else if (s.t == 'w') s.w = t[4] == "-" ? new Way : new Way(toi(t[4])); else if (s.t == 'm') s.m = new RelationMemberList; else s.r = new Relation; }
            else if (op == "del") s.clear();
            else if (op == "copy") { Slot& f = sl[toi(t[3]) - 1]; s.clear(); s.t = f.t; if (f.n) s.n = new Node(*f.n); if (f.w) s.w = new Way(*f.w); if (f.r) s.r = new Relation(*f.r); if (f.m) s.m = new RelationMemberList(*f.m); }
            else if (op == "assign") { Slot& f = sl[toi(t[3]) - 1]; if (f.n) *s.n = *f.n; if (f.w) *s.w = *f.w; if (f.r) *s.r = *f.r; if (f.m) *s.m = *f.m; }
            else if (op == "num") num_set(s.o(), t[3], t[4]);
            else if (op == "text") text_set(s.o(), t[3], unpct(t[4]).c_str());
            else if (op == "attr") s.o().set_attribute(t[3].c_str(), unpct(t[4]).c_str());
            else if (op == "tag") s.o().tags().add(unpct(t[3]).c_str(), unpct(t[4]).c_str());
            else if (op == "cleartags") s.o().tags().clear();
            else if (op == "tags") s.o().tags(static_cast<const Object&>(sl[toi(t[3]) - 1].o()).tags());
            else if (op == "ref") { // how ref x y
                osm_object_id_t r = toi(t[4]); Position p(int32_t(toi(t[5])), int32_t(toi(t[6])));
                if (t[3] == "node") s.w->add_node(r); else if (t[3] == "add") s.w->nodes().add(r); else if (t[3] == "push") s.w->nodes().push_back(r);
                else if (t[3] == "addp") s.w->nodes().add(WayNode(r, p)); else s.w->nodes().push_back(WayNode(r, p));
            }
            else if (op == "setref") { int i = toi(t[3]); WayNodeList& l = s.w->nodes(); (i == 0 ? l.front() : i + 1 == int(l.size()) ? l.back() : l[i]).ref(toi(t[4])); }
            else if (op == "setpos") { WayNode& w = s.w->nodes()[toi(t[3])]; if (t[6] == "1") w.position(Position(int32_t(toi(t[4])), int32_t(toi(t[5])))); else w.position().x(toi(t[4])).y(toi(t[5])); }
            else if (op == "insert") { WayNodeList& l = s.w->nodes(); std::vector<WayNode> v(sl[toi(t[4]) - 1].w->nodes().begin(), sl[toi(t[4]) - 1].w->nodes().end()); l.insert(l.begin() + toi(t[3]), v.begin(), v.end()); }
            else if (op == "clearrefs") s.w->nodes().clear();
            else if (op == "members") *s.m = sl[toi(t[3]) - 1].r->members();
            else if (op == "clearmem") s.m->clear();
            else if (op == "setmem") { RelationMember& x = toi(t[3]) % 2 ? *(s.m->begin() + toi(t[3])) : (*s.m)[toi(t[3])]; x.role(unpct(t[6]).c_str()).type(t[4][0]).ref(toi(t[5])); }
            else if (op == "mem" && s.m) s.m->add_member(t[3][0], toi(t[4]), unpct(t[5]).c_str());
            else if (op == "mem") s.r->add_member(t[3][0], toi(t[4]), unpct(t[5]).c_str());
            else if (op == "pos") s.n->position(Position(int32_t(toi(t[3])), int32_t(toi(t[4]))));
            else if (op == "posd") s.n->position(Position(dbl(t[3]), dbl(t[4])));
            else if (op == "lon") s.n->lon(dbl(t[3]));
            else if (op == "lat") s.n->lat(dbl(t[3]));
            else return 3;
        }
        catch (std::length_error&) { err = "length"; }
        catch (std::invalid_argument&) { err = "invalid"; }
        catch (...) { err = "other"; }
        std::string st, ex;
        for (int i = 0; i < 4; ++i) { st += (i ? "," : "") + dump(sl[i]); ex += (i ? "," : "") + extra(sl[i]); }
        emit(ev + ",\"err\":\"" + err + "\",\"st\":[" + st + "],\"ex\":[" + ex + "]}");
    }
    flush();
    return 0;
}

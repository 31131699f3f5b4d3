// Common part of all harnesses: script tokens in, JSON event lines out, and the projection
// from osmium objects to the abstract objects of the specification (OsmData.tla).
#ifndef VF_HPP
#define VF_HPP
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <stdint.h>
#include <unistd.h>
#include <osmium/smart_ptr.hpp>
#include <osmium/osm/types.hpp>
#include <osmium/osm/meta.hpp>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>

namespace vf {

typedef std::vector<std::string> toks;

inline toks split(const std::string& s, char c) {
    toks r; std::string cur;
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] == c) { r.push_back(cur); cur.clear(); } else cur += s[i]; }
    r.push_back(cur);
    return r;
}
inline bool read_line(toks& t) {
    std::string l;
    if (!std::getline(std::cin, l)) return false;
    t = split(l, '\t');
    return true;
}
inline std::string unpct(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') { r += static_cast<char>(strtol(s.substr(i + 1, 2).c_str(), 0, 16)); i += 2; } else r += s[i];
    }
    return r;
}
inline std::string pct(const std::string& s) {
    std::string r; char b[8];
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c >= 0x21 && c < 0x7f && c != '%') r += c; else { snprintf(b, sizeof b, "%%%02X", c); r += b; }
    }
    return r;
}
inline std::string q(const std::string& s) { // JSON string of pct-coded bytes
    std::string p = pct(s), r = "\"";
    for (size_t i = 0; i < p.size(); ++i) { if (p[i] == '"' || p[i] == '\\') r += '\\'; r += p[i]; }
    return r + "\"";
}
inline std::string num(int64_t n) { char b[32]; snprintf(b, sizeof b, "%lld", static_cast<long long>(n)); return b; }
inline std::string qn(int64_t n) { return "\"" + num(n) + "\""; }
inline int64_t toi(const std::string& s) { return strtoll(s.c_str(), 0, 10); }
inline const char* bl(bool b) { return b ? "true" : "false"; }

// ---- output is buffered by hand so that a crash loses nothing already emitted
#ifndef VF_OUT
#define VF_OUT stdout
#endif
inline void emit(const std::string& s) { fputs(s.c_str(), VF_OUT); fputc('\n', VF_OUT); }
inline void flush() { fflush(VF_OUT); }

// ---- projection of objects
inline std::string common(const Osmium::OSM::Object& o) {
    std::string r = "\"id\":" + qn(o.id()) + ",\"v\":" + qn(o.version()) + ",\"ts\":" + qn(o.timestamp()) +
        ",\"cs\":" + qn(o.changeset()) + ",\"uid\":" + num(o.uid()) + ",\"user\":" + q(o.user()) + ",\"vis\":" + bl(o.visible()) + ",\"tags\":[";
    for (int i = 0; i < o.tags().size(); ++i) {
        if (i) r += ",";
        r += "[" + q(o.tags()[i].key()) + "," + q(o.tags()[i].value()) + "]";
    }
    return r + "]";
}
inline std::string js(const Osmium::OSM::Node& o) {
    return "{\"t\":\"n\"," + common(o) + ",\"x\":" + num(o.position().x()) + ",\"y\":" + num(o.position().y()) + ",\"nodes\":[],\"mem\":[]}";
}
inline std::string js(const Osmium::OSM::Way& o) {
    std::string r = "{\"t\":\"w\"," + common(o) + ",\"x\":2147483647,\"y\":2147483647,\"nodes\":[";
    for (unsigned i = 0; i < o.nodes().size(); ++i) { if (i) r += ","; r += qn(o.nodes()[i].ref()); }
    return r + "],\"mem\":[]}";
}
inline std::string js(const Osmium::OSM::Relation& o) {
    std::string r = "{\"t\":\"r\"," + common(o) + ",\"x\":2147483647,\"y\":2147483647,\"nodes\":[],\"mem\":[";
    for (unsigned i = 0; i < o.members().size(); ++i) {
        const Osmium::OSM::RelationMember& m = o.members()[i];
        if (i) r += ",";
        r += "[\"" + std::string(1, m.type()) + "\"," + qn(m.ref()) + "," + q(m.role()) + "]";
    }
    return r + "]}";
}

// ---- building objects from script tokens: t id v ts cs uid user vis tags (x y | refs | members)
inline void set_common(Osmium::OSM::Object& o, const toks& t) {
    o.id(static_cast<osm_object_id_t>(toi(t[1])));
    o.version(static_cast<osm_version_t>(toi(t[2])));
    o.timestamp(static_cast<time_t>(toi(t[3])));
    o.changeset(static_cast<osm_changeset_id_t>(toi(t[4])));
    o.uid(static_cast<osm_user_id_t>(toi(t[5])));
    o.user(unpct(t[6]).c_str());
    o.visible(t[7] == "1");
    if (!t[8].empty()) {
        toks p = split(t[8], ';');
        for (size_t i = 0; i < p.size(); ++i) {
            size_t e = p[i].find('=');
            o.tags().add(unpct(p[i].substr(0, e)).c_str(), unpct(p[i].substr(e + 1)).c_str());
        }
    }
}
inline shared_ptr<Osmium::OSM::Node> mknode(const toks& t) {
    shared_ptr<Osmium::OSM::Node> o = make_shared<Osmium::OSM::Node>();
    set_common(*o, t);
    o->position(Osmium::OSM::Position(static_cast<int32_t>(toi(t[9])), static_cast<int32_t>(toi(t[10]))));
    return o;
}
inline shared_ptr<Osmium::OSM::Way> mkway(const toks& t) {
    shared_ptr<Osmium::OSM::Way> o = make_shared<Osmium::OSM::Way>();
    set_common(*o, t);
    if (!t[9].empty()) { toks p = split(t[9], ','); for (size_t i = 0; i < p.size(); ++i) o->add_node(toi(p[i])); }
    return o;
}
inline shared_ptr<Osmium::OSM::Relation> mkrel(const toks& t) {
    shared_ptr<Osmium::OSM::Relation> o = make_shared<Osmium::OSM::Relation>();
    set_common(*o, t);
    if (!t[9].empty()) {
        toks p = split(t[9], ',');
        for (size_t i = 0; i < p.size(); ++i) { toks m = split(p[i], ':'); o->add_member(m[0][0], toi(m[1]), unpct(m[2]).c_str()); }
    }
    return o;
}
inline std::string js_bounds(const Osmium::OSM::Bounds& b) {
    if (!b.defined()) return "[]";
    return "[" + num(b.bottom_left().x()) + "," + num(b.bottom_left().y()) + "," + num(b.top_right().x()) + "," + num(b.top_right().y()) + "]";
}
} // namespace vf
#endif

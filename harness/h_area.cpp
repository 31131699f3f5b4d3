// Multipolygon relations to areas: the real two-pass assembler and ring builder.
#include <iostream>
#include "vf.hpp"
#include <osmium/handler.hpp>
#include <osmium/osm/area.hpp>
#include <osmium/multipolygon/assembler.hpp>
#include <osmium/geometry/multipolygon.hpp>
#include <osmium/geometry/ogr_multipolygon.hpp>
using namespace vf;
using namespace Osmium;
static const int64_t UNIT = 1000000; // positions are multiples of 0.1 degrees
static std::string unit(double v) { int64_t n = llround(v * 1e7); return n / 1e7 == v && n % UNIT == 0 ? num(n / UNIT) : "\"inexact\""; }
static std::string ring(const geos::geom::LineString* l) {
    std::string r; const geos::geom::CoordinateSequence* s = l->getCoordinatesRO();
    for (size_t i = 0; i < s->getSize(); ++i) r += (i ? "," : "") + std::string("[") + unit(s->getX(i)) + "," + unit(s->getY(i)) + "]";
    return "[" + r + "]";
}
static std::string rings(const geos::geom::MultiPolygon* m) {
    std::string r;
    for (geos::geom::GeometryCollection::const_iterator it = m->begin(); it != m->end(); ++it) {
        const geos::geom::Polygon* p = dynamic_cast<const geos::geom::Polygon*>(*it);
        std::string s = ring(p->getExteriorRing());
        for (size_t i = 0; i < p->getNumInteriorRing(); ++i) s += "," + ring(p->getInteriorRingN(i));
        r += (r.empty() ? "" : ",") + std::string("[") + s + "]";
    }
    return "[" + r + "]";
}
static std::string ogr(const Osmium::Geometry::MultiPolygon& g) {
    OGRMultiPolygon* m = Osmium::Geometry::create_ogr_geometry(g);
    std::string r;
    for (int i = 0; i < m->getNumGeometries(); ++i) {
        OGRPolygon* p = dynamic_cast<OGRPolygon*>(m->getGeometryRef(i));
        std::string s;
        for (int k = -1; k < p->getNumInteriorRings(); ++k) {
            OGRLinearRing* l = k < 0 ? p->getExteriorRing() : p->getInteriorRing(k);
            std::string t; for (int j = 0; j < l->getNumPoints(); ++j) t += (j ? "," : "") + std::string("[") + unit(l->getX(j)) + "," + unit(l->getY(j)) + "]";
            s += (k < 0 ? "" : ",") + std::string("[") + t + "]";
        }
        r += (i ? "," : "") + std::string("[") + s + "]";
    }
    delete m;
    return "[" + r + "]";
}
// the binary forms, decoded
struct In { std::string s; size_t p; uint32_t u() { uint32_t v = 0; if (p + 4 <= s.size()) memcpy(&v, &s[p], 4); p += 4; return v; } double d() { double v = 0; if (p + 8 <= s.size()) memcpy(&v, &s[p], 8); p += 8; return v; } uint8_t b() { return p < s.size() ? s[p++] : 255; } };
static std::string wkb(const std::string& bytes) {
    In i = {bytes, 0}; std::string r;
    if (i.b() != 1 || i.u() != 6) return "\"bad\"";
    uint32_t n = i.u();
    for (uint32_t k = 0; k < n && n < 10000; ++k) {
        if (i.b() != 1 || i.u() != 3) return "\"bad\"";
        uint32_t m = i.u(); std::string s;
        for (uint32_t j = 0; j < m && m < 10000; ++j) {
            uint32_t c = i.u(); std::string t;
            for (uint32_t x = 0; x < c && c < 10000; ++x) { double lon = i.d(), lat = i.d(); t += (x ? "," : "") + std::string("[") + unit(lon) + "," + unit(lat) + "]"; }
            s += (j ? "," : "") + std::string("[") + t + "]";
        }
        r += (k ? "," : "") + std::string("[") + s + "]";
    }
    return i.p == bytes.size() ? "[" + r + "]" : "\"bad\"";
}
static std::string unhex(const std::string& h) { std::string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(strtol(h.substr(i, 2).c_str(), 0, 16)); return r; }

struct Sink : public Handler::Base {
    void area(const shared_ptr<OSM::Area>& a) {
        OSM::Area before(*a); // a copy of an area that may have no geometry yet
        Osmium::Geometry::MultiPolygon g(*a);
        OSM::Area copy(*a);
        OSM::Relation other; other.id(99); OSM::Area assigned(other);
        assigned = before;
        Osmium::Geometry::MultiPolygon gb(before), ga(assigned), gc(copy);
        std::string same = rings(gb.borrow_geos_geometry()) + "," + rings(ga.borrow_geos_geometry());
        assigned = copy; copy = *&copy;
        Osmium::Geometry::MultiPolygon g2(assigned);
        std::ostringstream b, h; b << g.as_WKB(); h << g.as_HexWKB();
        same += "," + rings(g2.borrow_geos_geometry()) + "," + rings(gc.borrow_geos_geometry()) + "," + ogr(g) + "," + wkb(b.str()) + "," + wkb(unhex(h.str()));
        emit("{\"e\":\"area\",\"type\":" + num(a->type()) + ",\"a\":{" + common(*a) + "},\"c\":{" + common(assigned) + "},\"from_way\":" + bl(a->from_way()) + ",\"orig\":" + qn(a->orig_id()) +
             ",\"gid\":" + qn(g.id()) + ",\"rings\":" + rings(g.borrow_geos_geometry()) + ",\"same\":[" + same + "]}");
    }
};
typedef MultiPolygon::Assembler<Sink> Asm;
int main() {
    toks t; freopen("/dev/null", "w", stderr);
    Sink* sink = 0; Asm* as = 0; bool first = true;
    while (read_line(t)) {
        if (t[0] == "B") emit(t[1]);
        else if (t[0] == "start") { delete as; delete sink; sink = new Sink; as = new Asm(*sink, t[1] == "1"); first = true; as->handler_pass1().before_relations(); }
        else if (t[0] == "rel") { toks u(t.begin() + 1, t.end()); as->handler_pass1().relation(mkrel(u)); }
        else if (t[0] == "pass2") { try { as->handler_pass1().after_relations(); } catch (Handler::StopReading&) {} OSM::Meta m; as->handler_pass2().init(m); as->handler_pass2().before_ways(); emit("{\"e\":\"pass2\"}"); }
        else if (t[0] == "way") { // id v ts cs uid user vis tags ref:x:y,...
            shared_ptr<OSM::Way> w = make_shared<OSM::Way>(); toks u(t.begin() + 1, t.end());
            set_common(*w, u);
            std::string pts;
            if (!u[9].empty()) {
                toks p = split(u[9], ',');
                for (size_t i = 0; i < p.size(); ++i) {
                    toks q3 = split(p[i], ':');
                    w->nodes().add(OSM::WayNode(toi(q3[0]), OSM::Position(static_cast<int32_t>(toi(q3[1]) * UNIT), static_cast<int32_t>(toi(q3[2]) * UNIT))));
                }
            }
            emit("{\"e\":\"way\",\"id\":" + qn(w->id()) + "}");
            as->handler_pass2().way(w);
        }
        else if (t[0] == "end") { as->handler_pass2().after_ways(); as->handler_pass2().final(); emit("{\"e\":\"end\"}"); }
        else return 3;
    }
    flush();
    return 0;
}

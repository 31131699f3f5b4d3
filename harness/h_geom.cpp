// Points, linestrings and polygons in all representations.
#include "vf.hpp"
#include <osmium/geometry/point.hpp>
#include <osmium/geometry/linestring.hpp>
#include <osmium/geometry/polygon.hpp>
#include <osmium/geometry/ogr.hpp>
#include <osmium/geometry/geos.hpp>
#include <geos/util/GEOSException.h>
using namespace vf;
using namespace Osmium;
static std::string bytes(const std::string& s) { std::string r = "["; for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + num((unsigned char) s[i]); return r + "]"; }
static std::string dbl(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return bytes(b); }
template <class F> std::string out(F f, bool twice) { std::ostringstream o; if (twice) { std::ostringstream p; p << f; } o << f; return o.str(); }
template <class G, class F> std::string plain(const G& g, F f) { std::ostringstream o; g.write_to_stream(o, f); return o.str(); }
template <class P> std::string pts(const P* p) { std::string r = "["; for (int i = 0; i < p->getNumPoints(); ++i) r += std::string(i ? "," : "") + "[" + dbl(p->getX(i)) + "," + dbl(p->getY(i)) + "]"; return r + "]"; }
static std::string ogr(const OGRPoint* p) { return "\"type\":" + q(p->getGeometryName()) + ",\"rings\":0,\"pts\":[[" + dbl(p->getX()) + "," + dbl(p->getY()) + "]]"; }
static std::string ogr(const OGRLineString* p) { return "\"type\":" + q(p->getGeometryName()) + ",\"rings\":0,\"pts\":" + pts(p); }
static std::string ogr(const OGRPolygon* p) { return "\"type\":" + q(p->getGeometryName()) + ",\"rings\":" + num((p->getExteriorRing() ? 1 : 0) + p->getNumInteriorRings()) + ",\"pts\":" + pts(p->getExteriorRing()); }
static std::string gpts(const geos::geom::CoordinateSequence* p) { std::string r = "["; for (size_t i = 0; i < p->getSize(); ++i) r += std::string(i ? "," : "") + "[" + dbl(p->getAt(i).x) + "," + dbl(p->getAt(i).y) + "]"; return r + "]"; }
static std::string geo(const geos::geom::Point* p) { return "\"type\":\"POINT\",\"rings\":0,\"pts\":[[" + dbl(p->getX()) + "," + dbl(p->getY()) + "]]"; }
static std::string geo(const geos::geom::LineString* p) { return "\"type\":\"LINESTRING\",\"rings\":0,\"pts\":" + gpts(p->getCoordinatesRO()); }
static std::string geo(const geos::geom::Polygon* p) { return "\"type\":\"POLYGON\",\"rings\":" + num(1 + p->getNumInteriorRing()) + ",\"pts\":" + gpts(p->getExteriorRing()->getCoordinatesRO()); }
template <class G> void all(const G& g, const char* k, bool rev) {
    for (int srid = 0; srid < 2; ++srid) {
        std::string c = std::string(",\"k\":\"") + k + "\",\"rev\":" + bl(rev) + ",\"srid\":" + bl(srid) + ",\"s\":";
        emit("{\"e\":\"wkt\",\"id\":" + qn(g.id()) + c + bytes(out(srid ? g.as_WKT(true) : g.as_WKT(), rev)) + "}");
        emit("{\"e\":\"wkb\"" + c + bytes(out(srid ? g.as_WKB(true) : g.as_WKB(), rev)) + "}");
        emit("{\"e\":\"hex\"" + c + bytes(out(srid ? g.as_HexWKB(true) : g.as_HexWKB(), rev)) + "}");
    }
    {   // without saying whether the reference system is wanted
        std::string c = std::string(",\"k\":\"") + k + "\",\"rev\":" + bl(rev) + ",\"srid\":false,\"s\":";
        emit("{\"e\":\"wkt\",\"id\":" + qn(g.id()) + c + bytes(plain(g, g.as_WKT(true))) + "}");
        emit("{\"e\":\"wkb\"" + c + bytes(plain(g, g.as_WKB(true))) + "}");
        emit("{\"e\":\"hex\"" + c + bytes(plain(g, g.as_HexWKB(true))) + "}");
    }
    std::string o = ogr(Geometry::create_ogr_geometry(g));
    emit(std::string("{\"e\":\"ogr\",\"k\":\"") + k + "\",\"rev\":" + bl(rev) + "," + o + "}");
    std::string x;
    try { x = ",\"ok\":true," + geo(Geometry::create_geos_geometry(g)); } catch (geos::util::GEOSException&) { x = ",\"ok\":false"; }
    emit(std::string("{\"e\":\"geos\",\"k\":\"") + k + "\",\"rev\":" + bl(rev) + x + "}");
}
int main() {
    toks t;
    while (read_line(t)) { // n|w how B-event id coords(ref,x,y;...)
        emit(t[2]);
        std::vector<OSM::WayNode> v;
        if (!t[4].empty()) { toks p = split(t[4], ';'); for (size_t i = 0; i < p.size(); ++i) { toks c = split(p[i], ','); v.push_back(OSM::WayNode(toi(c[0]), OSM::Position(int32_t(toi(c[1])), int32_t(toi(c[2]))))); } }
        if (t[0] == "n") {
            OSM::Node n; n.id(osm_object_id_t(toi(t[3]))); n.position(v[0].position());
            if (t[1] == "list") all(Geometry::Point(v[0].position(), toi(t[3])), "point", false); else all(Geometry::Point(n), "point", false);
        } else {
            OSM::Way w; w.id(osm_object_id_t(toi(t[3]))); for (size_t i = 0; i < v.size(); ++i) w.nodes().add(v[i]);
            for (int rev = 0; rev < 2; ++rev) {
                if (t[1] == "list") all(Geometry::LineString(w.nodes(), rev, toi(t[3])), "line", rev); else if (!rev) all(Geometry::LineString(w), "line", rev); else all(Geometry::LineString(w, rev), "line", rev);
                try {
                    if (t[1] == "list") { Geometry::Polygon p(w.nodes(), rev, toi(t[3])); all(p, "polygon", rev); }
                    else if (!rev) { Geometry::Polygon p(w); all(p, "polygon", rev); } else { Geometry::Polygon p(w, rev); all(p, "polygon", rev); }
                } catch (Geometry::RingNotClosed&) { emit("{\"e\":\"refused\",\"k\":\"polygon\"}"); }
            }
        }
    }
    flush();
    return 0;
}

// Distances on the sphere.
#include "vf.hpp"
#include <osmium/geometry/haversine.hpp>
using namespace vf;
using namespace Osmium;
static std::string um(double d) {
    if (!(d > -1e8 && d < 1e12)) return "[]";
    int64_t n = llround(d * 1e6); bool neg = n < 0; int64_t p[5];
    for (int i = 4; i > 0; --i) { int64_t m = n % 10000; if (m < 0) m += 10000; p[i] = m; n = (n - m) / 10000; }
    (void)neg; p[0] = n;
    std::string r = "["; for (int i = 0; i < 5; ++i) r += (i ? "," : "") + num(p[i]);
    return r + "]";
}
static OSM::Position P(const toks& t, int i) { return OSM::Position(static_cast<int32_t>(toi(t[i])), static_cast<int32_t>(toi(t[i + 1]))); }
static double D(const OSM::Position& a, const OSM::Position& b) { return Geometry::Haversine::distance(a, b); }
int main() {
    toks t;
    while (read_line(t)) {
        if (t[0] == "B") emit(t[1]);
        else if (t[0] == "pair") { // a b  a2 b2 (the same, moved in longitude)
            OSM::Position a = P(t, 1), b = P(t, 3), a2 = P(t, 5), b2 = P(t, 7);
            OSM::Position ae(-a.x(), a.y()), be(-b.x(), b.y()), an(a.x(), -a.y()), bn(b.x(), -b.y());
            emit("{\"e\":\"pair\",\"a\":[" + t[1] + "," + t[2] + "],\"b\":[" + t[3] + "," + t[4] + "],\"d\":" + um(D(a, b)) + ",\"same\":[" + um(D(b, a)) + "," + um(D(a2, b2)) + "," +
                 um(D(ae, be)) + "," + um(D(an, bn)) + "," + um(Geometry::Haversine::distance(a.lon(), a.lat(), b.lon(), b.lat())) + "]}");
        }
        else if (t[0] == "tri") { OSM::Position a = P(t, 1), b = P(t, 3), c = P(t, 5); emit("{\"e\":\"tri\",\"ab\":" + um(D(a, b)) + ",\"bc\":" + um(D(b, c)) + ",\"ac\":" + um(D(a, c)) + "}"); }
        else if (t[0] == "way") { // x y x y ...
            OSM::WayNodeList w, v; std::vector<OSM::Position> ps;
            for (size_t i = 1; i + 1 < t.size(); i += 2) ps.push_back(P(t, i));
            for (size_t i = 0; i < ps.size(); ++i) { size_t k = 0; while (ps[k] != ps[i]) ++k; w.add(OSM::WayNode(k, ps[i])); v.add(OSM::WayNode(i % (1 + ps.size() % 3), ps[ps.size() - 1 - i])); }
            std::string s; for (size_t i = 1; i < ps.size(); ++i) s += (i > 1 ? "," : "") + um(D(ps[i - 1], ps[i]));
            emit("{\"e\":\"way\",\"n\":" + num(ps.size()) + ",\"pairs\":[" + s + "],\"d\":" + um(Geometry::Haversine::distance(w)) + ",\"back\":" + um(Geometry::Haversine::distance(v)) + "}");
        }
        else return 3;
    }
    flush();
    return 0;
}

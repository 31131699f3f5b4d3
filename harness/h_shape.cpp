// Shapefile export. Real files through the installed shapelib, or ("sink") a stand-in that keeps
// everything in memory, so that files at the size limit cost nothing.
#include <iostream>
#include "vf.hpp"
#include <dlfcn.h>
#include <dirent.h>
#include <sys/stat.h>
#include <fstream>
#include <osmium/export/shapefile.hpp>
using namespace vf;
using namespace Osmium;

// ---------------------------------------------------------------- the stand-in
struct Kept { int type; std::vector<std::string> fields; std::vector<std::string> rows; std::vector<std::string> shapes; std::vector<std::string> cur; bool open; };
static bool sink = false;
static std::map<std::string, Kept> kept;
static std::vector<std::string> order;
static std::map<void*, std::string> handles;
static std::string bytes(const std::string& v) { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + num(static_cast<unsigned char>(v[i])); return "[" + r + "]"; }
template <typename F> static F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
static std::string stem(const char* f) { // without the suffix, as shapelib does it
    std::string s(f); size_t d = s.rfind('.'), h = s.rfind('/');
    return d != std::string::npos && (h == std::string::npos || d > h) ? s.substr(0, d) : s;
}
static Kept& K(void* h) { return kept[handles[h]]; }
extern "C" {
SHPHandle SHPCreate(const char* f, int t) {
    if (!sink) return real<SHPHandle (*)(const char*, int)>("SHPCreate")(f, t);
    SHPHandle h = static_cast<SHPHandle>(calloc(1, sizeof(SHPInfo))); h->nShapeType = t;
    Kept k; k.type = t; k.open = true; kept[stem(f)] = k; order.push_back(stem(f)); handles[h] = stem(f);
    return h;
}
DBFHandle DBFCreate(const char* f) {
    if (!sink) return real<DBFHandle (*)(const char*)>("DBFCreate")(f);
    DBFHandle h = static_cast<DBFHandle>(calloc(1, sizeof(DBFInfo))); handles[h] = stem(f); return h;
}
int DBFAddField(DBFHandle h, const char* n, DBFFieldType t, int w, int d) {
    if (!sink) return real<int (*)(DBFHandle, const char*, DBFFieldType, int, int)>("DBFAddField")(h, n, t, w, d);
    Kept& k = K(h);
    std::string ty = t == FTString ? "C" : t == FTLogical ? "L" : "N";
    k.fields.push_back("[" + q(std::string(n).substr(0, 10)) + ",\"" + ty + "\"," + num(w) + "," + num(d) + "]");
    return k.fields.size() - 1;
}
static void put_row(Kept& k) { std::string s; for (size_t i = 0; i < k.cur.size(); ++i) s += (i ? "," : "") + k.cur[i]; k.rows.push_back("[" + s + "]"); }
int SHPWriteObject(SHPHandle h, int i, SHPObject* o) {
    if (!sink) return real<int (*)(SHPHandle, int, SHPObject*)>("SHPWriteObject")(h, i, o);
    Kept& k = K(h);
    if (!k.shapes.empty()) put_row(k);
    k.cur.assign(k.fields.size(), "[]");
    k.shapes.push_back("[" + num(o->nSHPType) + "," + num(o->nParts) + "," + num(o->nVertices) + "]");
    return k.shapes.size() - 1;
}
static int keep(DBFHandle h, int s, int f, const std::string& v) {
    Kept& k = K(h);
    if (s != static_cast<int>(k.shapes.size()) - 1 || f < 0 || f >= static_cast<int>(k.cur.size())) return 0;
    k.cur[f] = v;
    return 1;
}
int DBFWriteLogicalAttribute(DBFHandle h, int s, int f, const char v) {
    if (!sink) return real<int (*)(DBFHandle, int, int, const char)>("DBFWriteLogicalAttribute")(h, s, f, v);
    return keep(h, s, f, "[" + bytes(std::string(1, v)) + "]");
}
int DBFWriteIntegerAttribute(DBFHandle h, int s, int f, int v) {
    if (!sink) return real<int (*)(DBFHandle, int, int, int)>("DBFWriteIntegerAttribute")(h, s, f, v);
    return keep(h, s, f, "[" + bytes(num(v)) + "]");
}
int DBFWriteStringAttribute(DBFHandle h, int s, int f, const char* v) {
    if (!sink) return real<int (*)(DBFHandle, int, int, const char*)>("DBFWriteStringAttribute")(h, s, f, v);
    return keep(h, s, f, *v ? "[" + bytes(v) + "]" : "[]");
}
int DBFWriteNULLAttribute(DBFHandle h, int s, int f) {
    if (!sink) return real<int (*)(DBFHandle, int, int)>("DBFWriteNULLAttribute")(h, s, f);
    return keep(h, s, f, "[]");
}
void SHPClose(SHPHandle h) {
    if (!sink) { real<void (*)(SHPHandle)>("SHPClose")(h); return; }
    Kept& k = K(h); if (!k.shapes.empty()) put_row(k);
    k.open = false; handles.erase(h); free(h);
}
void DBFClose(DBFHandle h) {
    if (!sink) { real<void (*)(DBFHandle)>("DBFClose")(h); return; }
    handles.erase(h); free(h);
}
}

// ---------------------------------------------------------------- reading back
static std::string slurp(const std::string& f) { std::ifstream i(f.c_str()); std::stringstream s; s << i.rdbuf(); return i ? s.str() : "(none)"; }
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static int64_t size_of(const std::string& f) { struct stat s; return stat(f.c_str(), &s) ? -1 : s.st_size; }
static std::string units(double v) { // exact multiples of 10^-7 or nothing
    int64_t n = llround(v * 1e7); return n / 1e7 == v && llabs(n) < 2000000000LL ? num(n) : "\"inexact\"";
}
static std::string rle(const std::vector<std::string>& a, const std::vector<std::string>& b) { // runs of equal [shape, row]
    std::string r; int n = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        ++n;
        if (sink && i + 1 < a.size() && a[i] == a[i + 1] && b[i] == b[i + 1]) continue;
        r += (r.empty() ? "" : ",") + std::string("[") + a[i] + "," + b[i] + "," + num(n) + "]"; n = 0;
    }
    return "[" + r + "]";
}
static std::string file_json(const std::string& f, bool head) {
    std::vector<std::string> shapes, rows, fields; int type = 0, records = 0;
    SHPHandle s = SHPOpen((f + ".shp").c_str(), "rb"); DBFHandle d = DBFOpen((f + ".dbf").c_str(), "rb");
    if (!s || !d) { if (s) SHPClose(s); if (d) DBFClose(d); return "{\"name\":\"unreadable\"}"; }
    int ns; SHPGetInfo(s, &ns, &type, 0, 0); records = DBFGetRecordCount(d);
    int nf = DBFGetFieldCount(d); std::vector<int> w(nf);
    for (int i = 0; i < nf; ++i) {
        char name[XBASE_FLDNAME_LEN_READ + 1]; int wd, de; DBFGetFieldInfo(d, i, name, &wd, &de); w[i] = wd;
        fields.push_back("[" + q(name) + ",\"" + std::string(1, DBFGetNativeFieldType(d, i)) + "\"," + num(wd) + "," + num(de) + "]");
    }
    for (int i = 0; i < ns; ++i) {
        SHPObject* o = SHPReadObject(s, i);
        if (!o) { shapes.push_back("\"unreadable\""); rows.push_back("[]"); continue; }
        std::string p, v;
        for (int k = 0; k < o->nParts; ++k) p += (k ? "," : "") + num(o->panPartStart[k]);
        for (int k = 0; k < o->nVertices; ++k) v += (k ? "," : "") + std::string("[") + units(o->padfX[k]) + "," + units(o->padfY[k]) + "]";
        if (o->nSHPType == SHPT_POINT) p = ""; // shapelib gives points one part, or none
        shapes.push_back("[" + num(o->nSHPType) + ",[" + p + "],[" + v + "]]");
        SHPDestroyObject(o);
        std::string r;
        const char* t = i < records ? DBFReadTuple(d, i) : 0;
        int off = 1;
        for (int k = 0; k < nf; ++k) {
            std::string raw = t ? std::string(t + off, w[k]) : ""; off += w[k];
            bool blank = true; for (size_t j = 0; j < raw.size(); ++j) if (raw[j] != ' ' && raw[j]) blank = false;
            bool null = blank || DBFIsAttributeNULL(d, i, k);
            r += (k ? "," : "") + (null ? std::string("[]") : "[" + bytes(raw) + "]");
        }
        rows.push_back("[" + r + "]");
    }
    DBFClose(d); SHPClose(s);
    std::string fl; for (size_t i = 0; i < fields.size(); ++i) fl += (i ? "," : "") + fields[i];
    std::string prj = slurp(f + ".prj"), cpg = slurp(f + ".cpg");
    std::string nm = f.substr(f.rfind('/') + 1);
    return "{\"name\":" + q(nm) + ",\"type\":" + num(type) + ",\"fields\":[" + fl + "],\"runs\":" + rle(shapes, rows) + ",\"extra\":" + num(std::max(0, records - ns)) +
           ",\"prj\":" + bl(prj.find("WGS_1984") != std::string::npos) + ",\"cpg\":" + bl(cpg == "UTF-8\n") + ",\"shp\":" + num(size_of(f + ".shp")) + ",\"dbf\":" + num(size_of(f + ".dbf")) + "}";
}
static std::string kept_json(const std::string& f) {
    const Kept& k = kept[f];
    std::string fl; for (size_t i = 0; i < k.fields.size(); ++i) fl += (i ? "," : "") + k.fields[i];
    return "{\"name\":" + q(f.substr(f.rfind('/') + 1)) + ",\"type\":" + num(k.type) + ",\"fields\":[" + fl + "],\"runs\":" + rle(k.shapes, k.rows) + ",\"extra\":0,\"prj\":" + bl(slurp(f + ".prj").find("WGS_1984") != std::string::npos) +
           ",\"cpg\":" + bl(slurp(f + ".cpg") == "UTF-8\n") + ",\"shp\":0,\"dbf\":0,\"open\":" + bl(k.open) + "}";
}

// ---------------------------------------------------------------- commands
struct Any : public Export::Shapefile { Any(const std::string& f, int t) : Shapefile(f, t) {} };
static OSM::WayNodeList nodes_of(const std::string& s) { // ref:x:y,...
    OSM::WayNodeList l;
    if (s.empty()) return l;
    toks t = split(s, ',');
    for (size_t i = 0; i < t.size(); ++i) { toks p = split(t[i], ':'); OSM::WayNode n(toi(p[0])); if (p.size() > 2) n.position(OSM::Position(static_cast<int32_t>(toi(p[1])), static_cast<int32_t>(toi(p[2])))); l.add(n); }
    return l;
}
static std::string nodes_js(const OSM::WayNodeList& l) {
    std::string r; for (size_t i = 0; i < l.size(); ++i) r += (i ? "," : "") + std::string("[") + num(l[i].ref()) + "," + num(l[i].position().x()) + "," + num(l[i].position().y()) + "]";
    return "[" + r + "]";
}
static geos::geom::LinearRing* ring_of(const std::string& s) { // x:y,...
    std::vector<geos::geom::Coordinate>* c = new std::vector<geos::geom::Coordinate>; toks t = split(s, ',');
    for (size_t i = 0; i < t.size(); ++i) { toks p = split(t[i], ':'); OSM::Position q(static_cast<int32_t>(toi(p[0])), static_cast<int32_t>(toi(p[1]))); c->push_back(geos::geom::Coordinate(q.lon(), q.lat())); }
    return Osmium::Geometry::geos_geometry_factory()->createLinearRing(Osmium::Geometry::geos_geometry_factory()->getCoordinateSequenceFactory()->create(c));
}
static SHPObject* forged(int type, int parts, int n) { SHPObject* o = static_cast<SHPObject*>(calloc(1, sizeof(SHPObject))); o->nSHPType = type; o->nParts = parts; o->nVertices = n; return o; }
static std::string outcome(const std::function<void()>& f) {
    try { f(); return "ok"; }
    catch (const Osmium::Geometry::IllegalGeometry&) { return "illegal"; }
    catch (const Osmium::Geometry::RingNotClosed&) { return "open"; }
    catch (const std::exception&) { return "error"; }
    catch (...) { return "other"; }
}
int main() {
    toks t; Export::Shapefile* s = 0; std::string dir, base; int type = 0;
    freopen("/dev/null", "w", stderr);
    while (read_line(t)) {
        std::string c = t[0];
        if (c == "B") { emit(t[1]); }
        else if (c == "new") { // dir base kind sink
            delete s; s = 0; dir = t[1]; base = dir + "/" + t[2]; sink = t[4] == "1"; kept.clear(); order.clear();
            int before = fds();
            std::string o = outcome([&]() {
                if (t[3] == "point") { type = SHPT_POINT; s = new Export::PointShapefile(base); }
                else if (t[3] == "line") { type = SHPT_ARC; s = new Export::LineStringShapefile(base); }
                else if (t[3] == "poly") { type = SHPT_POLYGON; s = new Export::PolygonShapefile(base); }
                else { type = toi(t[3]); s = new Any(base, type); }
            });
            emit("{\"e\":\"new\",\"type\":" + num(type) + ",\"sink\":" + bl(sink) + ",\"base\":" + q(t[2]) + ",\"out\":\"" + o + "\",\"left\":" + num(o == "ok" ? 0 : fds() - before) + "}");
        }
        else if (c == "field") { // how name type width dec
            int w = toi(t[4]), d = toi(t[5]); std::string n = unpct(t[2]);
            std::string o = outcome([&]() {
                if (t[1] == "s") s->add_field(n, t[3], w, d);
                else if (t[1] == "s0") s->add_field(n, t[3]);
                else { DBFFieldType ty = t[3] == "string" ? FTString : t[3] == "integer" ? FTInteger : t[3] == "double" ? FTDouble : FTLogical; s->add_field(n, ty, w, d); }
            });
            int i = static_cast<int>(s->fields().size()) - 1;
            emit("{\"e\":\"field\",\"how\":\"" + t[1] + "\",\"name\":" + q(n) + ",\"len\":" + num(n.size()) + ",\"type\":\"" + t[3] + "\",\"width\":" + num(w) + ",\"dec\":" + num(d) + ",\"out\":\"" + o + "\",\"n\":" + num(i + 1) +
                 ",\"last\":" + (i < 0 ? "[]" : "[" + q(s->field(i).name()) + "," + num(s->field(i).width()) + "," + num(s->field(i).decimals()) + "]") + "}");
        }
        else if (c == "many") { // n type parts verts value: forged geometries with the first attribute
            int n = toi(t[1]), done = 0;
            std::string o = outcome([&]() { for (; done < n; ++done) { s->add_geometry(forged(toi(t[2]), toi(t[3]), toi(t[4]))); if (!s->fields().empty()) s->add_attribute(0, t[5]); } });
            emit("{\"e\":\"many\",\"n\":" + num(n) + ",\"g\":[" + t[2] + "," + t[3] + "," + t[4] + "],\"bytes\":" + bytes(t[5]) + ",\"out\":\"" + o + "\"}");
        }
        else if (c == "geom") { // what args... base?
            std::string src;
            bool asbase = t[1] == "1"; const std::string& w = t[2];
            std::string o = outcome([&]() {
                if (w == "point") {
                    OSM::Position p(static_cast<int32_t>(toi(t[3])), static_cast<int32_t>(toi(t[4])));
                    src = "\"pts\":[" + t[3] + "," + t[4] + "]";
                    Osmium::Geometry::Point g(p); const Osmium::Geometry::Geometry& b = g;
                    s->add_geometry(asbase ? create_shp_object(b) : create_shp_object(g));
                } else if (w == "line" || w == "ring") {
                    OSM::WayNodeList l = nodes_of(t[4]); bool rev = t[3] == "1";
                    src = "\"nodes\":" + nodes_js(l) + ",\"rev\":" + bl(rev);
                    if (w == "line") { Osmium::Geometry::LineString g(l, rev); const Osmium::Geometry::Geometry& b = g; s->add_geometry(asbase ? create_shp_object(b) : create_shp_object(g)); }
                    else { Osmium::Geometry::Polygon g(l, rev); const Osmium::Geometry::Geometry& b = g; s->add_geometry(asbase ? create_shp_object(b) : create_shp_object(g)); }
                } else if (w == "mp") { // polygons '|' rings '/' points
                    std::string js; toks ps = split(t[3], '|'); std::vector<geos::geom::Geometry*>* polys = new std::vector<geos::geom::Geometry*>;
                    for (size_t i = 0; i < ps.size(); ++i) {
                        toks rs = split(ps[i], '/'); std::vector<geos::geom::Geometry*>* holes = new std::vector<geos::geom::Geometry*>;
                        for (size_t k = 0; k < rs.size(); ++k) {
                            if (k) holes->push_back(ring_of(rs[k]));
                            std::string pj; toks xs = split(rs[k], ','); for (size_t m = 0; m < xs.size(); ++m) { toks p = split(xs[m], ':'); pj += (m ? "," : "") + std::string("[") + p[0] + "," + p[1] + "]"; }
                            js += (js.empty() ? "" : ",") + std::string("[") + pj + "]";
                        }
                        polys->push_back(Osmium::Geometry::geos_geometry_factory()->createPolygon(ring_of(rs[0]), holes));
                    }
                    src = "\"rings\":[" + js + "]";
                    OSM::Relation r; r.id(7); OSM::Area a(r); a.geos_geometry(Osmium::Geometry::geos_geometry_factory()->createMultiPolygon(polys));
                    Osmium::Geometry::MultiPolygon g(a); const Osmium::Geometry::Geometry& b = g;
                    s->add_geometry(asbase ? create_shp_object(b) : create_shp_object(g));
                } else if (w == "area") { // closed way
                    OSM::WayNodeList l = nodes_of(t[4]);
                    src = "\"nodes\":" + nodes_js(l) + ",\"rev\":false";
                    OSM::Way way; way.id(5); for (size_t i = 0; i < l.size(); ++i) way.nodes().add(l[i]);
                    OSM::Area a(way); Osmium::Geometry::MultiPolygon g(a); const Osmium::Geometry::Geometry& b = g;
                    s->add_geometry(asbase ? create_shp_object(b) : create_shp_object(g));
                } else { src = "\"none\":true"; s->add_geometry(0); }
            });
            emit("{\"e\":\"geom\",\"what\":\"" + w + "\"," + src + ",\"out\":\"" + o + "\"}");
        }
        else if (c == "attr") { // field how value
            int f = toi(t[1]); const std::string& h = t[2]; std::string v = unpct(t[3]), x = "";
            std::string o = outcome([&]() {
                if (h == "bool") s->add_attribute(f, v == "T");
                else if (h == "int") s->add_attribute(f, static_cast<int>(toi(v)));
                else if (h == "double") s->add_attribute(f, strtod(v.c_str(), 0));
                else if (h == "string") s->add_attribute(f, v);
                else if (h == "chars") s->add_attribute(f, v.c_str());
                else if (h == "cut") s->add_attribute_with_truncate(f, v);
                else if (h == "cutc") s->add_attribute_with_truncate(f, v.c_str());
                else s->add_attribute(f);
            });
            emit("{\"e\":\"attr\",\"f\":" + num(f + 1) + ",\"how\":\"" + h + "\",\"val\":" + q(v) + ",\"bytes\":" + bytes(v) + ",\"out\":\"" + o + "\"}");
        }
        else if (c == "close") { // close() itself, or the destructor
            if (t[1] == "close") { s->close(); if (t.size() > 2) s->close(); }
            else { delete s; s = 0; }
            std::string r;
            if (sink) for (size_t i = 0; i < order.size(); ++i) r += (i ? "," : "") + kept_json(order[i]);
            else for (int i = 0; ; ++i) { std::string f = base + (i ? "_" + num(i) : ""); if (size_of(f + ".shp") < 0) break; r += (i ? "," : "") + file_json(f, false); }
            emit("{\"e\":\"files\",\"files\":[" + r + "]}");
            delete s; s = 0;
        }
        else return 3;
    }
    flush();
    return 0;
}

// JavaScript handlers: every script runs beside a C++ handler that logs the same objects.
// Loaded into node, with the V8 interface of Osmium's time on top (v8compat).
#include <v8.h>
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include "vf.hpp"
#include <fstream>
#include <osmium.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/handler/coordinates_for_ways.hpp>
#include <osmium/multipolygon/assembler.hpp>
#include <osmium/javascript.hpp>
using namespace vf;
using namespace Osmium;

v8::Persistent<v8::Context> global_context;

// ------------------------------------------------------------------ the C++ handler beside it
static std::string two(double lon, double lat) { return "[" + num(llround(lon * 1e7)) + "," + num(llround(lat * 1e7)) + "]"; }
template <class G> std::string forms(const G& g, const std::string& arr) { // the texts a script can ask for
    std::ostringstream a, b, c, d, e, f;
    a << g.as_WKT(); b << g.as_WKT(true); c << g.as_HexWKB(); d << g.as_HexWKB(true); e << g.as_WKB(); f << g.as_WKB(true);
    return "[[" + q(a.str()) + "," + q(b.str()) + "," + q(c.str()) + "," + q(d.str()) + "," + q(e.str()) + "," + q(f.str()) + "]," + arr + "]";
}
static std::string line(const OSM::WayNodeList& n, bool rev) {
    std::string r;
    for (size_t i = 0; i < n.size(); ++i) { const OSM::WayNode& w = n[rev ? n.size() - 1 - i : i]; r += (i ? "," : "") + two(w.position().lon(), w.position().lat()); }
    return "[" + r + "]";
}
static std::string geoms(const OSM::Node& o) { return forms(Geometry::Point(o), two(o.position().lon(), o.position().lat())); }
static std::string geoms(const OSM::Way& o) {
    if (!o.nodes().has_position()) return "[],[],[]";
    std::string r = forms(Geometry::LineString(o), line(o.nodes(), false)) + "," + forms(Geometry::LineString(o, true), line(o.nodes(), true)) + ",";
    return r + (o.nodes().is_closed() ? forms(Geometry::Polygon(o), "[" + line(o.nodes(), false) + "]") : "[]");
}
static std::string geoms(const OSM::Relation&) { return ""; }
static std::string ring(const geos::geom::LineString* l) {
    std::string r; const geos::geom::CoordinateSequence* s = l->getCoordinatesRO();
    for (size_t i = 0; i < s->getSize(); ++i) r += (i ? "," : "") + two(s->getX(i), s->getY(i));
    return "[" + r + "]";
}
// the shapefile a C++ program would write where the script writes one
struct Twin {
    std::string base, kind, cb; std::vector<std::vector<toks> > rows; size_t n; Export::Shapefile* f;
    void add(const Geometry::Geometry& g) {
        const std::vector<toks>& r = rows[n++ % rows.size()];
        try { f->add_geometry(Geometry::create_shp_object(g)); } catch (Geometry::IllegalGeometry&) { return; }
        for (size_t i = 0; i < r.size(); ++i) {
            const std::string& k = r[i][0];
            if (k == "null") f->add_attribute(i);
            else if (k == "int") f->add_attribute(i, int(toi(r[i][1])));
            else if (k == "bool") f->add_attribute(i, r[i][1] == "T");
            else f->add_attribute(i, unpct(r[i][1]));
        }
    }
};
static Twin* twin = 0;
static void twin_add(const OSM::Node& o) { twin->add(Geometry::Point(o)); }
static void twin_add(const OSM::Way& o) {
    if (!o.nodes().has_position() || (twin->kind == "polygon" && !o.nodes().is_closed())) twin->add(Geometry::Null());
    else if (twin->kind == "polygon") twin->add(Geometry::Polygon(o));
    else twin->add(Geometry::LineString(o));
}
static void twin_add(const OSM::Relation&) {}
static void twin_add(const OSM::Area& o) { twin->add(Geometry::MultiPolygon(o)); }
struct Cpp : Handler::Base {
    template <class O> void also(const char* cb, const O& o) { if (twin && twin->cb == cb) twin_add(o); }
    void ev(const char* cb, const std::string& rest = "") { emit(std::string("{\"e\":\"cpp\",\"cb\":\"") + cb + "\"" + rest + "}"); flush(); }
    template <class O> void obj(const char* cb, const O& o) {
        ev(cb, ",\"iso\":" + q(o.timestamp_as_string()) + ",\"o\":" + js(o) + ",\"geom\":[" + geoms(o) + "]");
        also(cb, o);
    }
    void init(OSM::Meta&) { ev("init"); }
    void before_nodes() { ev("before_nodes"); }
    void after_nodes() { ev("after_nodes"); }
    void before_ways() { ev("before_ways"); }
    void after_ways() { ev("after_ways"); }
    void before_relations() { ev("before_relations"); }
    void after_relations() { ev("after_relations"); }
    void final() { ev("end"); if (twin) twin->f->close(); }
    void node(const shared_ptr<OSM::Node const>& o) { obj("node", *o); }
    void way(const shared_ptr<OSM::Way const>& o) { obj("way", *o); }
    void relation(const shared_ptr<OSM::Relation const>& o) { obj("relation", *o); }
    void area(const shared_ptr<OSM::Area const>& o) {
        Geometry::MultiPolygon m(*o); const geos::geom::MultiPolygon* g = m.borrow_geos_geometry(); std::string s;
        for (size_t i = 0; i < g->getNumGeometries(); ++i) {
            const geos::geom::Polygon* p = dynamic_cast<const geos::geom::Polygon*>(g->getGeometryN(i));
            s += (i ? ",[" : "[") + ring(p->getExteriorRing());
            for (size_t j = 0; j < p->getNumInteriorRing(); ++j) s += "," + ring(p->getInteriorRingN(j));
            s += "]";
        }
        ev("area", ",\"iso\":" + q(o->timestamp_as_string()) + ",\"o\":{\"t\":\"a\"," + common(*o) + ",\"nodes\":[],\"mem\":[]},\"from\":\"" + (o->from_way() ? "way" : "relation") +
           "\",\"geom\":[" + forms(m, "[" + s + "]") + "]");
        also("area", *o);
    }
};
// both, whatever the callback
struct Both : Handler::Base {
    Cpp& a; Javascript::Handler& b;
    Both(Cpp& x, Javascript::Handler& y) : a(x), b(y) {}
    void init(OSM::Meta& m) { a.init(m); b.init(m); }
    void before_nodes() { a.before_nodes(); b.before_nodes(); }
    void after_nodes() { a.after_nodes(); b.after_nodes(); }
    void before_ways() { a.before_ways(); b.before_ways(); }
    void after_ways() { a.after_ways(); b.after_ways(); }
    void before_relations() { a.before_relations(); b.before_relations(); }
    void after_relations() { a.after_relations(); b.after_relations(); }
    void final() { a.final(); b.final(); }
    void node(const shared_ptr<OSM::Node const>& o) { a.node(o); b.node(o); }
    void way(const shared_ptr<OSM::Way const>& o) { a.way(o); b.way(o); }
    void relation(const shared_ptr<OSM::Relation const>& o) { a.relation(o); b.relation(o); }
    void area(const shared_ptr<OSM::Area const>& o) { a.area(o); b.area(o); }
};

static v8::Handle<v8::Value> gc(const v8::Arguments&) {
    v8::iso()->RequestGarbageCollectionForTesting(realv8::Isolate::kFullGarbageCollection);
    return v8::Undefined();
}
static v8::Handle<v8::Value> trace(const v8::Arguments& args) { // the script's own events
    v8::String::Utf8Value s(args[0]); emit(*s); flush();
    return v8::Undefined();
}
static std::string slurp(const std::string& f) { std::ifstream i(f.c_str()); std::stringstream s; s << i.rdbuf(); return i ? s.str() : "(none)"; }
static void left(int code, void*) { emit("{\"e\":\"exit\",\"code\":" + num(code) + "}"); flush(); std::cout.flush(); _exit(0); }

static void do_run(const toks& t) { // run mode infile type enc script includes,..
    realv8::Isolate* iso = v8::iso();
    realv8::HandleScope scope(iso);
    v8::Handle<v8::ObjectTemplate> g = v8::ObjectTemplate::New();
    g->Set(v8::String::New("print"), v8::FunctionTemplate::New(Javascript::Handler::Print));
    g->Set(v8::String::New("include"), v8::FunctionTemplate::New(Javascript::Handler::Include));
    g->Set(v8::String::New("gc"), v8::FunctionTemplate::New(gc));
    g->Set(v8::String::New("trace"), v8::FunctionTemplate::New(trace));
    realv8::Local<realv8::Context> c = realv8::Context::New(iso, 0, g->t());
    realv8::Context::Scope cs(c);
    OSMFile f(t[2]); f.type(t[3]); if (!t[4].empty()) f.encoding(t[4]); f.filename(t[2]);
    std::vector<std::string> inc;
    if (!t[6].empty()) inc = split(t[6], ',');
    Cpp cpp; Javascript::Handler jsh(inc, t[5].c_str());
    Both both(cpp, jsh);
    typedef Storage::ById::SparseTable<OSM::Position> Store;
    typedef Handler::CoordinatesForWays<Store, Store> Cfw;
    try {
        if (t[1] == "plain") Input::read(f, both);
        else if (t[1] == "alone") Input::read(f, jsh);           // no C++ handler in between
        else {
            Store pos, neg; Cfw cfw(pos, neg);
            if (t[1] == "loc") { Handler::Sequence<Cfw, Both> s(cfw, both); Input::read(f, s); }
            else {
                MultiPolygon::Assembler<Both> a(both, false);
                Handler::Sequence<Cfw, MultiPolygon::Assembler<Both>::HandlerPass2> s(cfw, a.handler_pass2());
                Input::read(f, a.handler_pass1());
                Input::read(f, s);
            }
        }
        emit("{\"e\":\"ret\"}");
    } catch (std::exception& e) { emit("{\"e\":\"throw\",\"what\":" + q(e.what()) + "}"); }
    flush();
}

static void run(const realv8::FunctionCallbackInfo<realv8::Value>&) {
    on_exit(left, 0);
    toks t;
    while (read_line(t)) {
        if (t[0] == "B") { emit(t[1]); flush(); }
        else if (t[0] == "run") do_run(t);
        else if (t[0] == "file") emit("{\"e\":\"file\",\"text\":" + q(slurp(t[1])) + "}");
        else if (t[0] == "twin") { // twin base kind cb name,type,width;.. call:value;..|..
            twin = new Twin(); twin->base = t[1]; twin->kind = t[2]; twin->cb = t[3]; twin->n = 0;
            if (t[2] == "point") twin->f = new Export::PointShapefile(t[1]);
            else if (t[2] == "line") twin->f = new Export::LineStringShapefile(t[1]);
            else twin->f = new Export::PolygonShapefile(t[1]);
            toks f = split(t[4], ';');
            for (size_t i = 0; i < f.size(); ++i) { toks x = split(f[i], ','); twin->f->add_field(x[0], x[1], toi(x[2])); }
            toks r = split(t[5], '|');
            for (size_t i = 0; i < r.size(); ++i) { toks c = split(r[i], ';'); std::vector<toks> v; for (size_t k = 0; k < c.size(); ++k) v.push_back(split(c[k], ':')); twin->rows.push_back(v); }
        }
        else if (t[0] == "same") { // same a b: are the two shapefiles equal?
            static const char* suf[] = {".shp", ".shx", ".dbf", ".prj", ".cpg"}; std::string r;
            for (int i = 0; i < 5; ++i) {
                std::string a = slurp(t[1] + suf[i]), b = slurp(t[2] + suf[i]);
                if (i == 2 && a.size() > 4 && b.size() > 4) a.replace(1, 3, b, 1, 3);    // the date
                r += std::string(i ? "," : "") + bl(a == b && a != "(none)");
            }
            emit("{\"e\":\"twin\",\"same\":[" + r + "]}"); delete twin->f; delete twin; twin = 0;
        }
        else if (t[0] == "endscn") emit("{\"e\":\"endscn\"}");
        else { flush(); _exit(3); }
    }
    flush(); std::cout.flush();
    _exit(0);
}
extern "C" NODE_MODULE_EXPORT void NODE_MODULE_INITIALIZER(realv8::Local<realv8::Object> exports, realv8::Local<realv8::Value>, realv8::Local<realv8::Context> c, void*) {
    realv8::Isolate* i = realv8::Isolate::GetCurrent();
    (void)exports->Set(c, realv8::String::NewFromUtf8Literal(i, "run"), realv8::Function::New(c, run).ToLocalChecked());
}

// Handlers under test between a logging source and logging sinks.
// "in"  = callback delivered to the handler under test, "cb" = callback a sink received.
#ifndef CHAIN_HPP
#define CHAIN_HPP
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include "vf.hpp"
#include <osmium/handler.hpp>
#include <osmium.hpp>
namespace Osmium { namespace OSM { class Area { public: int id; Area(int i) : id(i) {} }; } }
namespace vf {
using namespace Osmium;
inline std::vector<std::string>& cbs() { static std::vector<std::string> v; return v; }  // sink events, printed after the source's
inline void flush_cbs() { for (size_t i = 0; i < cbs().size(); ++i) emit(cbs()[i]); cbs().clear(); }
template <class O> std::string jo(const O& o) { return ",\"o\":" + js(o) + ",\"et\":" + qn(o.endtime()); }
inline std::string jm(const OSM::Meta& m) { return ",\"o\":{\"gen\":" + q(m.generator()) + ",\"multi\":" + bl(m.has_multiple_object_versions()) + ",\"bounds\":" + js_bounds(m.bounds()) + "}"; }

struct Sink {
    int h; int stop_at; int n; bool direct; bool fin_stop;
    Sink() : h(1), stop_at(0), n(0), direct(false), fin_stop(false) {}
    void ev(const char* c, const std::string& more = "") {
        std::string s = "{\"e\":\"cb\",\"h\":" + num(h) + ",\"c\":\"" + c + "\"" + more + "}";
        if (direct) emit(s); else cbs().push_back(s);
        if (++n == stop_at) { s = "{\"e\":\"stop\",\"h\":" + num(h) + "}"; if (direct) emit(s); else cbs().push_back(s); throw Handler::StopReading(); }
    }
    void init(OSM::Meta& m) { ev("init", jm(m)); }
    void before_nodes() { ev("bn"); } void after_nodes() { ev("an"); }
    void before_ways() { ev("bw"); } void after_ways() { ev("aw"); }
    void before_relations() { ev("br"); } void after_relations() { ev("ar"); }
    void area(const shared_ptr<OSM::Area const>& a) { ev("area", ",\"o\":" + num(a->id)); }
    void final() { stop_at = fin_stop ? n + 1 : 0; ev("fin"); }
    void set_debug_level(int d) { ev("dbg", ",\"o\":" + num(d)); }
};
struct Rec : Sink {       // takes const objects
    void node(const shared_ptr<OSM::Node const>& o) { ev("n", jo(*o)); }
    void way(const shared_ptr<OSM::Way const>& o) { ev("w", jo(*o)); }
    void relation(const shared_ptr<OSM::Relation const>& o) { ev("r", jo(*o)); }
};
struct RecM : Sink {      // takes objects it may change: adds a tag with its number after logging
    bool mut; RecM() : mut(false) {}
    template <class O> void go(const char* c, const shared_ptr<O>& o) {
        std::string s = jo(*o);
        if (mut) o->tags().add("h", num(h).c_str());
        ev(c, s);
    }
    void node(const shared_ptr<OSM::Node>& o) { go("n", o); }
    void way(const shared_ptr<OSM::Way>& o) { go("w", o); }
    void relation(const shared_ptr<OSM::Relation>& o) { go("r", o); }
};

template <class H> struct Tee {   // the source's side: logs what the handler under test is called with
    H& h; Tee(H& hh) : h(hh) {}
    void in(const char* c, const std::string& more = "") { emit(std::string("{\"e\":\"in\",\"c\":\"") + c + "\"" + more + "}"); }
    void init(OSM::Meta& m) { in("init", jm(m)); h.init(m); }
    void before_nodes() { in("bn"); h.before_nodes(); } void after_nodes() { in("an"); h.after_nodes(); }
    void before_ways() { in("bw"); h.before_ways(); } void after_ways() { in("aw"); h.after_ways(); }
    void before_relations() { in("br"); h.before_relations(); } void after_relations() { in("ar"); h.after_relations(); }
    void node(const shared_ptr<OSM::Node>& o) { in("n", jo(*o)); h.node(o); }
    void way(const shared_ptr<OSM::Way>& o) { in("w", jo(*o)); h.way(o); }
    void relation(const shared_ptr<OSM::Relation>& o) { in("r", jo(*o)); h.relation(o); }
    void final() { in("fin"); h.final(); }
};

// Drives t from the lines up to "end" the way a reader does: a stop signal ends it with one final call.
struct Extra { virtual void other(const toks&) = 0; virtual ~Extra() {} };
template <class H> void drive(H& h, OSM::Meta& meta, Extra* x = 0) {
    toks t; bool stopped = false; time_t et = 0;   // et: end time of the next object
    while (read_line(t) && t[0] != "end") {
        const std::string& c = t[0];
        if (c == "file") {
            OSMFile f(t[1]); f.type(t[2]); f.encoding(t[3]); f.filename(t[1]);
            Input::read(f, h);
            continue;
        }
        if (c == "et") { et = toi(t[1]); continue; }
        if (stopped) continue;
        try {
            if (c == "init") h.init(meta); else if (c == "bn") h.before_nodes(); else if (c == "an") h.after_nodes();
            else if (c == "bw") h.before_ways(); else if (c == "aw") h.after_ways(); else if (c == "br") h.before_relations();
            else if (c == "ar") h.after_relations(); else if (c == "n") { shared_ptr<OSM::Node> o = mknode(t); o->endtime(et); et = 0; h.node(o); }
            else if (c == "w") { shared_ptr<OSM::Way> o = mkway(t); o->endtime(et); et = 0; h.way(o); } else if (c == "r") { shared_ptr<OSM::Relation> o = mkrel(t); o->endtime(et); et = 0; h.relation(o); }
            else if (c == "fin") h.final();
            else if (x) x->other(t);
            else exit(3);
        } catch (Handler::StopReading&) { stopped = true; if (c != "fin") { try { h.final(); } catch (Handler::StopReading&) {} } }
    }
    flush_cbs();
}
inline OSM::Meta mkmeta(const std::string& gen, const std::string& b, const std::string& multi) {
    OSM::Meta m; m.generator(unpct(gen)); m.has_multiple_object_versions(multi == "1");
    if (!b.empty()) { toks p = split(b, ','); m.bounds().extend(OSM::Position(int32_t(toi(p[0])), int32_t(toi(p[1])))).extend(OSM::Position(int32_t(toi(p[2])), int32_t(toi(p[3])))); }
    return m;
}
} // namespace vf
#endif

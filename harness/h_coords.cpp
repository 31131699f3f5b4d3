// The coordinate handler over all pairs of stores.
#include "vf.hpp"
#include <osmium/storage/byid/fixed_array.hpp>
#include <osmium/storage/byid/mmap_anon.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/vector.hpp>
#include <osmium/handler/coordinates_for_ways.hpp>
using namespace vf;
using namespace Osmium;
typedef OSM::Position P;
typedef Storage::ById::Base<P> B;
static B* make(const std::string& k) {
    using namespace Storage::ById;
    if (k == "anon") return new MmapAnon<P>(); if (k == "file") return new MmapFile<P>(); if (k == "sparse") return new SparseTable<P>();
    if (k == "fixed") return new FixedArray<P>(100000); if (k == "map") return new StlMap<P>(); return new Storage::ById::Vector<P>();
}
static std::string pos(const P& p) { return "[" + num(p.x()) + "," + num(p.y()) + "]"; }
typedef Handler::CoordinatesForWays<B, B> H;
int main() {
    toks t; B* sp = 0; B* sn = 0; H* h = 0;
    while (read_line(t)) {
        const std::string c = t[0];
        if (c == "B") emit(t[1]);
        else if (c == "new") { delete h; delete sp; delete sn; sp = make(t[1]); sn = make(t[2]); h = new H(*sp, *sn); }
        else if (c == "n") { shared_ptr<OSM::Node> o = mknode(t); std::string s = js(*o); h->node(o); emit("{\"e\":\"node\",\"o\":" + s + ",\"after\":" + js(*o) + "}"); }
        else if (c == "w") {
            shared_ptr<OSM::Way> o = mkway(t); std::string s = js(*o);
            if (t.size() > 10 && t[10] == "old") for (size_t i = 0; i < o->nodes().size(); ++i) o->nodes()[i].position(P(int32_t(i), int32_t(i)));
            h->way(o);
            std::string ps; for (size_t i = 0; i < o->nodes().size(); ++i) ps += (i ? "," : "") + pos(o->nodes()[i].position());
            emit("{\"e\":\"way\",\"o\":" + s + ",\"after\":" + js(*o) + ",\"pos\":[" + ps + "]}");
        }
        else if (c == "r") { shared_ptr<OSM::Relation> o = mkrel(t); std::string s = js(*o); h->relation(o); emit("{\"e\":\"rel\",\"o\":" + s + ",\"after\":" + js(*o) + "}"); }
        else if (c == "get") emit("{\"e\":\"get\",\"id\":" + q(t[1]) + ",\"pos\":" + pos(h->get_node_pos(toi(t[1]))) + "}");
        else return 3;
    }
    delete h; delete sp; delete sn;
    flush();
    return 0;
}

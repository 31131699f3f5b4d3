// The object store: storing, clearing, feeding, and merging into a stream.
#include "chain.hpp"
#include <osmium/storage/objectstore.hpp>
using namespace vf;
typedef Storage::ObjectStore S;
int main() {
    toks t; S* s = 0;
    while (read_line(t)) {
        const std::string c = t[0];
        if (c == "B") emit(t[1]);
        else if (c == "new") { delete s; s = new S; }
        else if (c == "n") { shared_ptr<OSM::Node const> o = mknode(t); emit("{\"e\":\"put\",\"o\":" + js(*o) + "}"); s->node(o); }
        else if (c == "w") { shared_ptr<OSM::Way const> o = mkway(t); emit("{\"e\":\"put\",\"o\":" + js(*o) + "}"); s->way(o); }
        else if (c == "r") { shared_ptr<OSM::Relation const> o = mkrel(t); emit("{\"e\":\"put\",\"o\":" + js(*o) + "}"); s->relation(o); }
        else if (c == "clear") {
            emit("{\"e\":\"clear\",\"k\":" + q(t[1]) + "}");
            if (t[1] == "n") s->clear_nodes(); else if (t[1] == "w") s->clear_ways(); else if (t[1] == "r") s->clear_relations(); else s->clear();
        }
        else if (c == "feed") { // feed clear gen bounds multi
            OSM::Meta m = mkmeta(t[2], t[3], t[4]);
            Rec r; r.direct = true;
            emit("{\"e\":\"feed\",\"clear\":" + std::string(bl(t[1] != "0")) + jm(m) + "}");
            if (t[1] == "d") s->feed_to(&r, m); else s->feed_to(&r, m, t[1] == "1");
        }
        else if (c == "apply") { // apply stop gen bounds multi; lines up to end drive the stream
            OSM::Meta m = mkmeta(t[2], t[3], t[4]), other = mkmeta("stream", "", "0");
            Rec r; r.stop_at = toi(t[1]);
            emit("{\"e\":\"apply\",\"stop\":" + t[1] + jm(m) + "}");
            S::ApplyHandler<Rec> a(*s, r, m);
            Tee<S::ApplyHandler<Rec> > tee(a);
            drive(tee, other);
            emit("{\"e\":\"applied\"}");
        }
        else return 3;
    }
    delete s;
    flush();
    return 0;
}

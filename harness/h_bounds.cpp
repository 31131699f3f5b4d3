// Bounds extended by positions, and the bounding-box handler on streams and files.
#include "chain.hpp"
#include <osmium/handler/find_bbox.hpp>
using namespace vf;
int main() {
    toks t; OSM::Bounds b;
    while (read_line(t)) {
        const std::string c = t[0];
        if (c == "B") { emit(t[1]); b = OSM::Bounds(); }
        else if (c == "ext") { // ext x y how
            OSM::Position p(int32_t(toi(t[1])), int32_t(toi(t[2])));
            if (t[3] == "chain") { OSM::Bounds o(b); b = o.extend(p).extend(p); }   // twice: must make no difference
            else if (t[3] == "copy") { OSM::Bounds o(b); o.extend(p); OSM::Bounds z(o); z.extend(OSM::Position(int32_t(1799999999), int32_t(-900000000))); b = o; }
            else b.extend(p);
            emit("{\"e\":\"ext\",\"p\":[" + t[1] + "," + t[2] + "],\"box\":" + js_bounds(b) + "}");
        }
        else if (c == "read") {
            OSM::Meta m = mkmeta("g", "", "0");
            emit("{\"e\":\"read\"}");
            Handler::FindBbox h; Tee<Handler::FindBbox> tee(h);
            drive(tee, m);
            emit("{\"e\":\"box\",\"box\":" + js_bounds(h.bounds()) + "}");
        }
        else return 3;
    }
    flush();
    return 0;
}

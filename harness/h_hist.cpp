// End times and history ranges, alone and stacked; one stack may see several reads.
#include "chain.hpp"
#include <osmium/handler/endtime.hpp>
#include <osmium/handler/range_from_history.hpp>
using namespace vf;
typedef Handler::RangeFromHistory<Rec> R;
typedef Handler::EndTime<Rec> E;
typedef Handler::EndTime<R> ER;
template <class H> void reads(H& h, Rec& rec) {
    OSM::Meta m = mkmeta("stream", "1,2,3,4", "1");
    toks t;
    while (read_line(t) && t[0] != "close") { // B event, then stop position, then the stream up to end
        emit(t[1]); read_line(t);
        rec.n = 0; rec.stop_at = toi(t[1]);
        Tee<H> tee(h);
        drive(tee, m);
        emit("{\"e\":\"done\"}");
    }
}
int main() {
    toks t;
    while (read_line(t)) { // stack kind from to
        Rec rec;
        if (t[0] == "e") { E e(rec); reads(e, rec); }
        else if (t[0] == "r") { R r(rec, toi(t[1]), toi(t[2])); reads(r, rec); }
        else if (t[0] == "er") { R r(rec, toi(t[1]), toi(t[2])); ER e(r); reads(e, rec); }
        else return 3;
    }
    flush();
    return 0;
}

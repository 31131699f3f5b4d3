// Timestamps: to text, from text, and through an object.
#include "vf.hpp"
using namespace vf;
using namespace Osmium;
static std::string bytes(const std::string& s) { std::string r = "["; for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + num((unsigned char) s[i]); return r + "]"; }
int main() {
    toks t;
    while (read_line(t)) {
        if (t[0] == "iso") {
            time_t x = toi(t[1]); std::string s = Timestamp::to_iso(x); time_t back = 0;
            if (!s.empty()) { try { back = Timestamp::parse_iso(s.c_str()); } catch (std::invalid_argument&) { back = -1; } }
            OSM::Node n; n.timestamp(x); n.endtime(x);
            emit("{\"e\":\"iso\",\"t\":" + qn(x) + ",\"s\":" + bytes(s) + ",\"back\":" + qn(back) + ",\"objt\":" + bytes(n.timestamp_as_string()) + ",\"endt\":" + bytes(n.endtime_as_string()) + "}");
        } else if (t[0] == "old") {   // before 1970
            time_t x = toi(t[1]); OSM::Node n; n.timestamp(x); n.endtime(x);
            emit("{\"e\":\"old\",\"t\":" + qn(-x) + ",\"s\":" + bytes(Timestamp::to_iso(x)) + ",\"objt\":" + bytes(n.timestamp_as_string()) + ",\"endt\":" + bytes(n.endtime_as_string()) + "}");
        } else if (t[0] == "parse") {
            std::string s = unpct(t[1]); time_t x = 0; bool ok = true;
            try { x = Timestamp::parse_iso(s.c_str()); } catch (std::invalid_argument&) { ok = false; }
            emit("{\"e\":\"parse\",\"s\":" + bytes(s) + ",\"ok\":" + bl(ok) + ",\"t\":" + qn(x) + "}");
        } else if (t[0] == "set") { // set old how text
            std::string s = unpct(t[3]); bool ok = true; OSM::Way n; n.timestamp(time_t(toi(t[1])));
            try { if (t[2] == "attr") n.set_attribute("timestamp", s.c_str()); else n.timestamp(s.c_str()); } catch (std::invalid_argument&) { ok = false; }
            emit("{\"e\":\"set\",\"s\":" + bytes(s) + ",\"ok\":" + bl(ok) + ",\"old\":" + qn(toi(t[1])) + ",\"t\":" + qn(n.timestamp()) + "}");
        } else return 3;
    }
    flush();
    return 0;
}

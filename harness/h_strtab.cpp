// String table: record, store, map, clear.
#include "vf.hpp"
#include <osmpbf/osmpbf.h>
#include <osmium/utils/stringtable.hpp>
using namespace vf;
int main() {
    toks t; Osmium::StringTable* st = new Osmium::StringTable; std::vector<std::string> strs; std::vector<long> ids; std::map<std::string, long> seen;
    while (read_line(t)) {
        const std::string c = t[0];
        if (c == "B") { delete st; seen.clear(); st = new Osmium::StringTable; emit(t[1]); }
        else if (c == "r") { std::string s = unpct(t[1]); long i = st->record_string(s); seen[s] = i; emit("{\"e\":\"rec\",\"s\":" + q(s) + ",\"id\":" + num(i) + "}"); }
        else if (c == "rep") { // string times
            std::string x = unpct(t[1]); int n = toi(t[2]); bool same = true; long i = st->record_string(x); seen[x] = i;
            for (int k = 1; k < n; ++k) same &= i == long(st->record_string(x));
            emit("{\"e\":\"rep\",\"s\":" + q(x) + ",\"n\":" + num(n) + ",\"id\":" + num(i) + ",\"same\":" + bl(same) + "}");
        }
        else if (c == "many") { // prefix count maxtimes
            int n = toi(t[2]), mx = toi(t[3]); bool same = true; strs.clear(); ids.clear(); std::vector<int> times;
            for (int i = 0; i < n; ++i) { strs.push_back(t[1] + num(i)); times.push_back(1 + (i * 7919) % mx); ids.push_back(st->record_string(strs.back())); }
            for (int k = 2; k <= mx; ++k) for (int i = 0; i < n; ++i) if (times[i] >= k) same &= ids[i] == long(st->record_string(strs[i]));
            std::string s = "{\"e\":\"many\",\"same\":" + std::string(bl(same)) + ",\"strs\":[", a, b;
            for (int i = 0; i < n; ++i) { s += (i ? "," : "") + q(strs[i]); a += (i ? "," : "") + num(ids[i]); b += (i ? "," : "") + num(times[i]); }
            emit(s + "],\"ids\":[" + a + "],\"times\":[" + b + "]}");
        }
        else if (c == "store" || c == "storemany") {
            OSMPBF::StringTable p; st->store_stringtable(&p);
            std::string s = "{\"e\":\"" + c + "\",\"table\":[";
            for (int i = 0; i < p.s_size(); ++i) s += (i ? "," : "") + q(p.s(i));
            s += "]";
            if (c == "storemany") {
                std::map<std::string, int> at; for (size_t i = 0; i < strs.size(); ++i) at[strs[i]] = i + 1;
                s += ",\"which\":["; for (int i = 1; i < p.s_size(); ++i) s += (i > 1 ? "," : "") + num(at.count(p.s(i)) ? at[p.s(i)] : 0);
                s += "],\"finals\":["; for (size_t i = 0; i < ids.size(); ++i) s += (i ? "," : "") + num(st->map_string_id(ids[i]));
                s += "]";
            }
            emit(s + "}");
            if (c == "store") for (std::map<std::string, long>::iterator i = seen.begin(); i != seen.end(); ++i)
                emit("{\"e\":\"map\",\"s\":" + q(i->first) + ",\"id\":" + num(i->second) + ",\"final\":" + num(st->map_string_id(i->second)) + "}");
        }
        else if (c == "c") { st->clear(); seen.clear(); emit("{\"e\":\"clear\"}"); }
        else return 3;
    }
    flush();
    return 0;
}

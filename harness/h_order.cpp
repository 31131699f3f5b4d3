// Comparison matrices of the library's ordered types.
#include "vf.hpp"
#include <set>
#include <osmium/osm/area.hpp>
#include <osmium/osm/segment.hpp>
#include <osmium/osm/undirected_segment.hpp>
using namespace vf;
using namespace Osmium::OSM;
typedef std::vector<int> V;
template <class F> std::string mat(int n, F f) { // rows of 1-based column numbers where f holds
    std::string r = "[";
    for (int i = 0; i < n; ++i) { r += i ? ",[" : "["; bool first = true; for (int j = 0; j < n; ++j) if (f(i, j)) { r += (first ? "" : ",") + num(j + 1); first = false; } r += "]"; }
    return r + "]";
}
template <class O> void objects(const std::string& keys, std::vector<shared_ptr<O> > v) {
    int n = v.size();
    std::vector<shared_ptr<O const> > c(v.begin(), v.end());
    std::string s = "{\"e\":\"objs\",\"keys\":" + keys + ",\"lt\":" + mat(n, [&](int i, int j) { return *v[i] < *v[j]; }) +
        ",\"plt\":" + mat(n, [&](int i, int j) { return std::less<shared_ptr<O const> >()(c[i], c[j]); });
    s += ",\"gt\":" + mat(n, [&](int i, int j) { return *v[i] > *v[j]; }) + ",\"le\":" + mat(n, [&](int i, int j) { return *v[i] <= *v[j]; }) + ",\"ge\":" + mat(n, [&](int i, int j) { return *v[i] >= *v[j]; });
    std::map<O const*, int> no; for (int i = 0; i < n; ++i) no[c[i].get()] = i + 1;
    std::set<shared_ptr<O const> > st(c.begin(), c.end());
    s += ",\"set\":["; bool f = true;
    for (typename std::set<shared_ptr<O const> >::iterator it = st.begin(); it != st.end(); ++it) { s += (f ? "" : ",") + num(no[it->get()]); f = false; }
    s += "],\"sorted\":["; std::vector<shared_ptr<O const> > w(c); std::stable_sort(w.begin(), w.end());
    for (int i = 0; i < n; ++i) s += (i ? "," : "") + num(no[w[i].get()]);
    emit(s + "]}");
}
static std::string pj(const Position& p) { return "[" + num(p.x()) + "," + num(p.y()) + "]"; }
int main() {
    toks t;
    while (read_line(t)) {
        const std::string c = t[0];
        if (c == "B") emit(t[1]);
        else if (c == "objs") { // objs type keysjson n, then n object lines
            int n = toi(t[3]); std::string ty = t[1], k = t[2];
            std::vector<shared_ptr<Node> > a; std::vector<shared_ptr<Way> > b; std::vector<shared_ptr<Relation> > r; std::vector<shared_ptr<Area> > ar;
            for (int i = 0; i < n; ++i) { read_line(t); if (ty == "n") a.push_back(mknode(t)); else if (ty == "w") b.push_back(mkway(t)); else if (ty == "r") r.push_back(mkrel(t)); else { shared_ptr<Node> q = mknode(t); shared_ptr<Area> x; if (i % 2) x.reset(new Area(Way())); else x.reset(new Area(Relation())); x->id(q->id()); x->version(q->version()); ar.push_back(x); } }
            if (ty == "n") objects(k, a); else if (ty == "w") objects(k, b); else if (ty == "r") objects(k, r); else objects(k, ar);
        }
        else if (c == "pos") { // pos x,y;x,y;...
            std::vector<Position> v; toks p = split(t[1], ';');
            for (size_t i = 0; i < p.size(); ++i) { toks q = split(p[i], ','); v.push_back(Position(int32_t(toi(q[0])), int32_t(toi(q[1])))); }
            int n = v.size(); std::string s = "{\"e\":\"pos\",\"p\":[";
            for (int i = 0; i < n; ++i) s += (i ? "," : "") + pj(v[i]);
            s += "],\"lt\":" + mat(n, [&](int i, int j) { return v[i] < v[j]; }) + ",\"eq\":" + mat(n, [&](int i, int j) { return v[i] == v[j]; });
            s += ",\"gt\":" + mat(n, [&](int i, int j) { return v[i] > v[j]; }) + ",\"ne\":" + mat(n, [&](int i, int j) { return v[i] != v[j]; });
            s += ",\"le\":" + mat(n, [&](int i, int j) { return v[i] <= v[j]; }) + ",\"ge\":" + mat(n, [&](int i, int j) { return v[i] >= v[j]; });
            emit(s + "}");
        }
        else if (c == "wns") { // wns keysjson ref,x,y;..
            std::vector<WayNode> v; toks p = split(t[2], ';');
            for (size_t i = 0; i < p.size(); ++i) { toks q = split(p[i], ','); v.push_back(WayNode(toi(q[0]), Position(int32_t(toi(q[1])), int32_t(toi(q[2]))))); }
            int n = v.size();
            emit("{\"e\":\"wns\",\"keys\":" + t[1] + ",\"lt\":" + mat(n, [&](int i, int j) { return v[i] < v[j]; }) + ",\"eq\":" + mat(n, [&](int i, int j) { return v[i] == v[j]; }) + ",\"ne\":" + mat(n, [&](int i, int j) { return v[i] != v[j]; }) + "}");
        }
        else if (c == "segs") { // segs x,y,x,y;..
            std::vector<Segment> v; std::vector<UndirectedSegment> u, r; toks p = split(t[1], ';'); std::string in;
            for (size_t i = 0; i < p.size(); ++i) {
                toks q = split(p[i], ','); Position a(int32_t(toi(q[0])), int32_t(toi(q[1]))), b(int32_t(toi(q[2])), int32_t(toi(q[3])));
                v.push_back(Segment(a, b)); u.push_back(UndirectedSegment(a, b)); r.push_back(UndirectedSegment(b, a));
                in += (i ? ",[" : "[") + pj(a) + "," + pj(b) + "]";
            }
            int n = v.size(); std::string s = "{\"e\":\"segs\",\"s\":[" + in + "],\"ends\":[";
            for (int i = 0; i < n; ++i) s += std::string(i ? "," : "") + "[" + pj(v[i].first()) + "," + pj(v[i].second()) + "]";
            s += "],\"und\":[";
            for (int i = 0; i < n; ++i) s += std::string(i ? "," : "") + "[" + pj(u[i].first()) + "," + pj(u[i].second()) + "]";
            s += "],\"rev\":[";
            for (int i = 0; i < n; ++i) s += std::string(i ? "," : "") + "[" + pj(r[i].first()) + "," + pj(r[i].second()) + "]";
            s += "],\"eq\":" + mat(n, [&](int i, int j) { return v[i] == v[j]; }) + ",\"ne\":" + mat(n, [&](int i, int j) { return v[i] != v[j]; });
            s += ",\"ueq\":" + mat(n, [&](int i, int j) { return u[i] == r[j]; }) + ",\"ult\":" + mat(n, [&](int i, int j) { return u[i] < r[j]; });
            s += ",\"ugt\":" + mat(n, [&](int i, int j) { return u[i] > r[j]; }) + ",\"ule\":" + mat(n, [&](int i, int j) { return u[i] <= r[j]; }) + ",\"uge\":" + mat(n, [&](int i, int j) { return u[i] >= r[j]; });
            emit(s + "}");
        }
        else return 3;
    }
    flush();
    return 0;
}

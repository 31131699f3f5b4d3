// Stacks of forwarding and sequencing handlers over leaves.
#include "chain.hpp"
using namespace vf;
struct Quiet : Handler::Base {};                       // uses every default of the base class
struct Some : Handler::Base {                          // overrides a few callbacks only
    Sink s;
    void node(const shared_ptr<OSM::Node const>& o) { s.ev("n", jo(*o)); }
    void after_ways() { s.ev("aw"); }
    void relation(const shared_ptr<OSM::Relation const>& o) { s.ev("r", jo(*o)); }
    void final() { s.stop_at = s.fin_stop ? s.n + 1 : 0; s.ev("fin"); }
};
struct FwdPlus : Handler::Forward<RecM> {              // derived the way the documentation says: some callbacks of its own
    Sink s;
    FwdPlus(RecM& r) : Handler::Forward<RecM>(r) {}
    void way(const shared_ptr<OSM::Way>& o) { s.ev("w", jo(*o)); next_handler().way(o); }
    void before_relations() { s.ev("br"); next_handler().before_relations(); }
};
struct Leaf { Sink* s; RecM* m; Handler::Base* q; };
static std::vector<Leaf>& leaves() { static std::vector<Leaf> v; return v; }
static void add(Sink* s, RecM* m, Handler::Base* q) { Leaf l = { s, m, q }; leaves().push_back(l); }
template <class T> struct Mk;
template <> struct Mk<Rec> { Rec h; Mk() { add(&h, 0, 0); } };
template <> struct Mk<RecM> { RecM h; Mk() { add(&h, &h, 0); } };
template <> struct Mk<Quiet> { Quiet h; Mk() { add(0, 0, &h); } };
template <> struct Mk<Some> { Some h; Mk() { add(&h.s, 0, &h); } };
template <> struct Mk<FwdPlus> { RecM c; FwdPlus h; Mk() : h(c) { add(&h.s, 0, 0); add(&c, &c, 0); } };
template <class A> struct Mk<Handler::Forward<A> > { Mk<A> c; Handler::Forward<A> h; Mk() : h(c.h) {} };
template <class A, class B> struct Mk<Handler::Sequence<A, B> > { Mk<A> a; Mk<B> b; Handler::Sequence<A, B> h; Mk() : h(a.h, b.h) {} };
template <class H> struct Ex : Extra {
    H& h; Ex(H& hh) : h(hh) {}
    void other(const toks& t) {
        emit("{\"e\":\"in\",\"c\":" + q(t[0] == "area" ? "area" : "dbg") + ",\"o\":" + t[1] + "}");
        if (t[0] == "area") { shared_ptr<OSM::Area> a = make_shared<OSM::Area>(toi(t[1])); h.area(a); }
        else h.set_debug_level(toi(t[1]));
    }
};
template <class T> void scenario(const toks& t) { // tree mutlist stopleaf stopat gen bounds multi
    leaves().clear();
    Mk<T> m;
    OSM::Meta meta = mkmeta(t[4], t[5], t[6]);
    for (size_t i = 0; i < leaves().size(); ++i) {
        Leaf& l = leaves()[i];
        if (l.s) { l.s->h = i + 1; l.s->direct = true; if (toi(t[2]) == int(i + 1)) l.s->stop_at = toi(t[3]); l.s->fin_stop = t.size() > 7 && toi(t[7]) == int(i + 1); }
        if (l.m) l.m->mut = t[1][i] == '1';
    }
    Tee<T> tee(m.h); Ex<T> ex(m.h);
    drive(tee, meta, &ex);
    for (size_t i = 0; i < leaves().size(); ++i) if (leaves()[i].q) { int k = 0; while (k < 20 && leaves()[i].q->has_debug_level(k + 1)) ++k; emit("{\"e\":\"lvl\",\"l\":" + num(k) + "}"); }
    emit("{\"e\":\"done\"}");
}
#define F(...) Handler::Forward< __VA_ARGS__ >
#define S(...) Handler::Sequence< __VA_ARGS__ >
typedef RecM M; typedef Rec C;
int main() {
    toks t;
    while (read_line(t)) {
        const std::string c = t[0];
        if (c == "B") { emit(t[1]); continue; }
#define TREE(name, ...) else if (c == name) scenario<__VA_ARGS__ >(t);
#include "trees.inc"
        else return 3;
    }
    flush();
    return 0;
}

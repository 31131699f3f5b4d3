// Reads and writes OSM files through the public API and logs everything observable.
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#undef _FORTIFY_SOURCE
#include "vf.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <errno.h>
#include <osmium.hpp>
#include <osmium/output/xml.hpp>
#include <osmium/output/pbf.hpp>
#include <sys/syscall.h>
#include <unistd.h>
// every read may deliver less than was asked for
static int64_t short_reads = 0, budget = 0;
extern "C" ssize_t read(int fd, void* buf, size_t n) {
    static unsigned seed = 1;
    if (short_reads > 0 && n > 1 && budget-- > 0) { size_t m = 1 + static_cast<size_t>(rand_r(&seed)) % short_reads; if (m < n) n = m; }
    return syscall(SYS_read, fd, buf, n);
}
using namespace vf;
using namespace Osmium;

static int count_fds() {
    int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n - 3;
}
static std::string children() { // reaps: "0" none left, else number of (un)reaped children
    int n = 0;
    for (int tries = 0; tries < 200; ++tries) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) { ++n; continue; }
        if (p < 0) break;      // ECHILD
        if (tries == 0) ++n;   // still running: not reaped by the library
        usleep(10000);
    }
    return num(n);
}

// ------------------------------------------------------------------ handlers
struct Log {
    int stop_at; int count; toks keep; size_t seen;
    std::vector<shared_ptr<OSM::Node const> > kn; std::vector<shared_ptr<OSM::Way const> > kw; std::vector<shared_ptr<OSM::Relation const> > kr;
    std::vector<std::pair<char, size_t> > order;
    std::string keeps; bool last_kept;
    Log() : stop_at(-1), count(0), seen(0), last_kept(false) {}
    void ev(const std::string& s) {
        emit(s);
        if (++count == stop_at) { emit("{\"e\":\"stop\"}"); throw Handler::StopReading(); }
    }
    bool k() { bool r = !keeps.empty() && keeps[seen % keeps.size()] == '1'; ++seen; last_kept = r; return r; }
    void init(OSM::Meta& m) { ev("{\"e\":\"init\",\"gen\":" + q(m.generator()) + ",\"bounds\":" + js_bounds(m.bounds()) + ",\"multi\":" + bl(m.has_multiple_object_versions()) + "}"); }
    void node(const shared_ptr<OSM::Node const>& o) { bool kk = k(); std::string s = "{\"e\":\"obj\",\"o\":" + js(*o) + ",\"et\":" + qn(o->endtime()) + ",\"keep\":" + bl(kk) + "}"; if (kk) { kn.push_back(o); order.push_back(std::make_pair('n', kn.size() - 1)); } ev(s); }
    void way(const shared_ptr<OSM::Way const>& o) { bool kk = k(); std::string s = "{\"e\":\"obj\",\"o\":" + js(*o) + ",\"et\":" + qn(o->endtime()) + ",\"keep\":" + bl(kk) + "}"; if (kk) { kw.push_back(o); order.push_back(std::make_pair('w', kw.size() - 1)); } ev(s); }
    void relation(const shared_ptr<OSM::Relation const>& o) { bool kk = k(); std::string s = "{\"e\":\"obj\",\"o\":" + js(*o) + ",\"et\":" + qn(o->endtime()) + ",\"keep\":" + bl(kk) + "}"; if (kk) { kr.push_back(o); order.push_back(std::make_pair('r', kr.size() - 1)); } ev(s); }
    void recheck() {
        for (size_t i = 0; i < order.size(); ++i) {
            std::string o = order[i].first == 'n' ? js(*kn[order[i].second]) : order[i].first == 'w' ? js(*kw[order[i].second]) : js(*kr[order[i].second]);
            emit("{\"e\":\"recheck\",\"i\":" + num(i + 1) + ",\"o\":" + o + "}");
        }
    }
};
#define H_INIT void init(OSM::Meta& m) { L.init(m); } void final() { L.ev("{\"e\":\"final\"}"); }
#define H_BN void before_nodes() { L.ev("{\"e\":\"before\",\"t\":\"n\"}"); } void after_nodes() { L.ev("{\"e\":\"after\",\"t\":\"n\"}"); }
#define H_BW void before_ways() { L.ev("{\"e\":\"before\",\"t\":\"w\"}"); } void after_ways() { L.ev("{\"e\":\"after\",\"t\":\"w\"}"); }
#define H_BR void before_relations() { L.ev("{\"e\":\"before\",\"t\":\"r\"}"); } void after_relations() { L.ev("{\"e\":\"after\",\"t\":\"r\"}"); }
#define H_N void node(const shared_ptr<OSM::Node const>& o) { L.node(o); }
#define H_W void way(const shared_ptr<OSM::Way const>& o) { L.way(o); }
#define H_R void relation(const shared_ptr<OSM::Relation const>& o) { L.relation(o); }
struct HAll : Handler::Base { Log L; H_INIT H_BN H_BW H_BR H_N H_W H_R };
struct HMut : Handler::Base { Log L; H_INIT H_BN H_BW H_BR // handlers taking non-const objects
    // what is not kept is changed in every way before it goes back: nothing of it may come up again
    bool mine(OSM::Object& o) {
        if (!L.last_kept) { o.id(osm_object_id_t(4711)).version(osm_version_t(4712)).timestamp(time_t(4713)).endtime(time_t(4714)).changeset(osm_changeset_id_t(4715)).uid(osm_user_id_t(4716)).user("leak").visible(!o.visible()); o.tags().add("leak", "leak"); }
        return !L.last_kept;
    }
    void node(const shared_ptr<OSM::Node>& o) { L.node(o); if (mine(*o)) o->position(OSM::Position(int32_t(4717), int32_t(4718))); }
    void way(const shared_ptr<OSM::Way>& o) { L.way(o); if (mine(*o)) o->add_node(4719); }
    void relation(const shared_ptr<OSM::Relation>& o) { L.relation(o); if (mine(*o)) o->add_member('w', 4720, "leak"); } };
struct HBr : Handler::Base { Log L; H_INIT H_BN H_BW H_BR };           // no object callbacks
struct HN : Handler::Base { Log L; H_INIT H_BN H_BW H_BR H_N };
struct HW : Handler::Base { Log L; H_INIT H_BN H_BW H_BR H_W };
struct HR : Handler::Base { Log L; H_INIT H_BN H_BW H_BR H_R };
struct HObj : Handler::Base { Log L; H_N H_W H_R };                    // only object callbacks

template <class H> void do_read(const toks& t) { // R path type enc kind stop keeps
    OSMFile f(t[1]);
    if (!t[2].empty()) f.type(t[2]);
    if (!t[3].empty()) f.encoding(t[3]);
    f.filename(t[1]);
    H h;
    if (t.size() > 5 && !t[5].empty()) h.L.stop_at = toi(t[5]);
    if (t.size() > 6) h.L.keeps = t[6];
    int before = count_fds();
    try {
        Input::read(f, h);
        emit("{\"e\":\"ret\"}");
    } catch (OSMFile::FileTypeOSMExpected&) { emit("{\"e\":\"throw\",\"x\":\"osm\"}");
    } catch (OSMFile::FileTypeHistoryExpected&) { emit("{\"e\":\"throw\",\"x\":\"history\"}");
    } catch (OSMFile::IOError& e) { emit("{\"e\":\"throw\",\"x\":\"io\"}");
    } catch (std::exception& e) { emit("{\"e\":\"throw\",\"x\":\"std\"}");
    } catch (Handler::StopReading&) { emit("{\"e\":\"throw\",\"x\":\"stopreading\"}");
    } catch (...) { emit("{\"e\":\"throw\",\"x\":\"other\"}"); }
    h.L.recheck();
    emit("{\"e\":\"res\",\"fds\":" + num(count_fds() - before) + ",\"children\":" + children() + "}");
    flush();
}

static Output::Handler* gh = 0; static Output::PBF* gp = 0; static bool bad = false;
template <class F> void guarded(const char* at, F f) {
    try { f(); }
    catch (std::exception& e) { bad = true; emit(std::string("{\"e\":\"wthrow\",\"at\":\"") + at + "\"}"); }
    catch (...) { bad = true; emit(std::string("{\"e\":\"wthrow\",\"at\":\"") + at + "\"}"); }
}

int main() {
    toks t;
    OSM::Meta meta;
    while (read_line(t)) {
        const std::string& c = t[0];
        if (c == "B") { emit(t[1]); budget = 20000; }
        else if (c == "short") { short_reads = toi(t[1]); }
        else if (c == "W") { // W path type enc opts(k=v;..)  opts: direct dense comp gran date meta gen bounds
            std::map<std::string, std::string> o;
            if (t.size() > 4 && !t[4].empty()) { toks p = split(t[4], ';'); for (size_t i = 0; i < p.size(); ++i) { size_t e = p[i].find('='); o[p[i].substr(0, e)] = p[i].substr(e + 1); } }
            bad = false;
            meta = OSM::Meta();
            if (o.count("bounds")) { toks b = split(o["bounds"], ','); meta.bounds().extend(OSM::Position(int32_t(toi(b[0])), int32_t(toi(b[1])))).extend(OSM::Position(int32_t(toi(b[2])), int32_t(toi(b[3])))); }
            OSMFile f(t[1]); f.type(t[2]); f.encoding(t[3]);
            guarded("open", [&]() {
                if (o.count("direct")) {
                    gp = new Output::PBF(f);
                    if (o.count("dense")) gp->use_dense_format(o["dense"] == "1");
                    if (o.count("comp")) gp->use_compression(o["comp"] == "1");
                    if (o.count("gran")) gp->location_granularity(toi(o["gran"]));
                    if (o.count("date")) gp->date_granularity(toi(o["date"]));
                    if (o.count("meta")) gp->should_add_metadata(o["meta"] == "1");
                    if (o.count("gen")) gp->set_generator(unpct(o["gen"]));
                    gp->init(meta);
                } else {
                    gh = new Output::Handler(f);
                    if (o.count("gen")) gh->set_generator(unpct(o["gen"]));
                    gh->init(meta);
                }
            });
        }
        else if (c == "n") { shared_ptr<OSM::Node> x = mknode(t); emit("{\"e\":\"write\",\"o\":" + js(*x) + "}"); if (!bad) guarded("obj", [&]() { if (gp) gp->node(x); else gh->node(x); }); }
        else if (c == "w") { shared_ptr<OSM::Way> x = mkway(t); emit("{\"e\":\"write\",\"o\":" + js(*x) + "}"); if (!bad) guarded("obj", [&]() { if (gp) gp->way(x); else gh->way(x); }); }
        else if (c == "r") { shared_ptr<OSM::Relation> x = mkrel(t); emit("{\"e\":\"write\",\"o\":" + js(*x) + "}"); if (!bad) guarded("obj", [&]() { if (gp) gp->relation(x); else gh->relation(x); }); }
        else if (c == "F") {
            if (!bad) guarded("final", [&]() { if (gp) gp->final(); else gh->final(); });
            guarded("delete", [&]() { delete gp; delete gh; }); gp = 0; gh = 0;
            emit(std::string("{\"e\":\"wfinal\",\"ok\":") + bl(!bad) + "}");
            flush();
        }
        else if (c == "V") { // V path type enc outpath outtype outenc gen: convert a file
            OSMFile in(t[1]); in.type(t[2]); in.encoding(t[3]); in.filename(t[1]);
            OSMFile out(t[4]); out.type(t[5]); out.encoding(t[6]); out.filename(t[4]);
            bad = false;
            guarded("convert", [&]() {
                Output::Handler oh(out);
                if (t.size() > 7 && t[7] != "-") oh.set_generator(unpct(t[7]));
                Input::read(in, oh);
            });
            emit(std::string("{\"e\":\"wfinal\",\"ok\":") + bl(!bad) + "}");
            flush();
        }
        else if (c == "R") {
            const std::string k = t.size() > 4 ? t[4] : "all";
            if (k == "all") do_read<HAll>(t); else if (k == "mut") do_read<HMut>(t); else if (k == "br") do_read<HBr>(t);
            else if (k == "n") do_read<HN>(t); else if (k == "w") do_read<HW>(t); else if (k == "r") do_read<HR>(t); else if (k == "obj") do_read<HObj>(t);
            else return 3;
        }
        else return 3;
    }
    flush();
    return 0;
}

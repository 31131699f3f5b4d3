// The handlers that show something: Debug (text on a stream) and Progress (text on a terminal).
#include <stdio.h>
static FILE* events = 0;         // standard output itself is what is looked at
#define VF_OUT events
#include "chain.hpp"
#include <sys/time.h>
#include <osmium/handler/debug.hpp>
#include <osmium/handler/progress.hpp>
using namespace vf;
static bool tty = false, fake = false; static timeval now_ = {1000, 0};
extern "C" int isatty(int fd) { return fake && fd == 1 && tty; }
extern "C" int gettimeofday(struct timeval* tv, void*) throw() { *tv = now_; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* ts) throw() { ts->tv_sec = now_.tv_sec; ts->tv_nsec = now_.tv_usec * 1000; return 0; }
extern "C" time_t time(time_t* t) throw() { if (t) *t = now_.tv_sec; return now_.tv_sec; }

static std::string days(time_t t) { return t == 0 ? "[]" : "[" + num(t / 86400) + "," + num(t % 86400) + "]"; }
struct Out { // what was written since the last look: to a stream, or to standard output
    std::ostringstream s; bool fd1; static off_t at;
    Out(bool f) : fd1(f) {}
    std::string take() {
        if (!fd1) { std::string r = s.str(); s.str(""); return r; }
        fflush(stdout); std::cout.flush();
        std::string r; char b[4096]; ssize_t n;
        while ((n = pread(1, b, sizeof b, at)) > 0) { r.append(b, n); at += n; }
        return r;
    }
};
off_t Out::at = 0;
static void text(const char* c, const std::string& s, const std::string& more = "") { emit(std::string("{\"e\":\"txt\",\"c\":\"") + c + "\",\"s\":" + q(s) + more + "}"); }
template <class O> std::string times(const O& o) { return ",\"ts\":" + days(o.timestamp()) + ",\"et\":" + days(o.endtime()); }
static int32_t fix(const std::string& s) { return static_cast<int32_t>(llround(strtod(s.c_str(), 0) * 1e7)); }

struct DD { // calls the debug handler and logs what it wrote
    Handler::Debug& d; Out& o;
    DD(Handler::Debug& dd, Out& oo) : d(dd), o(oo) {}
    void init(OSM::Meta& m) {
        d.init(m); std::string s = o.take(), b = "[]"; size_t i = s.rfind("bounds=("), e = s.rfind(")");
        if (m.bounds().defined() && i != std::string::npos && e != std::string::npos && e > i) { // the numbers apart from the text
            toks p = split(s.substr(i + 8, e - i - 8), ','); b = "[";
            for (size_t k = 0; k < p.size(); ++k) b += (k ? "," : "") + num(fix(p[k]));
            b += "]"; s = s.substr(0, i + 8) + s.substr(e);
        }
        text("init", s, ",\"b\":" + b);
    }
    void before_nodes() { d.before_nodes(); text("bn", o.take()); } void after_nodes() { d.after_nodes(); text("an", o.take()); }
    void before_ways() { d.before_ways(); text("bw", o.take()); } void after_ways() { d.after_ways(); text("aw", o.take()); }
    void before_relations() { d.before_relations(); text("br", o.take()); } void after_relations() { d.after_relations(); text("ar", o.take()); }
    void node(const shared_ptr<OSM::Node const>& x) { d.node(x); text("n", o.take(), times(*x)); }
    void way(const shared_ptr<OSM::Way const>& x) { d.way(x); text("w", o.take(), times(*x)); }
    void relation(const shared_ptr<OSM::Relation const>& x) { d.relation(x); text("r", o.take(), times(*x)); }
    void final() { d.final(); text("fin", o.take()); }
};
struct PP : Extra { // the progress handler with a clock the script sets
    Handler::Progress& p; Out& o;
    PP(Handler::Progress& pp, Out& oo) : p(pp), o(oo) {}
    void t(const char* c) { emit(std::string("{\"e\":\"shown\",\"c\":\"") + c + "\",\"s\":" + q(o.take()) + "}"); }
    void init(OSM::Meta& m) { p.init(m); t("init"); }
    void before_nodes() { p.before_nodes(); t("bn"); } void after_nodes() { p.after_nodes(); t("an"); }
    void before_ways() { p.before_ways(); t("bw"); } void after_ways() { p.after_ways(); t("aw"); }
    void before_relations() { p.before_relations(); t("br"); } void after_relations() { p.after_relations(); t("ar"); }
    void node(const shared_ptr<OSM::Node const>& x) { p.node(x); t("n"); }
    void way(const shared_ptr<OSM::Way const>& x) { p.way(x); t("w"); }
    void relation(const shared_ptr<OSM::Relation const>& x) { p.relation(x); t("r"); }
    void final() { p.final(); t("fin"); }
    void other(const toks& x) { // clock ms: milliseconds since the start
        if (x[0] != "clock") exit(3);
        int64_t ms = toi(x[1]) + 1234567; now_.tv_sec = 1000000 + ms / 1000; now_.tv_usec = ms % 1000 * 1000;
        emit("{\"e\":\"clock\",\"ms\":" + x[1] + "}");
    }
};

int main() {
    events = fdopen(dup(1), "w");
    char name[] = "/tmp/vfshowXXXXXX"; int f = mkstemp(name); unlink(name); dup2(f, 1); close(f);
    toks t;
    while (read_line(t)) {
        const std::string c = t[0];
        if (c == "B") emit(t[1]);
        else if (c == "debug") { // debug how flag gen bounds multi; callbacks up to "end"
            Out o(t[1] != "stream"); OSM::Meta m = mkmeta(t[3], t[4], t[5]);
            Handler::Debug* d = t[1] == "stream" ? new Handler::Debug(t[2] == "1", o.s) : t[2] == "0" ? new Handler::Debug() : new Handler::Debug(true);
            DD dd(*d, o); Tee<DD> tee(dd);
            drive(tee, m);
            delete d;
            emit("{\"e\":\"rest\",\"s\":" + q(o.take()) + "}");
        }
        else if (c == "prog") { // prog step tty; callbacks and clock up to "end"
            Out o(true); OSM::Meta m;
            fake = true; tty = t[2] == "1";
            now_.tv_sec = 1000000 + 1234; now_.tv_usec = 567000;
            Handler::Progress* p = t[1] == "" ? new Handler::Progress() : new Handler::Progress(toi(t[1]));
            PP pp(*p, o);
            drive(pp, m, &pp);
            delete p; fake = false;
            emit("{\"e\":\"rest\",\"s\":" + q(o.take()) + "}");
        }
        else return 3;
    }
    flush();
    return 0;
}

// Writes OSM files through the public API while the operating system's write() misbehaves.
#include "vf.hpp"
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <zlib.h>
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/output/xml.hpp>
#include <osmium/output/pbf.hpp>
using namespace vf;
using namespace Osmium;

static bool armed = false; static int calls = 0, fault_at = 0; static std::string fault;
extern "C" ssize_t write(int fd, const void* buf, size_t n) {
    if (!armed || fd <= 2) return syscall(SYS_write, fd, buf, n);
    ++calls;
    ssize_t r; int soft = 0, err = 0;
    bool once = fault_at > 0 && calls == fault_at, from = fault_at > 0 && calls >= fault_at, all = fault_at == 0;
    size_t m = n;
    if (fault == "eio1" && once) { r = -1; err = EIO; }
    else if (fault == "enospc1" && once) { r = -1; err = ENOSPC; }
    else if (fault == "eio" && from) { r = -1; err = EIO; }
    else if (fault == "enospc" && from) { r = -1; err = ENOSPC; }
    else if (fault == "eintr1" && once) { r = -1; err = EINTR; soft = 1; }
    else {
        if (fault == "short1" && (once || all)) m = n > 1 ? n - 1 : n;
        if (fault == "half" && (once || all)) m = n > 1 ? n / 2 : n;
        if (fault == "one" && once) m = 1;
        if (fault == "small" && all) m = n > 700 ? 700 : n;
        if (fault == "shorteio") { if (once) m = (n + 1) / 2; if (fault_at > 0 && calls == fault_at + 1) { m = 0; } }
        if (m == 0 && n) { r = -1; err = EIO; }
        else { r = syscall(SYS_write, fd, buf, m); if (r < 0) err = errno; }
    }
    unsigned long crc = crc32(0L, static_cast<const Bytef*>(buf), n);
    emit("{\"e\":\"wr\",\"n\":" + num(n) + ",\"ret\":" + num(r) + ",\"crc\":" + num(crc) + ",\"soft\":" + bl(soft) + "}");
    errno = err;
    return r;
}

static int count_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n - 3; }
static std::string children() {
    int n = 0;
    for (int tries = 0; tries < 200; ++tries) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) { ++n; continue; }
        if (p < 0) break;
        if (tries == 0) ++n;
        usleep(10000);
    }
    return num(n);
}
static Output::Handler* gh = 0; static bool bad = false;
template <class F> void guarded(const char* at, F f) {
    try { f(); }
    catch (std::exception& e) { bad = true; emit(std::string("{\"e\":\"wthrow\",\"at\":\"") + at + "\"}"); }
    catch (...) { bad = true; emit(std::string("{\"e\":\"wthrow\",\"at\":\"") + at + "\"}"); }
}
int main() {
    signal(SIGPIPE, SIG_IGN);
    toks t; OSM::Meta meta; int before = 0; bool direct = false;
    while (read_line(t)) {
        const std::string& c = t[0];
        if (c == "B") emit(t[1]);
        else if (c == "W") { // W path type enc fault at
            fault = t[4]; fault_at = toi(t[5]); calls = 0; bad = false; before = count_fds();
            direct = t.size() > 6 && t[6] == "raw";
            armed = true;
            OSMFile f(t[1]); f.type(t[2]); f.encoding(t[3]);
            guarded("open", [&]() { gh = new Output::Handler(f); gh->init(meta); });
        }
        else if (c == "n") { shared_ptr<OSM::Node> x = mknode(t); if (!bad) guarded("obj", [&]() { gh->node(x); }); }
        else if (c == "w") { shared_ptr<OSM::Way> x = mkway(t); if (!bad) guarded("obj", [&]() { gh->way(x); }); }
        else if (c == "r") { shared_ptr<OSM::Relation> x = mkrel(t); if (!bad) guarded("obj", [&]() { gh->relation(x); }); }
        else if (c == "F") {
            if (!bad) guarded("final", [&]() { gh->final(); });
            bool ok = !bad;
            emit(std::string("{\"e\":\"wfinal\",\"ok\":") + bl(ok) + "}");
            guarded("delete", [&]() { delete gh; }); gh = 0;
            armed = false;
            emit("{\"e\":\"content\"}");
            emit("{\"e\":\"res\",\"fds\":" + num(count_fds() - before) + ",\"children\":" + children() + "}");
            flush();
        }
        else return 3;
    }
    return 0;
}

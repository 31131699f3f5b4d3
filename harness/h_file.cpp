// Operations on OSMFile objects; logs descriptors and children after each.
#include "vf.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <set>
#include <ext/stdio_filebuf.h>
#include <sys/wait.h>
#include <osmium/osmfile.hpp>
using namespace vf;
using Osmium::OSMFile;

static std::vector<pid_t> forked; static int fail_fork = 0;
extern "C" pid_t fork() {
    static pid_t (*real)() = 0;
    if (!real) real = reinterpret_cast<pid_t (*)()>(dlsym(RTLD_NEXT, "fork"));
    if (fail_fork) { errno = EAGAIN; return -1; }
    pid_t p = real();
    if (p > 0) forked.push_back(p);
    return p;
}
static std::set<int> fds() {
    std::set<int> r; DIR* d = opendir("/proc/self/fd");
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.' && atoi(e->d_name) != dirfd(d)) r.insert(atoi(e->d_name));
    closedir(d); return r;
}
static pid_t strange = 0;
static bool waiting() { siginfo_t si; memset(&si, 0, sizeof si); return strange && waitid(P_PID, strange, &si, WEXITED | WNOWAIT | WNOHANG) == 0 && si.si_pid == strange && si.si_status == 7; }
static int kids() { int n = 0; for (size_t i = 0; i < forked.size(); ++i) if (kill(forked[i], 0) == 0) ++n; return n; }
static OSMFile* slot[5]; static bool in[5]; static std::set<int> base; static std::string dir;

static std::string state() {
    std::string f, o, a; std::set<int> now = fds();
    for (int i = 1; i <= 4; ++i) {
        f += (i > 1 ? "," : "") + num(slot[i] ? slot[i]->fd() : -1);
        std::string n = slot[i] ? slot[i]->filename() : "";
        if (n.compare(0, dir.size(), dir) == 0) n = n.substr(dir.size());
        a += std::string(i > 1 ? "," : "") + "[" + q(n) + "," + q(slot[i] ? slot[i]->type()->suffix() : "") + "," + q(slot[i] ? slot[i]->encoding()->suffix() : "") + "]";
    }
    for (std::set<int>::iterator i = now.begin(); i != now.end(); ++i) if (!base.count(*i)) o += (o.empty() ? "" : ",") + num(*i);
    return "\"fd\":[" + f + "],\"open\":[" + o + "],\"kids\":" + num(kids()) + ",\"strange\":" + bl(waiting()) + ",\"attr\":[" + a + "]";
}
template <class F> std::string guarded(F f) {
    try { f(); return "ok"; }
    catch (OSMFile::IOError&) { return "throw"; }
    catch (OSMFile::SystemError&) { return "throw"; }
    catch (...) { return "other"; }
}
static const char* name_of(const std::string& k) {
    return k == "inplain" ? "in.osh" : k == "ingz" ? "in.osc.gz" : k == "inbad" ? "bad.osm.bz2" : k == "missing" ? "missing.osm.pbf" : k == "outplain" ? "out.osh.pbf" : k == "outgz" ? "out.osm.gz" : "nodir/x.osc.bz2";
}
static bool is_in(const std::string& n) { return n.find("out.") == std::string::npos && n.find("nodir") == std::string::npos; }

int main() {
    signal(SIGPIPE, SIG_IGN);
    __gnu_cxx::stdio_filebuf<char> fb(fcntl(0, F_DUPFD_CLOEXEC, 200), std::ios::in); std::cin.rdbuf(&fb);
    toks t;
    while (read_line(t)) {
        const std::string& c = t[0];
        if (c == "B") { emit(t[1]); }
        else if (c == "Z") close(0);   // a program without standard input
        else if (c == "D") { dir = t[1]; base = fds(); }
        else if (c == "O") { // O op a b|kind
            std::string op = t[1], res = "ok"; int a = toi(t[2]), b = toi(t[3]); std::string k = t[3];
            bool can = op == "forks" ? fail_fork == a : op == "stranger" ? !strange && !fail_fork : op == "reap" ? strange != 0 : op == "new" ? !slot[a] : op == "copy" ? slot[a] && !slot[b] : op == "assign" ? slot[a] && slot[b] && a != b : slot[a] != 0;
            if (op == "read" || op == "write") can = can && slot[a]->fd() >= 0 && in[a] == (op == "read");
            fflush(stdout);
            if (!can) op = "skip";
            else if (op == "forks") fail_fork = !a;
            else if (op == "stranger") {
                strange = fork(); if (strange == 0) _exit(7);
                forked.pop_back(); siginfo_t si; waitid(P_PID, strange, &si, WEXITED | WNOWAIT);
            }
            else if (op == "reap") { int st = 0; res = waitpid(strange, &st, 0) == strange && WIFEXITED(st) && WEXITSTATUS(st) == 7 ? "ok" : "lost"; strange = 0; }
            else if (op == "new") slot[a] = new OSMFile(dir + name_of(k));
            else if (op == "ren") { OSMFile x(dir + name_of(k)); slot[a]->filename(dir + name_of(k)).type(x.type()).encoding(x.encoding()); }
            else if (op == "copy") slot[b] = new OSMFile(*slot[a]);
            else if (op == "assign") res = guarded([&]() { *slot[b] = *slot[a]; });
            else if (op == "close") res = guarded([&]() { slot[a]->close(); });
            else if (op == "destroy") { res = guarded([&]() { delete slot[a]; }); slot[a] = 0; }
            else if (op == "open") {
                bool isin = is_in(slot[a]->filename());
                res = guarded([&]() { if (isin) slot[a]->open_for_input(); else slot[a]->open_for_output(); });
                if (slot[a]->fd() >= 0) in[a] = isin;
            }
            else if (op == "read") { char buf[4096]; while (::read(slot[a]->fd(), buf, sizeof buf) > 0) {} }
            else if (op == "write") { if (::write(slot[a]->fd(), "hello world\n", 12) != 12) {} }
            emit("{\"e\":\"op\",\"op\":\"" + op + "\",\"a\":" + num(a) + ",\"b\":" + num(b) + ",\"k\":" + q(k) + ",\"res\":\"" + res + "\"," + state() + "}");
        }
        else if (c == "K") { // K n filler order enc: n compressed outputs at once, with filler descriptors open
            int n = toi(t[1]), filler = toi(t[2]); std::string order = t[3];
            std::vector<int> fill; for (int i = 0; i < filler; ++i) fill.push_back(open("/dev/null", O_RDONLY));
            std::set<int> b2 = fds();
            std::vector<OSMFile*> f; int opened = 0, closed = 0;
            for (int i = 0; i < n; ++i) {
                OSMFile* x = new OSMFile(dir + "multi" + num(i) + (t[4] == "mix" ? (i % 3 == 0 ? ".osm.gz" : i % 3 == 1 ? ".osm.bz2" : ".osm") : t[4]));
                if (guarded([&]() { x->open_for_output(); }) == "ok") ++opened;
                f.push_back(x);
            }
            for (int i = 0; i < n; ++i) { std::string s = "data " + num(i) + "\n"; if (::write(f[i]->fd(), s.data(), s.size()) < 0) {} }
            for (int j = 0; j < n; ++j) {
                int i = order == "fifo" ? j : order == "lifo" ? n - 1 - j : (j * 7 + 3) % n;
                fflush(stdout);
                if (guarded([&]() { f[i]->close(); }) == "ok") ++closed;
            }
            int kk = kids(); int left = static_cast<int>(fds().size()) - static_cast<int>(b2.size());
            for (int i = 0; i < n; ++i) delete f[i];
            for (size_t i = 0; i < fill.size(); ++i) close(fill[i]);
            emit("{\"e\":\"multi\",\"want\":" + num(n) + ",\"opened\":" + num(opened) + ",\"closed\":" + num(closed) + ",\"leftfds\":" + num(left) + ",\"kids\":" + num(kk) + "}");
        }
        else if (c == "E") { for (int i = 1; i <= 4; ++i) if (slot[i]) return 4; emit("{\"e\":\"end\"}"); fflush(stdout); }
        else return 3;
    }
    flush();
    return 0;
}

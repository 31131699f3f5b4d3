// Operations on the by-id stores, with tracking of what they map, open and allocate.
#include "vf.hpp"
#include <dirent.h>
#include <ext/stdio_filebuf.h>
#include <iostream>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <osmium/storage/byid/fixed_array.hpp>
#include <osmium/storage/byid/mmap_anon.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/vector.hpp>
using namespace vf;
using namespace Osmium::Storage::ById;

// The stores are header code in this program, so their calls come here; the C library's own do not.
static int cur = 0, foreign = 0;
struct Map { size_t len; int owner; };
static std::map<char*, Map> maps;
static void own(void* p, size_t n) { if (p != MAP_FAILED && cur) { Map m = { n, cur }; maps[static_cast<char*>(p)] = m; } }
static void disown(void* p, size_t n) {
    std::map<char*, Map>::iterator i = maps.find(static_cast<char*>(p));
    if (i == maps.end() || i->second.owner != cur || (i->second.len + 4095) / 4096 != (n + 4095) / 4096) { if (cur) ++foreign; } else maps.erase(i);
}
// the system refuses the next mapping
static bool nomem = false, refused = false;
static bool refuse() { if (!cur || !nomem) return false; nomem = false; refused = true; errno = ENOMEM; return true; }
extern "C" void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) throw() {
    if (refuse()) return MAP_FAILED;
    void* r = reinterpret_cast<void*>(syscall(SYS_mmap, a, n, pr, fl, fd, o)); own(r, n); return r;
}
extern "C" int munmap(void* a, size_t n) throw() {
    disown(a, n);
    return syscall(SYS_munmap, a, n);
}
extern "C" void* mremap(void* a, size_t o, size_t n, int fl, ...) throw() {
    if (refuse()) return MAP_FAILED;
    void* r = reinterpret_cast<void*>(syscall(SYS_mremap, a, o, n, fl, 0));
    if (r != MAP_FAILED) { disown(a, o); own(r, n); }
    return r;
}
static int64_t mapped(int s) { int64_t n = 0; for (std::map<char*, Map>::iterator i = maps.begin(); i != maps.end(); ++i) if (i->second.owner == s) n += i->second.len; return n; }
static int64_t heap() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }

struct V4 { int32_t v; V4(int32_t x = -1) : v(x) {} };
struct V8 { int32_t v, w; V8(int32_t x = -1) : v(x), w(x) {} };
struct V12 { int32_t u, v, w; V12(int32_t x = -1) : u(x), v(x), w(x) {} };

struct Store { virtual ~Store() {} virtual void set(uint64_t, int) = 0; virtual int get(uint64_t) = 0; virtual void clear() = 0; };
template <class T, class B> struct Impl : Store {
    B* b; Impl(B* x) : b(x) {} ~Impl() { delete b; }
    void set(uint64_t i, int v) { b->set(i, T(v)); }
    int get(uint64_t i) { return (*b)[i].v; }
    void clear() { b->clear(); }
};
template <class T> Store* make(const std::string& k, const toks& t) {
    if (k == "fixed") return new Impl<T, FixedArray<T> >(new FixedArray<T>(toi(t[4])));
    if (k == "anon") return new Impl<T, MmapAnon<T> >(new MmapAnon<T>());
    if (k == "file") return new Impl<T, MmapFile<T> >(t[4] == "-" ? new MmapFile<T>() : t[5] == "def" ? new MmapFile<T>(t[4]) : new MmapFile<T>(t[4], t[5] == "rm"));
    if (k == "sparse") return t[4] == "-" ? new Impl<T, SparseTable<T> >(new SparseTable<T>()) : new Impl<T, SparseTable<T> >(new SparseTable<T>(toi(t[4])));
    if (k == "map") return new Impl<T, StlMap<T> >(new StlMap<T>());
    return new Impl<T, Vector<T> >(new Vector<T>());
}
struct Slot { Store* s; std::string kind, file; bool keep; int64_t used; int files; Slot() : s(0), keep(false), used(0), files(0) {} };
static Slot slot[3];
// everything a store does happens in such a section: what it allocates is counted as its own
struct Section { int n, f; int64_t h; Section(int s) : n(s), f(fds()), h(heap()) { cur = s; } ~Section() { cur = 0; slot[n].used += heap() - h; slot[n].files += fds() - f; } };
struct Fill { int64_t first, step, count, base; };
static std::vector<Fill> fills[3];

int main() {
    __gnu_cxx::stdio_filebuf<char> fb(fcntl(0, F_DUPFD_CLOEXEC, 200), std::ios::in); std::cin.rdbuf(&fb);
    toks t; bool closed = false;
    while (read_line(t)) {
        const std::string c = t[0];
        if (c == "B") { emit(t[1]); continue; }
        if (c == "Z") { if (!closed) close(0); closed = true; continue; }   // a program without standard input
        if (c == "nomem") { nomem = true; continue; }
        if (c == "failnew") { // kind size
            bool th = false; nomem = true; refused = false; toks a(t); a.insert(a.begin() + 1, "2"); if (a.size() < 5) a.push_back("-"); a.push_back("rm");
            if (toi(a[4]) >= (1LL << 40)) refused = true;   // more than the address space holds
            try { cur = 1; Store* s = t[2] == "4" ? make<V4>(t[1], a) : t[2] == "8" ? make<V8>(t[1], a) : make<V12>(t[1], a); delete s; } catch (std::bad_alloc&) { th = true; }
            cur = 0; nomem = false;
            emit("{\"e\":\"failnew\",\"kind\":" + q(t[1]) + ",\"thrown\":" + bl(th) + ",\"refused\":" + bl(refused) + "}"); flush(); continue;
        }
        const int n = toi(t[1]); Slot& S = slot[n];
        const std::string sl = "\"s\":" + num(n);
        if (c == "new") { // new slot kind size arg [rm|keep] again
            S.kind = t[2]; S.file = t[2] == "file" ? t[4] : "-"; S.keep = t.size() > 5 && t[5] == "keep";
            emit("{\"e\":\"new\"," + sl + ",\"kind\":" + q(S.kind) + ",\"again\":" + bl(t.size() > 6 && t[6] == "again") + "}"); flush();
            fills[n].reserve(100);
            S.used = 0; S.files = 0;
            { Section x(n);
            S.s = t[3] == "4" ? make<V4>(t[2], t) : t[3] == "8" ? make<V8>(t[2], t) : make<V12>(t[2], t); }
            if (t.size() <= 6) fills[n].clear();
        } else if (c == "set" || c == "toobig") {
            bool th = false; refused = false;
            try { Section x(n); S.s->set(strtoull(t[2].c_str(), 0, 10), toi(t[3])); } catch (std::exception&) { th = true; }
            emit("{\"e\":\"" + c + "\"," + sl + ",\"id\":" + q(t[2]) + ",\"v\":" + t[3] + ",\"thrown\":" + bl(th) + ",\"refused\":" + bl(refused) + "}"); nomem = false;
        } else if (c == "fill") { // fill slot first step count base
            Fill f = { toi(t[2]), toi(t[3]), toi(t[4]), toi(t[5]) };
            { Section x(n); for (int64_t i = 0; i < f.count; ++i) S.s->set(f.first + i * f.step, f.base + i); }
            emit("{\"e\":\"fill\"," + sl + ",\"first\":" + t[2] + ",\"step\":" + t[3] + ",\"count\":" + t[4] + ",\"base\":" + t[5] + "}");
            fills[n].push_back(f);
        } else if (c == "get") {
            std::string v;
            try { Section x(n); v = num(S.s->get(strtoull(t[2].c_str(), 0, 10))); } catch (std::exception&) { v = "\"throw\""; }
            emit("{\"e\":\"get\"," + sl + ",\"kind\":" + q(S.kind) + ",\"id\":" + q(t[2]) + ",\"n\":" + (t[2].size() < 10 ? t[2] : "-1") + ",\"v\":" + v + "}");
        } else if (c == "sweep") { // only after disjoint fills: every filled id reads back
            int64_t wrong = 0;
            for (size_t k = 0; k < fills[n].size(); ++k) for (int64_t i = 0; i < fills[n][k].count; ++i) if (S.s->get(fills[n][k].first + i * fills[n][k].step) != fills[n][k].base + i) ++wrong;
            emit("{\"e\":\"sweep\"," + sl + ",\"wrong\":" + num(wrong) + "}");
        } else if (c == "clear" || c == "destroy") {
            foreign = 0;
            { Section x(n); if (c == "clear") S.s->clear(); else { delete S.s; S.s = 0; } }
            struct stat sb;
            const bool ex = S.file != "-" && stat(S.file.c_str(), &sb) == 0;
            emit("{\"e\":\"" + c + "\"," + sl + ",\"freed\":" + bl(mapped(n) == 0 && S.used < 40000) + ",\"foreign\":" + num(foreign) +
                 ",\"fds\":" + num(c == "destroy" ? S.files : 0) + ",\"exists\":" + bl(ex) + ",\"kept\":" + bl(S.kind == "file" && S.keep) + "}");
        } else return 3;
        flush();
    }
    flush();
    return 0;
}

// Names, types and encodings of OSMFile objects.
#include "vf.hpp"
#include <osmium/osmfile.hpp>
using namespace vf;
using Osmium::OSMFile;
static const char* tn(OSMFile::FileType* t) { return t == OSMFile::FileType::OSM() ? "osm" : t == OSMFile::FileType::History() ? "history" : t == OSMFile::FileType::Change() ? "change" : "?"; }
static const char* en(OSMFile::FileEncoding* e) { return e == OSMFile::FileEncoding::PBF() ? "pbf" : e == OSMFile::FileEncoding::XML() ? "xml" : e == OSMFile::FileEncoding::XMLgz() ? "gz" : e == OSMFile::FileEncoding::XMLbz2() ? "bz2" : "?"; }
static std::string text(const std::string& s) { // words separated by blanks
    toks w = split(s, ' '); std::string r;
    for (size_t i = 0; i < w.size(); ++i) r += w[i];
    return r;
}
static std::string words(const std::string& s) {
    if (s.empty()) return "[]";
    toks w = split(s, ' '); std::string r;
    for (size_t i = 0; i < w.size(); ++i) r += (i ? ",\"" : "\"") + w[i] + "\"";
    return "[" + r + "]";
}
int main() {
    toks t; OSMFile* f = 0;
    while (read_line(t)) {
        const std::string& c = t[0];
        std::string ev, x = t.size() > 1 ? t[1] : ""; bool thrown = false;
        if (c == "B") { emit(x); continue; }
        try {
            if (c == "new") { delete f; f = 0; ev = "\"s\":" + words(x); f = new OSMFile(text(x)); }
            else if (c == "name") { ev = "\"s\":" + words(x); f->filename(text(x)); }
            else if (c == "type") { ev = "\"x\":" + q(unpct(x)); f->type(unpct(x)); }
            else if (c == "enc") { ev = "\"x\":" + q(unpct(x)); f->encoding(unpct(x)); }
            else if (c == "suffix") { ev = "\"x\":" + q(x); f->set_type_and_encoding(x); }
            else if (c == "copy") { ev = "\"k\":1"; OSMFile* g = new OSMFile(x == "n" ? f->filename() : std::string("other.osh.gz")); if (x != "c") *g = *f; else { delete g; g = new OSMFile(*f); } delete f; f = g; }
            else if (c == "back") {
                OSMFile g(f->filename_with_default_suffix());
                emit("{\"e\":\"back\",\"thrown\":false,\"typ\":\"" + std::string(tn(g.type())) + "\",\"enc\":\"" + en(g.encoding()) + "\"}");
                continue;
            } else if (c == "opened") {
                std::string how = "file", arg;
                // the copy is made in place and never destroyed when it stands for standard input
                OSMFile* g = new OSMFile(*f);
                try {
                    g->open_for_input();
                    if (g->fd() == 0) {
                        how = "stdin";
                    } else {
                        char b[400]; std::string all; ssize_t n;
                        while ((n = ::read(g->fd(), b, sizeof b)) > 0) all.append(b, n);
                        if (all.compare(0, 5, "STUB ") == 0) {
                            how = all.substr(5, all.find(' ', 5) - 5); arg = all.substr(all.find(' ', 5) + 1);
                        }
                    }
                } catch (OSMFile::IOError&) { how = "file"; }
                if (how != "stdin") delete g;
                emit("{\"e\":\"opened\",\"how\":" + q(how) + ",\"arg\":" + q(arg) + "}");
                continue;
            }
        } catch (OSMFile::ArgumentError&) { thrown = true; }
        emit("{\"e\":\"" + c + "\",\"thrown\":" + bl(thrown) + "," + ev + ",\"name\":" + q(f->filename()) + ",\"typ\":\"" + tn(f->type()) + "\",\"enc\":\"" + en(f->encoding()) +
             "\",\"base\":" + q(f->filename_without_suffix()) + ",\"def\":" + q(f->filename_with_default_suffix()) + ",\"multi\":" + bl(f->has_multiple_object_versions()) + "}");
    }
    delete f;
    flush();
    return 0;
}

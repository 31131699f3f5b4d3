// Tag filters: direct answers, iteration and filtered accumulation; tags as text.
#include "vf.hpp"
#include <osmium/tags/key_filter.hpp>
#include <osmium/tags/key_value_filter.hpp>
#include <osmium/tags/regex_filter.hpp>
#include <osmium/tags/to_string.hpp>
#include <osmium/utils/filter_and_accumulate.hpp>
using namespace vf;
using namespace Osmium;
typedef std::vector<int> V;
static std::string ints(const V& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + num(v[i]); return r + "]"; }
static std::string bytes(const std::string& s) { V v; for (size_t i = 0; i < s.size(); ++i) v.push_back((unsigned char) s[i]); return ints(v); }
struct Pos { // folds the position of the tag (found by its address)
    const OSM::TagList* l; Pos(const OSM::TagList* ll) : l(ll) {}
    V operator()(V a, const OSM::Tag& t) const { a.push_back(int(&t - &(*l)[0]) + 1); return a; }
};
template <class F> void run(const F& f, OSM::TagList& l, const std::string& ev) {
    const OSM::TagList& cl = l;
    std::string res = "["; V it, it2;
    for (int i = 0; i < cl.size(); ++i) res += std::string(i ? "," : "") + bl(f(cl[i]));
    F copy(f);
    typename F::iterator b(copy, cl.begin(), cl.end()), e(copy, cl.end(), cl.end());
    for (; b != e; ++b) it.push_back(int(&*b - &cl[0]) + 1);
    V acc = filter_and_accumulate(cl, f, V(), Pos(&cl));
    emit(ev + ",\"res\":" + res + "],\"iter\":" + ints(it) + ",\"acc\":" + ints(acc) + "}");
}
template <class O> void tostr(const O& op, OSM::TagList& l, const std::string& ev) {
    const OSM::TagList& cl = l; std::string s;
    Tags::KeyFilter all(true);
    std::string acc = filter_and_accumulate(cl, all, std::string(), op);
    for (OSM::TagList::const_iterator i = cl.begin(); i != cl.end(); ++i) op(s, *i);
    emit(ev + ",\"out\":" + bytes(acc) + ",\"same\":" + bl(acc == s) + "}");
}
int main() {
    toks t;
    while (read_line(t)) { // kind default rules tags eventjson(open)
        OSM::TagList l; std::vector<toks> rules;
        if (!t[2].empty()) { toks r = split(t[2], ';'); for (size_t i = 0; i < r.size(); ++i) rules.push_back(split(r[i], ',')); }
        if (!t[3].empty()) { toks p = split(t[3], ';'); for (size_t i = 0; i < p.size(); ++i) { toks kv = split(p[i], ','); l.add(unpct(kv[0]).c_str(), unpct(kv[1]).c_str()); } }
        if (rules.empty() && (t[0] == "keq" || t[0] == "op")) rules.push_back(toks(5));
        const std::string k = t[0]; bool d = t[1] == "1";
        if (k == "key") { Tags::KeyFilter f(d); for (size_t i = 0; i < rules.size(); ++i) f.add(rules[i][0] == "1", unpct(rules[i][1]).c_str()); run(f, l, t[4]); }
        else if (k == "kv" || k == "regex") {
            Tags::KeyValueFilter f(d); Tags::RegexFilter g(d);
            for (size_t i = 0; i < rules.size(); ++i) { // res,key,(- without value | ~ explicit null | =value)
                bool r = rules[i][0] == "1"; std::string a = unpct(rules[i][1]), v = unpct(rules[i][2]);
                if (k == "kv") { if (v == "-") f.add(r, a.c_str()); else f.add(r, a.c_str(), v == "~" ? NULL : v.c_str() + 1); }
                else { if (v == "-") g.add(r, a.c_str()); else g.add(r, a.c_str(), v == "~" ? NULL : v.c_str() + 1); }
            }
            if (k == "kv") run(f, l, t[4]); else run(g, l, t[4]);
        }
        else if (k == "hstore") tostr(Tags::TagToHStoreStringOp(), l, t[4]);
        else if (k == "keq") { std::string j = unpct(rules[0][0]); tostr(Tags::TagToKeyEqualsValueStringOp(j.c_str()), l, t[4]); }
        else if (k == "op") { // esc,pre,inf,suf,join
            std::string e = unpct(rules[0][0]), p = unpct(rules[0][1]), n = unpct(rules[0][2]), s = unpct(rules[0][3]), j = unpct(rules[0][4]);
            tostr(Tags::TagToStringOp(e, p.c_str(), n.c_str(), s.c_str(), j.c_str()), l, t[4]);
        }
        else return 3;
    }
    flush();
    return 0;
}

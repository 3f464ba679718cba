// LIBS: protobuf vt opts
// C29: the option string of the generator (QT_PROTOBUF_OPTIONS).
#include "symx.h"
#include "generatoroptions.h"
#include <string>
using QtProtobuf::generator::GeneratorOptions;
static const char *const Names[] = {"MULTI", "QML", "COMMENTS", "FOLDER", "FIELDENUM", "SINGLE"};
static bool flag(const GeneratorOptions &o, int i)
{
    switch (i) { case 0: return o.isMulti(); case 1: return o.hasQml(); case 2: return o.generateComments(); case 3: return o.isFolder(); default: return o.generateFieldEnum(); }
}
static char identChar(const char *n, bool first)
{
    unsigned char c = (unsigned char)sym<unsigned char>(n);
    symx_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | (!first & (c >= '0') & (c <= '9')) | (!first & (c == '.')));
    return (char)c;
}
// A list of n items in any order: every option is in force exactly when it is listed, and the namespace is
// the value of EXTRA_NAMESPACE, plain or in quotes as the CMake macros write it.
HARNESS(opt_list)
{
    int n = symx_param("n", 3), vl = symx_param("len", 2), jl = symx_param("junk", 2);
    bool on[6] = {false, false, false, false, false, false}, haveNs = false; std::string s, ns;
    for (int i = 0; i < n; i++) {
        int k = choose("item", haveNs ? 8 : 10); if (!i) { int e = symx_param("e0", -1); symx_assume((e < 0) | (k == e)); }
        if (i) s += ':';
        if (k < 6) { s += Names[k]; on[k] = true; }
        else if (k == 6) { if (choose("bare", 2)) s += "EXTRA_NAMESPACE"; }   // an empty item, or the name without a value
        else if (k == 7) {                                     // something unknown: options keep their meaning
            std::string j;
            for (int c = 0; c < jl; c++) { unsigned char ch = (unsigned char)sym<unsigned char>("junk"); symx_assume((ch > 32) & (ch < 127) & (ch != ':')); j += (char)ch; }
            s += j;
        } else {
            haveNs = true; int l = choose("nslen", vl + 1);
            for (int c = 0; c < l; c++) ns += identChar("ns", c == 0);
            s += "EXTRA_NAMESPACE="; if (k == 8) s += ns; else { s += '"'; s += ns; s += '"'; }
        }
    }
    GeneratorOptions &o = GeneratorOptions::instance();
    symx_check(&o == &GeneratorOptions::instance(), "one set of options");
    for (int i = 0; i < 5; i++) symx_check(!flag(o, i), "no option is set by default");
    symx_check(o.extraNamespace().empty(), "no namespace by default");
    o.parseFromEnv(s);
    for (int i = 0; i < 5; i++) symx_check(flag(o, i) == on[i], "an option is set exactly when it is listed");
    symx_check(o.extraNamespace() == ns, "the extra namespace is the value given");
    symx_cover("done");
}
// A name that is not exactly an option sets none
HARNESS(opt_near)
{
    int k = choose("name", 5), what = choose("what", 4); std::string s = Names[k];
    unsigned char c = (unsigned char)sym<unsigned char>("c"); symx_assume((c > 32) & (c < 127) & (c != ':'));
    if (what == 0) s += (char)c;
    else if (what == 1) s = std::string(1, (char)c) + s;
    else if (what == 2) s.resize(s.size() - 1);
    else { size_t p = (size_t)choose("pos", 9); symx_assume(p < s.size()); symx_assume((char)c != s[p]); s[p] = (char)c; }
    GeneratorOptions &o = GeneratorOptions::instance();
    if (choose("ctx", 2)) s = "SINGLE:" + s + ":";
    o.parseFromEnv(s);
    for (int i = 0; i < 5; i++) symx_check(!flag(o, i), "an unknown option changes nothing");
    symx_check(o.extraNamespace().empty(), "an unknown option changes no namespace");
    symx_cover("done");
}

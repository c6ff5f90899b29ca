// P41 the same answers in every build configuration.
#include "opinput.h"

#include <dlfcn.h>
#include <malloc.h>

using namespace pbt;
using namespace gen;

namespace
{
struct PluginInput
{
    char32_t const* text;
    size_t textSize;
    char const* utf8;
    size_t utf8Size;
    char32_t const* other;
    size_t otherSize;
    char const* otherUtf8;
    size_t otherUtf8Size;
    unsigned number;
};
struct Build
{
    std::string name;
    uint64_t (*run)(size_t, PluginInput const*) = nullptr;
};
std::vector<Build> const& builds()
{
    static std::vector<Build> const v = [] {
        std::vector<Build> r;
        char const* list = getenv("PBT_PLUGINS");
        std::string s = list ? list : "";
        while (!s.empty())
        {
            auto const e = s.find('\n');
            auto const line = s.substr(0, e);
            s = e == s.npos ? "" : s.substr(e + 1);
            auto const at = line.find('=');
            void* h = dlopen(line.substr(at + 1).c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h)
            {
                fprintf(stderr, "%s\n", dlerror());
                exit(2);
            }
            Build b { line.substr(0, at), reinterpret_cast<uint64_t (*)(size_t, PluginInput const*)>(dlsym(h, "pbt_plugin_run")) };
            auto* count = reinterpret_cast<size_t (*)()>(dlsym(h, "pbt_plugin_operations"));
            if (!b.run || !count || count() != ops::all().size())
            {
                fprintf(stderr, "not a plugin: %s\n", line.c_str());
                exit(2);
            }
            r.push_back(b);
        }
        if (r.empty())
        {
            fprintf(stderr, "no builds to compare\n");
            exit(2);
        }
        return r;
    }();
    return v;
}
void compare(Case& c, size_t op, ops::Input const& i)
{
    PluginInput const p { i.text.data(), i.text.size(), i.utf8.data(), i.utf8.size(), i.other.data(), i.other.size(), i.otherUtf8.data(), i.otherUtf8.size(), i.number };
    auto const want = ops::run(op, i);
    for (auto const& b: builds())
    {
        // memory that was freed or never written looks different to each build
        mallopt(M_PERTURB, 0xA5);
        auto const got = b.run(op, &p);
        mallopt(M_PERTURB, 0);
        c.evals(1);
        if (got != want)
            c.fail(std::string("'") + ops::all()[op].name + "' answers differently in the build " + b.name);
    }
}
void operations(Case& c)
{
    auto const i = opinput::input(c);
    auto const op = c.draw(ops::all().size());
    c.show(std::string("'") + ops::all()[op].name + "' on " + hexStr(i.text) + " / " + hexStr(i.other) + " number " + std::to_string(i.number) + " bytes " + hexStr(U32(i.utf8.begin(), i.utf8.end())));
    c.label(std::string("op.") + ops::all()[op].name);
    if (i.text.size() >= 2)
        c.nontrivial(hashOf(i.text) * 64 + op);
    compare(c, op, i);
}
// Bytes of any kind, where the signedness of char shows.
void anyBytes(Case& c)
{
    ops::Input i;
    for (auto* s: { &i.utf8, &i.otherUtf8 })
        for (auto n = c.draw(24); n--;)
            switch (c.draw(4))
            {
                case 0: *s += static_cast<char>(c.draw(256)); break;
                case 1: *s += static_cast<char>(0x80 + c.draw(128)); break;
                case 2: *s += static_cast<char>(0x20 + c.draw(0x60)); break;
                case 3: ref::encodeUtf8(anyScalar(c), *s); break;
            }
    i.text = U32(i.utf8.begin(), i.utf8.end());
    i.number = static_cast<unsigned>(c.draw(80));
    auto const op = c.draw(ops::all().size());
    c.show(std::string("'") + ops::all()[op].name + "' on bytes " + hexStr(U32(i.utf8.begin(), i.utf8.end())) + " / " + hexStr(U32(i.otherUtf8.begin(), i.otherUtf8.end())) + " number " + std::to_string(i.number));
    if (i.utf8.size() >= 2)
        c.nontrivial(hashOf(i.text) * 64 + op);
    compare(c, op, i);
}
// Every codepoint through every query.
void everyCodepoint(Case& c)
{
    auto const k = c.index(0x110000 / 8);
    ops::Input i;
    for (uint32_t n = 0; n < 8; ++n)
        i.text += static_cast<char32_t>(k * 8 + n);
    c.show("queries from " + hexStr(i.text));
    c.nontrivial(k);
    compare(c, 0, i);
}
} // namespace

PROPERTY({ "P41",
           "a case is non-trivial if its text has two or more characters",
           {
               { "operations", 60000, 2000000, operations },
               { "bytes", 40000, 1000000, anyBytes },
               { "long", 400, 10000, longArm(operations, 2000, 20000) },
               { "codepoints", 0x110000 / 8, 0x110000 / 8, everyCodepoint, true },
           },
           {},
           {},
           { "the builds are those of tools/checks.py (BUILDS): two compilers, several optimisation levels, language standards, SIMD back ends, signedness of char and library modes; all for x86-64 with libstdc++" } });

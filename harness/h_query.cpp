// P30 unicode-query: run in-process (its main() is renamed in h_query_part1.cpp) with captured streams.
#include "clusters.h"

#include <libunicode/codepoint_properties.h>
#include <libunicode/convert.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_ostream.h>
#include <libunicode/utf8_grapheme_segmenter.h>

#include <iostream>
#include <memory>
#include <sstream>

using namespace pbt;
using namespace gen;

int uq_main(int argc, char const* argv[]);

// {{{ running the tool
struct Result
{
    std::string out, err;
    int status = 0;
};
static std::string commandLine(std::vector<std::string> const& args)
{
    std::string s = "unicode-query";
    for (auto const& a: args)
    {
        s += " '";
        for (unsigned char const ch: a)
            if (ch >= 0x20 && ch < 0x7F)
                s += static_cast<char>(ch);
            else
            {
                char b[8];
                snprintf(b, sizeof b, "\\x%02X", ch);
                s += b;
            }
        s += "'";
    }
    return s;
}
static Result run(Case& c, std::vector<std::string> const& args)
{
    std::vector<char const*> argv { "unicode-query" };
    // each argument in memory of its own, so that reading beyond it shows
    std::vector<std::unique_ptr<char[]>> mem;
    for (auto const& a: args)
    {
        mem.push_back(std::make_unique<char[]>(a.size() + 1));
        std::copy(a.begin(), a.end(), mem.back().get());
        mem.back()[a.size()] = 0;
        argv.push_back(mem.back().get());
    }
    argv.push_back(nullptr);
    std::ostringstream out, err;
    static std::ios const pristine(nullptr);
    std::cout.copyfmt(pristine);
    std::cerr.copyfmt(pristine);
    auto* const o = std::cout.rdbuf(out.rdbuf());
    auto* const e = std::cerr.rdbuf(err.rdbuf());
    std::string thrown;
    Result r;
    try
    {
        r.status = uq_main(static_cast<int>(args.size()) + 1, argv.data());
    }
    catch (std::exception const& x)
    {
        thrown = x.what();
    }
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
    std::cout.copyfmt(pristine);
    if (!thrown.empty())
        c.fail(commandLine(args) + " ends with an exception: " + thrown);
    r.out = out.str();
    for (std::string const colour: { "\033[32m", "\033[m" }) // on a terminal; an escape in the text is printed as \x1b
        for (size_t i; (i = r.out.find(colour)) != std::string::npos;)
            r.out.erase(i, colour.size());
    r.err = err.str();
    return r;
}
// }}}

// {{{ properties
template <typename T>
static std::string streamed(T const& v)
{
    std::ostringstream s;
    s << v;
    return s.str();
}
static bool printable(char ch) { return ch >= 0x20 && ch < 0x7F; }
// The escape the tool uses: \xHH. (It pads one digit with a blank; that is not what is tested here.)
static std::string esc(char ch)
{
    char b[8];
    snprintf(b, sizeof b, "\\x%02x", static_cast<unsigned char>(ch));
    return b;
}
static std::string escapedAll(std::string_view s)
{
    std::string r;
    for (auto const ch: s)
        r += printable(ch) && ch != '"' ? std::string(1, ch) : esc(ch);
    return r;
}
static std::string escapedControls(std::string_view s)
{
    std::string r;
    for (auto const ch: s)
        r += static_cast<unsigned char>(ch) < 0x20 ? esc(ch) : std::string(1, ch);
    return r;
}
static std::string padded(std::string s)
{
    for (size_t i = 0; (i = s.find("\\x ", i)) != std::string::npos; ++i)
        s[i + 2] = '0';
    return s;
}
using Record = std::vector<std::pair<std::string, std::string>>;
static Record record(char32_t cp)
{
    auto const p = unicode::codepoint_properties::get(cp);
    Record r;
    r.emplace_back("Name", unicode::codepoint_properties::name(cp));
    auto age = streamed(p.age);
    if (age.size() > 1 && age[0] == 'V' && isdigit(static_cast<unsigned char>(age[1])))
    {
        age.erase(0, 1);
        for (auto& ch: age)
            if (ch == '_')
                ch = '.';
    }
    r.emplace_back("Unicode Version", age);
    char b[16];
    snprintf(b, sizeof b, "%x", static_cast<unsigned>(cp));
    r.emplace_back("Codepoint", std::string("U+") + b);
    auto const u8 = unicode::convert_to<char>(cp);
    r.emplace_back("UTF-8", '"' + escapedAll(u8) + '"');
    if (p.general_category != unicode::General_Category::Control)
        r.emplace_back("Display", u8);
    r.emplace_back("Plane", streamed(unicode::plane(cp)));
    r.emplace_back("Block", streamed(unicode::block(cp)));
    r.emplace_back("Script", streamed(unicode::script(cp)));
    r.emplace_back("General Category", streamed(p.general_category));
    r.emplace_back("East Asian Width", streamed(p.east_asian_width));
    r.emplace_back("Character width", std::to_string(p.char_width));
    r.emplace_back("Emoji Segmentation Category", streamed(p.emoji_segmentation_category));
    r.emplace_back("Emoji Presentation", p.is_emoji_presentation() ? "emoji" : "text");
    r.emplace_back("Grapheme Cluster Break", streamed(p.grapheme_cluster_break));
    return r;
}
static std::vector<Record> parse(std::string const& out)
{
    std::vector<Record> res;
    std::istringstream in(out);
    std::string line;
    while (std::getline(in, line))
    {
        auto const k = line.find(':');
        if (k == std::string::npos)
            continue;
        auto key = line.substr(0, k);
        while (!key.empty() && key.back() == ' ')
            key.pop_back();
        auto value = line.substr(std::min(line.size(), k + 2));
        if (key == "Codepoint")
            for (auto& ch: value)
                if (ch >= 'A' && ch <= 'F')
                    ch = static_cast<char>(ch + 32);
        if (key == "Name")
            res.emplace_back();
        if (res.empty())
            res.emplace_back();
        res.back().emplace_back(key, padded(value));
    }
    return res;
}
static void checkProperties(Case& c, std::vector<std::string> const& args, std::vector<char32_t> const& cps, std::vector<std::string> const& bad)
{
    auto const what = commandLine(args);
    auto const r = run(c, args);
    if (r.status != 0)
        c.fail(what + " exits with " + std::to_string(r.status));
    auto const got = parse(r.out);
    if (got.size() != cps.size())
        c.fail(what + " prints " + std::to_string(got.size()) + " records for " + std::to_string(cps.size()) + " codepoints:\n" + r.out.substr(0, 600));
    for (size_t i = 0; i < cps.size(); ++i)
    {
        auto const want = record(cps[i]);
        for (auto const& [key, value]: want)
        {
            size_t n = 0;
            for (auto const& [k, v]: got[i])
                if (k == key)
                {
                    ++n;
                    if (v != padded(value))
                        c.fail(what + " prints for " + hexStr(U32(1, cps[i])) + " \"" + key + ": " + v + "\", the library says \"" + value + "\"");
                }
            if (n != 1)
                c.fail(what + " prints " + std::to_string(n) + " lines \"" + key + "\" for " + hexStr(U32(1, cps[i])));
        }
        for (auto const& [k, v]: got[i])
            if (k == "Display" && unicode::codepoint_properties::get(cps[i]).general_category == unicode::General_Category::Control)
                c.fail(what + " displays the control character " + hexStr(U32(1, cps[i])));
    }
    if (bad.empty() && !r.err.empty())
        c.fail(what + " complains: " + r.err);
    size_t at = 0;
    for (auto const& b: bad)
    {
        at = r.err.find(b, at);
        if (at == std::string::npos || r.err.empty())
            c.fail(what + " does not report the unparsable argument '" + b + "'; stderr: " + r.err);
        at += b.size();
    }
}
static std::string uplus(Case* c, uint32_t v)
{
    char b[32];
    auto const how = c ? c->draw(4) : 0;
    snprintf(b, sizeof b, how == 1 ? "%x" : how == 2 ? "%04X" : how == 3 ? "%08x" : "%X", v);
    return std::string("U+") + b;
}
static constexpr uint32_t Chunk = 64;
static void p30Every(Case& c)
{
    auto const k = c.index(0x110000 / Chunk);
    std::vector<std::string> args;
    std::vector<char32_t> cps;
    for (uint32_t v = static_cast<uint32_t>(k) * Chunk; v < (k + 1) * Chunk; ++v)
    {
        // all codepoints outside the big uniform planes, a sample inside them
        if (v >= 0x40000 && v < 0xE0000 && v % 61 != 0)
            continue;
        args.push_back(uplus(nullptr, v));
        cps.push_back(v);
    }
    if (args.empty())
        return;
    checkProperties(c, args, cps, {});
    c.evals(cps.size() - 1);
    c.nontrivial(k);
}
static Pool const& pool()
{
    static Pool const p = Pool::by([](uint32_t v) { return std::tuple { ref::gc().at(v), ref::G_(v), ref::width(v) }; },
                                   { U'a', U'-', U'U', U'+', U'"', U'\\', 0x7F, 0x80, 0x378, 0x1F600, 0x1F1E6, 0x1F1E7, 0x200D, 0xFE0F, 0x301, 0x9, 0xA, 0xD, 0x1B });
    return p;
}
static std::string noNul(std::string s)
{
    for (auto& ch: s)
        if (ch == 0)
            ch = 'n';
    return s;
}
static std::string literal(Case& c)
{
    U32 s;
    for (auto n = 1 + c.draw(6); n--;)
        s += pool().draw(c);
    auto b = ref::utf8(s);
    if (c.chance(1, 5))
    {
        auto const at = c.draw(b.size() + 1);
        std::string x;
        illFormed(c, x);
        b.insert(at, x);
    }
    return noNul(b);
}
static void p30Arguments(Case& c)
{
    std::vector<std::string> args, bad;
    std::vector<char32_t> cps;
    if (c.chance(1, 2))
        args.emplace_back("properties");
    for (auto n = 1 + c.draw(4); n--;)
    {
        auto const k = c.draw(9);
        if (k < 3) // a codepoint
        {
            uint32_t const v = c.chance(1, 5) ? static_cast<uint32_t>(c.range(0x110000, 0xFFFFFFFFull)) : c.chance(1, 10) ? static_cast<uint32_t>(0xD800 + c.draw(0x800)) : anyScalar(c);
            args.push_back(uplus(&c, v));
            cps.push_back(v);
            c.label(v > 0x10FFFF ? "argument.beyond" : "argument.codepoint");
        }
        else if (k < 6) // U+ and no number
        {
            std::string s = "U+";
            static std::string const junk[] = { "G", "-41", "+41", " 41", "41 ", "0x41", "41,", "1FFFFFFFF", "100000000", "FFFFFFFFFFFFFFFFFFFFFFFF", "41-42", "ä", "g41", "4 1", ".", "\xff", "123456789", "z", "\xE2\x82" };
            if (c.chance(3, 4))
                s += junk[c.draw(std::size(junk))];
            else
            {
                auto x = literal(c);
                if (x[0] == 'U') // "U+U+41" is accepted; that is neither promised nor excluded
                    x[0] = 'u';
                bool hex = true;
                for (auto const ch: x)
                    hex = hex && isxdigit(static_cast<unsigned char>(ch));
                s += hex ? "x" + x : x;
            }
            args.push_back(s);
            bad.push_back(s);
            c.label("argument.unparsable");
        }
        else if (k == 6 && !args.empty()) // empty
        {
            args.emplace_back("");
            bad.emplace_back("");
            c.label("argument.empty");
        }
        else
        {
            auto s = literal(c);
            if (args.empty() && (s == "help" || s == "runs" || s == "gc" || s == "properties"))
                s += "x";
            if (s.size() >= 3 && s[0] == 'U' && s[1] == '+')
                s[0] = 'u';
            args.push_back(s);
            auto const before = cps.size();
            for (char32_t const v: unicode::from_utf8(std::string_view(s)))
                cps.push_back(v);
            bool wellFormed = true;
            U32 want;
            for (auto const& u: ref::units(s))
            {
                wellFormed = wellFormed && u.ok;
                want += static_cast<char32_t>(u.value);
            }
            if (wellFormed && U32(cps.begin() + static_cast<long>(before), cps.end()) != want)
                c.fail("from_utf8(" + hexBytes(s) + ") differs from the reference");
            if (cps.size() == before)
                bad.push_back(s);
            c.label(wellFormed ? "argument.text" : "argument.ill-formed");
        }
    }
    c.show(commandLine(args));
    c.nontrivial(hashStr(commandLine(args)));
    checkProperties(c, args, cps, bad);
}
// }}}

// {{{ gc and runs
static void p30Gc(Case& c)
{
    std::vector<std::string> args { "gc" };
    bool const e = c.chance(1, 2), dashes = c.chance(1, 3);
    if (e)
        args.emplace_back("-e");
    if (dashes)
        args.emplace_back("--");
    std::string want;
    for (auto n = c.draw(3); n--;)
    {
        auto s = noNul(c.chance(1, 2) ? ref::utf8(sequence(c)) : literal(c));
        if (!dashes && args.size() == 1u + e && !s.empty() && s[0] == '-')
            s[0] = '_';
        args.push_back(s);
        bool wellFormed = true;
        U32 cps;
        for (auto const& u: ref::units(s))
        {
            wellFormed = wellFormed && u.ok;
            cps += static_cast<char32_t>(u.value);
        }
        std::vector<U32> clusters;
        for (auto const& g: unicode::utf8_grapheme_segmenter(std::string_view(s)))
            clusters.emplace_back(g);
        if (wellFormed)
        {
            std::vector<U32> model;
            size_t at = 0;
            for (auto const k: ref::graphemeEnds(cps))
            {
                model.push_back(cps.substr(at, k - at));
                at = k;
            }
            if (model != clusters)
                c.fail("utf8_grapheme_segmenter differs from the reference on " + hexBytes(s));
        }
        for (auto const& g: clusters)
        {
            auto const u8 = unicode::convert_to<char>(U32V(g));
            want += (e ? escapedAll(u8) : escapedControls(u8)) + "\n";
        }
    }
    c.show(commandLine(args));
    if (!want.empty())
        c.nontrivial(hashStr(commandLine(args)));
    auto const r = run(c, args);
    if (r.status != 0)
        c.fail(commandLine(args) + " exits with " + std::to_string(r.status));
    if (padded(r.out) != padded(want))
        c.fail(commandLine(args) + " prints\n" + r.out + "\nbut the clusters are\n" + want);
}
static void p30Runs(Case& c)
{
    std::vector<std::string> args { "runs" };
    bool const e = c.chance(1, 2), dashes = c.chance(1, 3);
    if (e)
        args.emplace_back("-e");
    if (dashes)
        args.emplace_back("--");
    std::string want;
    for (auto n = c.draw(3); n--;)
    {
        auto s = noNul(c.chance(1, 2) ? ref::utf8(sequence(c)) : literal(c));
        if (!dashes && args.size() == 1u + e && !s.empty() && s[0] == '-')
            s[0] = '_';
        args.push_back(s);
        auto const cps = unicode::convert_to<char32_t>(std::string_view(s));
        unicode::run_segmenter seg(cps);
        unicode::run_segmenter::range g;
        while (seg.consume(unicode::out(g)))
        {
            auto const u8 = unicode::convert_to<char>(U32V(cps).substr(g.start, g.end - g.start));
            want += std::to_string(g.start) + "-" + std::to_string(g.end - 1) + " (" + std::to_string(g.end - g.start) + "): " + streamed(std::get<unicode::Script>(g.properties)) + " " + streamed(std::get<unicode::PresentationStyle>(g.properties)) + "\n\"" + (e ? escapedAll(u8) : escapedControls(u8)) + "\"\n\n";
        }
    }
    c.show(commandLine(args));
    if (!want.empty())
        c.nontrivial(hashStr(commandLine(args)));
    auto const r = run(c, args);
    if (r.status != 0)
        c.fail(commandLine(args) + " exits with " + std::to_string(r.status));
    if (padded(r.out) != padded(want))
        c.fail(commandLine(args) + " prints\n" + r.out + "\nbut the runs are\n" + want);
}
static void p30Usage(Case& c)
{
    std::vector<std::string> args;
    auto const k = c.draw(4);
    int want = 1;
    if (k == 1)
    {
        args.emplace_back("help");
        want = 0;
    }
    else if (k >= 2)
    {
        args.emplace_back(k == 2 ? "gc" : "runs");
        if (c.chance(1, 2))
            args.emplace_back("-e");
        auto s = "-" + literal(c);
        if (s == "-e" || s == "--")
            s += "x";
        args.push_back(s);
    }
    c.show(commandLine(args));
    c.nontrivial(hashStr(commandLine(args)));
    auto const r = run(c, args);
    if ((r.status != 0) != (want != 0))
        c.fail(commandLine(args) + " exits with " + std::to_string(r.status));
    if (r.out.find("unicode-query") == std::string::npos && r.err.find("unicode-query") == std::string::npos)
        c.fail(commandLine(args) + " does not print the usage");
}
// }}}

PROPERTY({ "P30",
           "a chunk of codepoints in properties mode, or a command line for which the tool prints something",
           {
               { "every-codepoint", 0x110000 / Chunk, 0x110000 / Chunk, p30Every, true },
               { "arguments", 60000, 2000000, p30Arguments },
               { "gc", 40000, 2000000, p30Gc },
               { "runs", 40000, 2000000, p30Runs },
               { "usage", 4000, 100000, p30Usage },
           },
           {},
           {},
           { "the tool's main() runs inside the harness with captured streams; terminal colours are off because stdout is no terminal" } });

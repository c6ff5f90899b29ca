// P38 the small helper types of support.h: the array of fixed capacity and output parameters.
#include "gen.h"

#include <libunicode/support.h>

#include <functional>
#include <memory>

using namespace pbt;
using namespace gen;

// in h_support_probe.cpp: must compile for every user
unicode::out<int> outOfReference(std::reference_wrapper<int>);
unicode::out<std::string> outOfReference(std::reference_wrapper<std::string>);
unicode::out<char32_t> outOfReference(std::reference_wrapper<char32_t>);

std::pair<int*, int*> endsOf(unicode::fs_array<int, 4>&);
std::pair<std::string*, std::string*> endsOf(unicode::fs_array<std::string, 4>&);
template <typename A>
auto endsOf(A& a)
{
    return std::pair { a.data(), a.data() + (a.size() - 1) };
}

namespace
{
// An element that knows whether it is alive.
struct Tracked
{
    static inline std::string trouble;
    static constexpr uint32_t Alive = 0xA11FE5E1u, Dead = 0xDEADDEADu;
    uint32_t state = Alive;
    int value = 0;
    std::unique_ptr<int> owned = std::make_unique<int>(0);
    Tracked() = default;
    explicit Tracked(int v): value(v), owned(std::make_unique<int>(v)) {}
    Tracked(Tracked const& o): value(o.value), owned(std::make_unique<int>(o.get("copied"))) {}
    Tracked(Tracked&& o) noexcept: value(o.value), owned(std::make_unique<int>(o.get("moved"))) {}
    Tracked& operator=(Tracked const& o)
    {
        get("assigned to");
        value = o.value;
        owned = std::make_unique<int>(o.get("assigned from"));
        return *this;
    }
    ~Tracked()
    {
        if (state != Alive)
            trouble = "an element is destroyed twice";
        state = Dead;
    }
    int get(char const* use) const
    {
        if (state != Alive)
        {
            trouble = std::string("a destroyed element is ") + use;
            return -1;
        }
        return value;
    }
};
std::string name(int const*) { return "int"; }
std::string name(std::string const*) { return "std::string"; }
std::string name(Tracked const*) { return "Tracked"; }
std::string name(char32_t const*) { return "char32_t"; }
int made(int const*, int v) { return v; }
char32_t made(char32_t const*, int v) { return static_cast<char32_t>(v); }
std::string made(std::string const*, int v) { return std::string(static_cast<size_t>(v % 50), 'a') + std::to_string(v); }
Tracked made(Tracked const*, int v) { return Tracked(v); }
bool same(int a, int b) { return a == b; }
bool same(char32_t a, char32_t b) { return a == b; }
bool same(std::string const& a, std::string const& b) { return a == b; }
bool same(Tracked const& a, Tracked const& b) { return a.get("read") == b.get("read") && *a.owned == *b.owned; }

template <typename T, size_t N>
void arrays(Case& c)
{
    using A = unicode::fs_array<T, N>;
    T const* const tag = nullptr;
    struct Slot
    {
        A array {};
        std::vector<T> model;
    };
    Tracked::trouble.clear();
    auto const what = "fs_array<" + name(tag) + ", " + std::to_string(N) + ">";
    c.show(what);
    std::string story;
    size_t refused = 0, cleared = 0;
    {
        std::vector<std::unique_ptr<Slot>> slots;
        slots.push_back(std::make_unique<Slot>());
        auto const say = [&](std::string const& s) {
            story += s + "; ";
            c.show(s);
        };
        auto const check = [&](size_t i) {
            auto& s = *slots[i];
            auto const& k = s.array;
            auto const& m = s.model;
            auto const where = what + " #" + std::to_string(i) + " after " + story;
            if (!Tracked::trouble.empty())
                c.fail(where + ": " + Tracked::trouble);
            if (k.size() != m.size() || k.empty() != m.empty() || k.capacity() != N || k.size() > N)
                c.fail(where + ": size " + std::to_string(k.size()) + " of capacity " + std::to_string(k.capacity()) + " instead of " + std::to_string(m.size()));
            if (static_cast<size_t>(std::distance(k.begin(), k.end())) != m.size() || static_cast<size_t>(std::distance(s.array.begin(), s.array.end())) != m.size())
                c.fail(where + ": begin() and end() do not span its elements");
            size_t n = 0;
            for (auto const& x: k)
            {
                if (!same(x, m[n]) || !same(k[n], m[n]) || !same(k.at(n), m[n]) || !same(k.data()[n], m[n]) || &k[n] != k.data() + n || &x != k.data() + n)
                    c.fail(where + ": element " + std::to_string(n) + " is another one");
                ++n;
            }
            n = 0;
            for (auto& x: s.array)
            {
                if (&x != s.array.data() + n)
                    c.fail(where + ": the mutable iteration walks elsewhere");
                ++n;
            }
            if (!m.empty() && (!same(k.front(), m.front()) || !same(k.back(), m.back()) || endsOf(s.array) != std::pair { s.array.data(), s.array.data() + m.size() - 1 }))
                c.fail(where + ": front() or back() are other elements");
        };
        int next = 1;
        for (auto steps = 1 + c.size(30); steps > 0; --steps)
        {
            auto const i = c.draw(slots.size());
            auto& s = *slots[i];
            switch (c.draw(9))
            {
                default: {
                    auto const v = next++;
                    say("#" + std::to_string(i) + " push " + std::to_string(v));
                    auto const ok = s.array.push_back(made(tag, v));
                    if (ok != (s.model.size() < N))
                        c.fail(what + " of size " + std::to_string(s.model.size()) + ": push_back returns " + (ok ? "true" : "false"));
                    if (ok)
                        s.model.push_back(made(tag, v));
                    else
                        ++refused;
                    break;
                }
                case 0:
                    say("#" + std::to_string(i) + " clear");
                    s.array.clear();
                    cleared += !s.model.empty();
                    s.model.clear();
                    break;
                case 1: {
                    auto const n = c.draw(N + 1); // growing shows elements that must be there, with whatever value
                    say("#" + std::to_string(i) + " resize " + std::to_string(n));
                    auto const old = s.model.size();
                    s.array.resize(n);
                    if (s.array.size() != n)
                        c.fail(what + " of size " + std::to_string(old) + " has size " + std::to_string(s.array.size()) + " after resize(" + std::to_string(n) + ")");
                    s.model.resize(n);
                    for (auto k = old; k < n; ++k)
                    {
                        *(s.array.begin() + static_cast<std::ptrdiff_t>(k)) = made(tag, next);
                        s.model[k] = made(tag, next);
                        ++next;
                    }
                    break;
                }
                case 2:
                    if (slots.size() < 4)
                    {
                        say("#" + std::to_string(slots.size()) + " copy of #" + std::to_string(i));
                        slots.push_back(std::make_unique<Slot>(s));
                    }
                    break;
                case 3: {
                    auto const k = c.draw(slots.size());
                    say("#" + std::to_string(i) + " = #" + std::to_string(k));
                    s.array = slots[k]->array;
                    s.model = std::vector<T>(slots[k]->model);
                    break;
                }
                case 4:
                    if (!s.model.empty())
                    {
                        auto const k = c.draw(s.model.size());
                        say("#" + std::to_string(i) + "[" + std::to_string(k) + "] = " + std::to_string(next));
                        if (c.chance(1, 2))
                            s.array.data()[k] = made(tag, next);
                        else
                            *(s.array.begin() + static_cast<std::ptrdiff_t>(k)) = made(tag, next);
                        s.model[k] = made(tag, next);
                        ++next;
                    }
                    break;
            }
            for (size_t k = 0; k < slots.size(); ++k)
                check(k);
        }
    }
    if (!Tracked::trouble.empty())
        c.fail(what + " at its end, after " + story + ": " + Tracked::trouble);
    if (refused || cleared)
        c.nontrivial(hashOf(what + story));
    c.label("object." + what);
}

template <typename T>
void outs(Case& c)
{
    T const* const tag = nullptr;
    c.show("out<" + name(tag) + ">");
    std::vector<T> objects, model;
    for (int i = 0; i < 3; ++i)
    {
        objects.push_back(made(tag, i));
        model.push_back(made(tag, i));
    }
    std::vector<unicode::out<T>> outs;
    std::vector<size_t> target;
    int next = 10;
    std::string story;
    auto const say = [&](std::string const& s) {
        story += s + "; ";
        c.show(s);
    };
    for (auto steps = 2 + c.size(16); steps > 0; --steps)
    {
        auto const k = c.draw(objects.size());
        auto const i = outs.empty() ? 0 : c.draw(outs.size());
        switch (outs.empty() ? 0 : c.draw(6))
        {
            case 0:
                say("out of object " + std::to_string(k));
                outs.emplace_back(objects[k]);
                target.push_back(k);
                break;
            case 1:
                say("out of a reference to object " + std::to_string(k));
                outs.push_back(outOfReference(std::ref(objects[k])));
                target.push_back(k);
                break;
            case 2: {
                auto const from = c.draw(outs.size());
                say("out " + std::to_string(i) + " = out " + std::to_string(from));
                outs[i] = outs[from];
                target[i] = target[from];
                break;
            }
            default: {
                auto const how = c.draw(3);
                say("write through out " + std::to_string(i));
                if (how == 0)
                    outs[i].assign(made(tag, next));
                else if (how == 1)
                    *outs[i] = made(tag, next);
                else
                    outs[i].get() = made(tag, next);
                model[target[i]] = made(tag, next);
                ++next;
            }
        }
        for (size_t n = 0; n < objects.size(); ++n)
            if (!same(objects[n], model[n]))
                c.fail("out<" + name(tag) + "> after " + story + ": object " + std::to_string(n) + " has another value");
        for (size_t n = 0; n < outs.size(); ++n)
        {
            auto const& o = outs[n];
            if (&*outs[n] != &objects[target[n]] || &*o != &objects[target[n]] || &o.get() != &objects[target[n]] || o.operator->() != &objects[target[n]] || outs[n].operator->() != &objects[target[n]])
                c.fail("out<" + name(tag) + "> after " + story + ": out " + std::to_string(n) + " refers to something else");
        }
    }
    if (outs.size() > 1)
        c.nontrivial(hashOf(name(tag) + story));
    c.label("object.out<" + name(tag) + ">");
}

void p38(Case& c)
{
    switch (c.draw(9))
    {
        case 0: arrays<int, 4>(c); break;
        case 1: arrays<std::string, 4>(c); break;
        case 2: arrays<Tracked, 3>(c); break;
        case 3: arrays<char32_t, 32>(c); break;
        case 4: arrays<std::string, 1>(c); break;
        case 5: arrays<Tracked, 8>(c); break;
        case 6: outs<int>(c); break;
        case 7: outs<std::string>(c); break;
        default: outs<char32_t>(c);
    }
}
} // namespace

PROPERTY({ "P38",
           "a history is non-trivial if a full array refuses an element or a filled one is cleared, or if it makes several output parameters",
           {
               { "histories", 300000, 3000000, p38 },
           },
           {},
           {},
           { "elements are only accessed within size(); resize() is called with at most the capacity", "elements that resize() adds may have any value" } });

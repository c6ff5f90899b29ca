// P43 the library executes only what the CPU offers. Builds of the library (tools/checks.py, CPU_BUILDS) in which cpuid
// and xgetbv trap are loaded into a process of their own for each case, where a generated CPU answers those
// instructions, and where every instruction that CPU does not have is replaced by an undefined one.
#include "opinput.h"

#include <cerrno>
#include <cpuid.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

using namespace pbt;
using namespace gen;

namespace
{
struct PluginInput
{
    char32_t const* text;
    size_t textSize;
    char const* utf8;
    size_t utf8Size;
    char32_t const* other;
    size_t otherSize;
    char const* otherUtf8;
    size_t otherUtf8Size;
    unsigned number;
};
using Run = uint64_t (*)(size_t, PluginInput const*);

// {{{ extensions, as in tools/cpusites.py
enum : uint32_t
{
    AVX = 1,
    AVX2 = 2,
    FMA = 4,
    F16C = 8,
    BMI1 = 16,
    BMI2 = 32,
    POPCNT = 64,
    LZCNT = 128,
    SSE42 = 256,
    F512 = 512,
    BW = 1024,
    DQ = 2048,
    VL = 4096,
    OTHER512 = 8192, // VBMI, VBMI2, VNNI, BITALG, VPOPCNTDQ, CD, IFMA: offered or not as a whole where BITALG is
    All = 16383,
    VexState = AVX | AVX2 | FMA | F16C,
    EvexState = F512 | BW | DQ | VL | OTHER512
};
char const* const Names[] = { "AVX", "AVX2", "FMA", "F16C", "BMI1", "BMI2", "POPCNT", "LZCNT", "SSE4.2", "AVX512F", "AVX512BW", "AVX512DQ", "AVX512VL", "other AVX-512 extensions" };
std::string names(uint32_t f)
{
    std::string s;
    for (size_t i = 0; i < std::size(Names); ++i)
        if (f >> i & 1)
            s += std::string(s.empty() ? "" : " ") + Names[i];
    return s.empty() ? "nothing beyond SSE4.1" : s;
}
// }}}
struct Cpu
{
    uint32_t has = 0;       // what the processor announces
    bool osxsave = false;   // whether the operating system has enabled xgetbv
    uint32_t xcr0 = 1;      // and which state it saves
    uint32_t maxLeaf = 0;   // the highest basic leaf
    bool amd = false;       // a leaf beyond it reads as zero instead of as the highest one

    // what may be executed
    uint32_t offers() const
    {
        auto r = has;
        if (!osxsave || (xcr0 & 6) != 6)
            r &= ~uint32_t { VexState | EvexState };
        if ((xcr0 & 0xE6) != 0xE6)
            r &= ~uint32_t { EvexState };
        return r;
    }
    std::string show() const
    {
        char b[120];
        snprintf(b, sizeof(b), "; %s, XCR0 %x, highest leaf %u, %s", osxsave ? "OSXSAVE" : "no OSXSAVE", xcr0, maxLeaf, amd ? "AMD" : "Intel");
        return names(has) + b;
    }
};

struct Regs
{
    uint32_t a = 0, b = 0, c = 0, d = 0;
};
Regs realCpuid(uint32_t leaf, uint32_t sub)
{
    Regs r;
    __cpuid_count(leaf, sub, r.a, r.b, r.c, r.d);
    return r;
}
uint32_t realXcr0()
{
    if (!(realCpuid(1, 0).c & (1u << 27)))
        return 1;
    uint32_t a, d;
    __asm__ volatile("xgetbv" : "=a"(a), "=d"(d) : "c"(0));
    return a;
}
// What this machine can execute: a generated CPU has no more than that.
uint32_t realFeatures()
{
    static uint32_t const f = [] {
        uint32_t r = 0;
        auto const set = [&](bool on, uint32_t bit) {
            if (on)
                r |= bit;
        };
        auto const l1 = realCpuid(1, 0);
        set(l1.c >> 28 & 1, AVX);
        set(l1.c >> 12 & 1, FMA);
        set(l1.c >> 29 & 1, F16C);
        set(l1.c >> 23 & 1, POPCNT);
        set(l1.c >> 20 & 1, SSE42);
        if (realCpuid(0, 0).a >= 7)
        {
            auto const l7 = realCpuid(7, 0);
            set(l7.b >> 5 & 1, AVX2);
            set(l7.b >> 3 & 1, BMI1);
            set(l7.b >> 8 & 1, BMI2);
            set(l7.b >> 16 & 1, F512);
            set(l7.b >> 30 & 1, BW);
            set(l7.b >> 17 & 1, DQ);
            set(l7.b >> 31 & 1, VL);
            set((l7.c >> 12 & 1) && (l7.c >> 1 & 1), OTHER512);
        }
        set(realCpuid(0x80000000, 0).a >= 0x80000001 && (realCpuid(0x80000001, 0).c >> 5 & 1), LZCNT);
        auto const x = realXcr0();
        if ((x & 6) != 6)
            r &= ~uint32_t { VexState | EvexState };
        if ((x & 0xE6) != 0xE6)
            r &= ~uint32_t { EvexState };
        return r;
    }();
    return f;
}
Regs pretend(Cpu const& cpu, uint32_t leaf, uint32_t sub)
{
    if (leaf > cpu.maxLeaf && leaf < 0x40000000)
    {
        if (cpu.amd)
            return {};
        leaf = cpu.maxLeaf;
    }
    auto r = realCpuid(leaf, sub);
    auto const bit = [](uint32_t& v, unsigned n, bool on) { v = on ? v | 1u << n : v & ~(1u << n); };
    auto const has = [&](uint32_t f) { return (cpu.has & f) == f; };
    switch (leaf)
    {
        case 0:
            r.a = cpu.maxLeaf;
            r.b = cpu.amd ? 0x68747541 : 0x756E6547;
            r.d = cpu.amd ? 0x69746E65 : 0x49656E69;
            r.c = cpu.amd ? 0x444D4163 : 0x6C65746E;
            break;
        case 1:
            bit(r.c, 12, has(FMA));
            bit(r.c, 20, has(SSE42));
            bit(r.c, 23, has(POPCNT));
            bit(r.c, 26, cpu.osxsave || cpu.has & AVX);
            bit(r.c, 27, cpu.osxsave);
            bit(r.c, 28, has(AVX));
            bit(r.c, 29, has(F16C));
            break;
        case 7:
            if (sub == 0)
            {
                bit(r.b, 3, has(BMI1));
                bit(r.b, 5, has(AVX2));
                bit(r.b, 8, has(BMI2));
                bit(r.b, 16, has(F512));
                bit(r.b, 17, has(DQ));
                bit(r.b, 21, has(OTHER512));
                bit(r.b, 26, false); // PF, ER: of the Xeon Phi alone
                bit(r.b, 27, false);
                bit(r.b, 28, has(OTHER512));
                bit(r.b, 30, has(BW));
                bit(r.b, 31, has(VL));
                for (unsigned const n: { 1, 6, 11, 12, 14 })
                    bit(r.c, n, has(OTHER512));
                for (unsigned const n: { 2, 3, 8, 23 })
                    bit(r.d, n, false);
                for (unsigned const n: { 9, 10 }) // VAES, VPCLMULQDQ
                    bit(r.c, n, has(AVX2) && has(OTHER512));
            }
            else
                r = {};
            break;
        case 0xD:
            if (sub == 0)
                r.a = cpu.xcr0;
            break;
        case 0x24: r = {}; break;
        case 0x80000001:
            bit(r.c, 5, has(LZCNT));
            bit(r.c, 11, false); // XOP, FMA4, TBM
            bit(r.c, 16, false);
            bit(r.c, 21, false);
            break;
        default: break;
    }
    return r;
}

// {{{ the child
struct Report
{
    int state = 0; // 1 loaded, 2 done, 3 an undefined instruction, 4 xgetbv without OSXSAVE, 5 cannot be loaded
    uint64_t at = 0; // the offset of the instruction in the file
    uint32_t cpuids = 0, xgetbvs = 0;
    uint64_t answers[4] = {};
};
Report* report = nullptr;
Cpu current;

uint64_t fileOffset(void const* ip); // see below

void onTrap(int, siginfo_t*, void* u)
{
    auto& g = static_cast<ucontext_t*>(u)->uc_mcontext.gregs;
    auto const* next = reinterpret_cast<unsigned char const*>(g[REG_RIP]); // behind the int3
    if (next[0] == 0xA2)
    {
        auto const r = pretend(current, static_cast<uint32_t>(g[REG_RAX]), static_cast<uint32_t>(g[REG_RCX]));
        g[REG_RAX] = r.a;
        g[REG_RBX] = r.b;
        g[REG_RCX] = r.c;
        g[REG_RDX] = r.d;
        g[REG_RIP] += 1;
        ++report->cpuids;
    }
    else if (next[0] == 0x01 && next[1] == 0xD0)
    {
        ++report->xgetbvs;
        if (!current.osxsave)
        {
            report->state = 4;
            _exit(0);
        }
        g[REG_RAX] = current.xcr0;
        g[REG_RDX] = 0;
        g[REG_RIP] += 2;
    }
    else
        _exit(3);
}
void onIllegal(int, siginfo_t*, void* u)
{
    report->at = fileOffset(reinterpret_cast<void const*>(static_cast<ucontext_t*>(u)->uc_mcontext.gregs[REG_RIP]));
    report->state = 3;
    _exit(0);
}
uint64_t fileOffset(void const* ip)
{
    // the mapping that contains it
    int const fd = open("/proc/self/maps", O_RDONLY);
    static char buf[1 << 16];
    size_t n = 0;
    for (ssize_t k; n < sizeof(buf) - 1 && (k = read(fd, buf + n, sizeof(buf) - 1 - n)) > 0;)
        n += static_cast<size_t>(k);
    buf[n] = 0;
    auto const at = reinterpret_cast<uintptr_t>(ip);
    for (char* p = buf; p && *p;)
    {
        char* e = nullptr;
        auto const lo = strtoul(p, &e, 16);
        auto const hi = strtoul(e + 1, &e, 16);
        if (lo <= at && at < hi)
        {
            auto const off = strtoul(e + 6, &e, 16);
            return at - lo + off;
        }
        p = strchr(p, '\n');
        if (p)
            ++p;
    }
    return ~0ull;
}
// }}}
struct Site
{
    uint64_t at;
    uint32_t needs;
    std::string mnemonic;
};
struct Build
{
    std::string name;
    std::string bytes;
    std::vector<Site> sites;
};
std::vector<Build> const& builds()
{
    static std::vector<Build> const v = [] {
        std::vector<Build> r;
        char const* list = getenv("PBT_PLUGINS");
        std::istringstream lines(list ? list : "");
        for (std::string line; std::getline(lines, line);)
        {
            auto const eq = line.find('=');
            auto const path = line.substr(eq + 1);
            Build b { line.substr(0, eq), {}, {} };
            std::ifstream f(path, std::ios::binary);
            b.bytes.assign(std::istreambuf_iterator<char>(f), {});
            std::ifstream s(path.substr(0, path.size() - 4) + ".sites");
            for (Site x; s >> x.at >> x.needs >> x.mnemonic;)
                b.sites.push_back(x);
            if (b.bytes.empty())
            {
                fprintf(stderr, "cannot read %s\n", path.c_str());
                exit(2);
            }
            r.push_back(std::move(b));
        }
        if (r.empty())
        {
            fprintf(stderr, "no builds\n");
            exit(2);
        }
        return r;
    }();
    return v;
}

Cpu cpu(Case& c)
{
    Cpu r;
    static uint32_t const known[] = {
        0,                                                                              // Penryn
        SSE42 | POPCNT,                                                                 // Nehalem
        SSE42 | POPCNT | AVX,                                                           // Sandy Bridge
        SSE42 | POPCNT | AVX | F16C,                                                    // Ivy Bridge
        SSE42 | POPCNT | LZCNT | AVX | F16C | FMA | BMI1,                               // Piledriver
        SSE42 | POPCNT | LZCNT | AVX | F16C | FMA | BMI1 | BMI2 | AVX2,                 // Haswell, Zen
        SSE42 | POPCNT | LZCNT | AVX | F16C | FMA | BMI1 | BMI2 | AVX2 | F512,          // Xeon Phi
        SSE42 | POPCNT | LZCNT | AVX | F16C | FMA | BMI1 | BMI2 | AVX2 | F512 | BW | DQ | VL, // Skylake-SP
        All                                                                             // Ice Lake, Zen 4
    };
    r.has = known[c.chance(1, 2) ? std::size(known) - 1 - c.draw(4) : c.draw(std::size(known))];
    if (c.chance(1, 3)) // a hypervisor that hides some of it
        for (auto n = 1 + c.draw(3); n--;)
            r.has &= ~(1u << c.draw(std::size(Names)));
    r.has &= realFeatures();
    // as the manuals have it, the one only with the other
    if (!(r.has & AVX))
        r.has &= ~uint32_t { AVX2 | FMA | F16C };
    if (!(r.has & AVX2) || !(r.has & POPCNT) || !(r.has & SSE42))
        r.has &= ~uint32_t { F512 };
    if (!(r.has & POPCNT) || !(r.has & SSE42))
        r.has &= ~uint32_t { AVX | AVX2 | FMA | F16C | F512 };
    if (!(r.has & F512))
        r.has &= ~uint32_t { BW | DQ | VL | OTHER512 };
    if (!(r.has & VL))
        r.has &= ~uint32_t { OTHER512 };
    static uint32_t const states[] = { 0xE7, 7, 3, 1, 0x2E7, 0x207, 0x1F };
    r.osxsave = !c.chance(1, 8);
    r.xcr0 = !r.osxsave ? 1 : states[c.chance(1, 2) ? 0 : c.draw(std::size(states))];
    if (!(r.has & AVX))
        r.xcr0 &= ~4u;
    if (!(r.xcr0 & 4) || !(r.has & F512))
        r.xcr0 &= ~0xE0u;
    static uint32_t const leaves[] = { 0x16, 0xD, 0x20, 7, 6, 5, 2, 1, 10 };
    r.maxLeaf = leaves[c.draw(c.chance(1, 4) ? std::size(leaves) : 4)];
    if (r.maxLeaf < 7)
        r.has &= ~uint32_t { AVX2 | BMI1 | BMI2 | EvexState };
    if (r.maxLeaf < 7)
        r.xcr0 &= ~0xE0u;
    r.amd = c.chance(1, 3);
    return r;
}

struct Task
{
    size_t op;
    ops::Input input;
};
void check(Case& c, Cpu const& model, Build const& b, std::vector<Task> const& tasks)
{
    auto* shared = static_cast<Report*>(mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (shared == MAP_FAILED)
    {
        perror("mmap");
        exit(2);
    }
    new (shared) Report;
    auto const offers = model.offers();
    fflush(nullptr);
    auto const parent = getpid();
    auto const pid = fork();
    if (pid < 0)
    {
        perror("fork");
        exit(2);
    }
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != parent)
            _exit(3);
        alarm(50);
        signal(SIGALRM, SIG_DFL);
        report = shared;
        current = model;
        struct sigaction s {};
        s.sa_flags = SA_SIGINFO;
        s.sa_sigaction = onTrap;
        sigaction(SIGTRAP, &s, nullptr);
        s.sa_sigaction = onIllegal;
        sigaction(SIGILL, &s, nullptr);
        for (int const sig: { SIGSEGV, SIGBUS, SIGFPE, SIGABRT })
            signal(sig, SIG_DFL);
        int const fd = memfd_create("plugin", 0);
        char path[40];
        snprintf(path, sizeof(path), "/proc/self/fd/%d", fd);
        if (fd < 0 || ftruncate(fd, static_cast<off_t>(b.bytes.size())) != 0)
            _exit(3);
        auto* m = static_cast<char*>(mmap(nullptr, b.bytes.size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        if (m == MAP_FAILED)
            _exit(3);
        memcpy(m, b.bytes.data(), b.bytes.size());
        for (auto const& x: b.sites)
            if (x.needs & ~offers)
            {
                m[x.at] = 0x0F; // ud2
                m[x.at + 1] = 0x0B;
            }
        munmap(m, b.bytes.size());
        void* h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
        auto run = h ? reinterpret_cast<Run>(dlsym(h, "pbt_plugin_run")) : nullptr;
        if (!run)
        {
            fprintf(stderr, "%s\n", dlerror());
            report->state = 5;
            _exit(3);
        }
        report->state = 1;
        for (size_t k = 0; k < tasks.size(); ++k)
        {
            auto const& i = tasks[k].input;
            PluginInput const p { i.text.data(), i.text.size(), i.utf8.data(), i.utf8.size(), i.other.data(), i.other.size(), i.otherUtf8.data(), i.otherUtf8.size(), i.number };
            report->answers[k] = run(tasks[k].op, &p);
        }
        report->state = 2;
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
        ;
    Report const r = *shared;
    munmap(shared, sizeof(Report));
    if (r.state == 5 || (WIFEXITED(status) && WEXITSTATUS(status) == 3))
    {
        fprintf(stderr, "the build %s cannot be run\n", b.name.c_str());
        exit(2);
    }
    if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGKILL || WTERMSIG(status) == SIGALRM))
    {
        c.label("given.up");
        return;
    }
    if (r.cpuids)
        c.label("dispatched");
    if (r.state == 3)
    {
        std::string what = "an undefined instruction";
        for (auto const& x: b.sites)
            if (x.at == r.at)
                what = x.mnemonic + ", which needs " + names(x.needs);
        c.fail("the build " + b.name + " executes " + what + ", where there is " + names(offers));
    }
    if (r.state == 4)
        c.fail("the build " + b.name + " executes xgetbv where the operating system has not enabled it");
    if (r.state != 2)
        c.fail("the build " + b.name + " ends with " + (WIFSIGNALED(status) ? strsignal(WTERMSIG(status)) : "exit status " + std::to_string(WEXITSTATUS(status))));
    for (size_t k = 0; k < tasks.size(); ++k)
    {
        c.evals(1);
        if (r.answers[k] != ops::run(tasks[k].op, tasks[k].input))
            c.fail(std::string("'") + ops::all()[tasks[k].op].name + "' answers differently in the build " + b.name + " on that CPU");
    }
}

// Bytes that reach the vector loops: stretches of US-ASCII of the lengths of vectors among other text.
std::string vectors(Case& c)
{
    std::string s;
    for (auto n = 1 + c.draw(4); n--;)
    {
        static size_t const lengths[] = { 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 200 };
        auto const k = c.chance(1, 2) ? lengths[c.draw(std::size(lengths))] : c.draw(100);
        auto const a = static_cast<char>('a' + c.draw(26));
        for (size_t i = 0; i < k; ++i)
            s += static_cast<char>(a + i % 3);
        if (c.chance(2, 3))
            ref::encodeUtf8(anyScalar(c), s);
        else if (c.chance(1, 3))
            illFormed(c, s);
    }
    return s;
}
void run(Case& c, bool simd)
{
    auto const model = cpu(c);
    auto const& b = builds()[c.draw(builds().size())];
    static std::vector<size_t> const vectorOps = [] {
        std::vector<size_t> r;
        for (size_t i = 0; i < ops::all().size(); ++i)
            for (auto const* n: { "convert", "convert-utf8", "scan", "scan-plain", "scan-chunks" })
                if (std::string_view(ops::all()[i].name) == n)
                    r.push_back(i);
        return r;
    }();
    std::vector<Task> tasks;
    std::string shown;
    for (auto n = 1 + c.draw(3); n--;)
    {
        Task t;
        if (simd)
        {
            t.op = vectorOps[c.draw(vectorOps.size())];
            t.input.utf8 = vectors(c);
            t.input.number = static_cast<unsigned>(c.draw(400));
            t.input.text = U32(t.input.utf8.begin(), t.input.utf8.end());
        }
        else
        {
            t.op = c.draw(ops::all().size());
            t.input = opinput::input(c);
        }
        shown += std::string(" '") + ops::all()[t.op].name + "' on " + (simd ? hexStr(U32(t.input.utf8.begin(), t.input.utf8.end())) : hexStr(t.input.text) + " / " + hexStr(t.input.other)) + " number " + std::to_string(t.input.number);
        c.label(std::string("op.") + ops::all()[t.op].name);
        tasks.push_back(std::move(t));
    }
    auto const offers = model.offers();
    c.label(offers & EvexState ? (offers & BW ? "cpu.AVX512BW" : "cpu.AVX512F") : offers & AVX2 ? "cpu.AVX2" : offers & AVX ? "cpu.AVX" : "cpu.SSE");
    c.show("build " + b.name + ", CPU: " + model.show() + ":" + shown);
    if (offers != (All & realFeatures()))
        c.nontrivial((((uint64_t { model.has } * 1024 + model.xcr0) * 64 + model.maxLeaf) * 4 + model.amd * 2 + model.osxsave) * 16 + static_cast<uint64_t>(&b - builds().data()));
    check(c, model, b, tasks);
}
} // namespace

PROPERTY({ "P43",
           "a case is non-trivial if its CPU offers less than this machine; distinct by CPU and build",
           {
               { "vectors", 9000, 400000, [](Case& c) { run(c, true); } },
               { "operations", 5000, 200000, [](Case& c) { run(c, false); } },
           },
           {},
           {},
           { "x86-64 with at least SSE4.1, which convert.cpp is compiled for unconditionally; a generated CPU announces no more than this machine has, and extensions only with those they build on", "which extension an instruction needs is decided from its disassembly (tools/cpusites.py)" } });

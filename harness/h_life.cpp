// P40 the same answers at every point of a process's life and in any surroundings.
//
// A case runs this program again as a child which performs a list of operations at many points of its life and
// writes down every answer; the parent compares them with its own, given in the middle of an ordinary run.
#include "opinput.h"

#include <clocale>
#include <csignal>
#include <fcntl.h>
#include <linux/seccomp.h>
#include <locale>
#include <malloc.h>
#include <new>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>

using namespace pbt;
using namespace gen;
using opinput::input;

#if defined(__has_feature)
    #if __has_feature(address_sanitizer)
        #define PBT_SANITIZED
    #endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(PBT_SANITIZED)
static constexpr bool sanitized = true;
#else
static constexpr bool sanitized = false;
#endif

// Whether an operation allocates decides whether a signal handler may use it.
static volatile uint64_t allocations = 0;
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_SANITIZED)
void* operator new(size_t n)
{
    allocations = allocations + 1;
    if (void* p = std::malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
#endif

namespace
{
// {{{ a list of operations as bytes
struct Job
{
    uint64_t op = 0;
    ops::Input in;
};
enum Point : uint32_t
{
    BeforeStatics,
    Main,
    OtherThread,
    ThreadLocalGone,
    MainThreadLocalGone,
    AtExit,
    AfterStatics,
    Forked,
    ForkedBusy,
    StrangeLocale,
    Bare,
    Sealed,
    Interrupted,
    AnotherFenv,
    Points
};
char const* pointName(uint32_t p)
{
    static char const* const names[] = { "before the static objects of the program exist",
                                         "in main",
                                         "in another thread",
                                         "in the destructor of a thread_local object of a thread",
                                         "in the destructor of a thread_local object of the main thread",
                                         "in an atexit handler",
                                         "after the static objects of the program are gone",
                                         "in a forked child",
                                         "in a child forked while another thread uses the library",
                                         "in a custom global locale",
                                         "without open files, environment or working directory",
                                         "with every system call forbidden",
                                         "while interrupted by a signal handler that uses the library",
                                         "with other floating-point rounding and errno set" };
    return p < Points ? names[p] : "?";
}
struct Record
{
    uint32_t point = 0;
    uint32_t job = 0;
    uint64_t answer = 0;
};
struct Plan
{
    uint32_t points = 0; // bit set
    std::vector<Job> jobs;
};
void put(std::string& s, void const* p, size_t n)
{
    uint64_t const size = n;
    s.append(reinterpret_cast<char const*>(&size), sizeof size);
    s.append(static_cast<char const*>(p), n);
}
std::string encode(Plan const& plan)
{
    std::string s;
    put(s, &plan.points, sizeof plan.points);
    for (auto const& j: plan.jobs)
    {
        put(s, &j.op, sizeof j.op);
        put(s, j.in.text.data(), j.in.text.size() * 4);
        put(s, j.in.utf8.data(), j.in.utf8.size());
        put(s, j.in.other.data(), j.in.other.size() * 4);
        put(s, j.in.otherUtf8.data(), j.in.otherUtf8.size());
        put(s, &j.in.number, sizeof j.in.number);
    }
    return s;
}
Plan decode(std::string const& s)
{
    size_t at = 0;
    auto const field = [&] {
        uint64_t n = 0;
        std::memcpy(&n, s.data() + at, sizeof n);
        at += sizeof n;
        auto r = s.substr(at, n);
        at += n;
        return r;
    };
    auto const u32 = [&] {
        auto const b = field();
        U32 t(b.size() / 4, 0);
        std::memcpy(t.data(), b.data(), t.size() * 4);
        return t;
    };
    auto const value = [&](auto& v) { std::memcpy(&v, field().data(), sizeof v); };
    Plan plan;
    value(plan.points);
    while (at < s.size())
    {
        Job j;
        value(j.op);
        j.in.text = u32();
        j.in.utf8 = field();
        j.in.other = u32();
        j.in.otherUtf8 = field();
        value(j.in.number);
        plan.jobs.push_back(std::move(j));
    }
    return plan;
}
// }}}

// {{{ the child
Plan* plan = nullptr; // lives from before the first to after the last static object; never deleted
constexpr int planFd = 200, answersFd = 201;

void write(Record const& r)
{
    if (::write(answersFd, &r, sizeof r) != static_cast<ssize_t>(sizeof r))
        _exit(97);
}
void perform(Point point)
{
    if (!plan || !(plan->points >> point & 1))
        return;
    for (uint32_t k = 0; k < plan->jobs.size(); ++k)
        write({ point, k, ops::run(plan->jobs[k].op, plan->jobs[k].in) });
}
// The first object of the program to be constructed, the last to be destroyed.
struct Frame
{
    Frame()
    {
        if (!getenv("PBT_CHILD"))
            return;
        alarm(300); // a deadlock ends the child
        (void) ops::all(); // ours, not the library's: has to outlive what follows
        std::string s;
        char buf[4096];
        ssize_t n;
        while ((n = ::read(planFd, buf, sizeof buf)) > 0)
            s.append(buf, static_cast<size_t>(n));
        plan = new Plan(decode(s));
        perform(BeforeStatics);
    }
    ~Frame()
    {
        perform(AfterStatics);
    }
};
__attribute__((init_priority(101))) Frame frame;

struct ThreadGuard
{
    Point point;
    bool armed = false;
    ~ThreadGuard()
    {
        if (armed)
            perform(point);
    }
};
thread_local ThreadGuard threadGuard { ThreadLocalGone };

struct OddPunct: std::numpunct<char>
{
    char do_decimal_point() const override { return ';'; }
    char do_thousands_sep() const override { return '_'; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "yes"; }
    std::string do_falsename() const override { return "no"; }
};
struct OddCtype: std::ctype<char>
{
    static mask const* oddTable()
    {
        static mask t[table_size];
        for (size_t i = 0; i < table_size; ++i)
            t[i] = i % 2 ? (upper | alpha | print) : (digit | space | print);
        return t;
    }
    OddCtype(): std::ctype<char>(oddTable()) {}
    char do_toupper(char c) const override { return static_cast<char>(c + 1); }
    char do_tolower(char c) const override { return static_cast<char>(c - 1); }
};
struct OddCodecvt: std::codecvt<wchar_t, char, std::mbstate_t>
{
    result do_out(std::mbstate_t&, wchar_t const*, wchar_t const*, wchar_t const*&, char*, char*, char*&) const override { return error; }
    result do_in(std::mbstate_t&, char const*, char const*, char const*&, wchar_t*, wchar_t*, wchar_t*&) const override { return error; }
};

void inForkedChild(Point point)
{
    auto const pid = fork();
    if (pid < 0)
        _exit(96);
    if (pid == 0)
    {
        alarm(100);
        perform(point);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
    {
        dprintf(2, "the forked child ended with status %d\n", st);
        _exit(95);
    }
}
// Operations that allocate nothing, so that a signal handler may use them.
bool signalSafe(uint64_t op)
{
    std::string_view const name = ops::all()[op].name;
    return name == "queries" || name == "name" || name == "decode" || name == "grapheme-steps" || name == "width" || name == "scan" || name == "scan-plain" || name == "graphemes"
           || name == "words" || name == "scripts" || name == "emoji" || name == "runs";
}
volatile uint32_t handlerJob = 0;
volatile uint64_t handlerWrong = 0, handlerRuns = 0, handlerWant = 0;
void handler(int)
{
    auto const& j = plan->jobs[handlerJob];
    if (ops::run(j.op, j.in) != handlerWant)
        handlerWrong = handlerWrong + 1;
    handlerRuns = handlerRuns + 1;
}
void interrupted()
{
    for (uint32_t h = 0; h < plan->jobs.size(); ++h)
    {
        if (!signalSafe(plan->jobs[h].op))
            continue;
        handlerJob = h;
        auto const before = allocations;
        handlerWant = ops::run(plan->jobs[h].op, plan->jobs[h].in);
        if (allocations != before)
        {
            write({ Interrupted, h, handlerWant });
            continue;
        }
        struct sigaction sa {};
        sa.sa_handler = handler;
        sa.sa_flags = SA_RESTART;
        sigaction(SIGUSR1, &sa, nullptr);
        sigevent ev {};
        ev.sigev_notify = SIGEV_SIGNAL;
        ev.sigev_signo = SIGUSR1;
        timer_t timer {};
        if (timer_create(CLOCK_MONOTONIC, &ev, &timer) != 0)
            _exit(93);
        itimerspec const off {};
        uint64_t dice = plan->jobs.size() * 77 + h;
        for (uint32_t k = 0; k < plan->jobs.size(); ++k)
        {
            auto const& j = plan->jobs[k];
            auto const want = ops::run(j.op, j.in);
            uint64_t got = want;
            for (int n = 0; n < 200 && got == want; ++n)
            {
                // one signal per call, at most: the handler may take longer than the interrupted operation
                dice = dice * 6364136223846793005ull + 1442695040888963407ull;
                itimerspec const once { {}, { 0, static_cast<long>(500 + (dice >> 33) % (n % 4 == 0 ? 100000 : 12000)) } };
                timer_settime(timer, 0, &once, nullptr);
                got = ops::run(j.op, j.in);
            }
            timer_settime(timer, 0, &off, nullptr);
            write({ Interrupted, k, got });
        }
        if (handlerRuns)
            write({ Interrupted, h, handlerWrong ? ~handlerWant : handlerWant });
        signal(SIGUSR1, SIG_IGN);
        timer_delete(timer);
    }
}

int child()
{
    std::atexit([] { perform(AtExit); });
    threadGuard.point = MainThreadLocalGone;
    threadGuard.armed = true;
    perform(Main);
    auto const has = [](Point p) { return (plan->points >> p & 1) != 0; };
    if (has(OtherThread) || has(ThreadLocalGone))
        std::thread([] {
            threadGuard.armed = true;
            perform(OtherThread);
            if (!(plan->points >> OtherThread & 1))
                for (auto const& j: plan->jobs)
                    (void) ops::run(j.op, j.in);
        }).join();
    if (has(Forked))
        inForkedChild(Forked);
    if (has(ForkedBusy))
    {
        std::atomic<bool> stop = false;
        std::thread busy([&] {
            for (size_t k = 0; !stop; ++k)
                (void) ops::run(plan->jobs[k % plan->jobs.size()].op, plan->jobs[k % plan->jobs.size()].in);
        });
        for (int n = 0; n < 6; ++n)
            inForkedChild(ForkedBusy);
        stop = true;
        busy.join();
    }
    if (has(AnotherFenv))
    {
        unsigned mxcsr = 0x1F80 | 0x6000 | 0x8040; // towards zero, flush to zero, denormals are zero
        unsigned old = 0;
        asm volatile("stmxcsr %0\n ldmxcsr %1" : "=m"(old) : "m"(mxcsr));
        errno = ERANGE;
        perform(AnotherFenv);
        asm volatile("ldmxcsr %0" : : "m"(old));
        errno = 0;
    }
    if (has(Interrupted) && !sanitized)
        interrupted();
    if (has(StrangeLocale))
    {
        auto const before = std::locale::global(
            std::locale(std::locale(std::locale(std::locale::classic(), new OddPunct), new OddCtype), new OddCodecvt));
        std::setlocale(LC_ALL, "C.UTF-8");
        perform(StrangeLocale);
        std::setlocale(LC_ALL, "C");
        std::locale::global(before);
    }
    if (has(Bare))
    {
        clearenv();
        char dir[] = "/tmp/pbt-life-XXXXXX";
        if (mkdtemp(dir) && chdir(dir) == 0)
            (void) rmdir(dir);
        close_range(0, 1, 0);
        close_range(3, planFd, 0);
        rlimit const none { 0, 0 };
        if (!sanitized) // the sanitizer itself opens pipes
            setrlimit(RLIMIT_NOFILE, &none);
        std::vector<Record> out;
        for (uint32_t k = 0; k < plan->jobs.size(); ++k)
            out.push_back({ Bare, k, ops::run(plan->jobs[k].op, plan->jobs[k].in) });
        for (auto const& r: out)
            write(r);
    }
    if (has(Sealed) && !sanitized)
    {
        auto const pid = fork();
        if (pid == 0)
        {
            // memory enough, so that the allocator asks the kernel for none
            mallopt(M_MMAP_THRESHOLD, 1 << 30);
            mallopt(M_TRIM_THRESHOLD, 1 << 30);
            mallopt(M_TOP_PAD, 64 << 20);
            std::free(std::malloc(1 << 20));
            if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_STRICT) != 0)
                _exit(0);
            perform(Sealed);
            syscall(60 /* exit */, 0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
            ;
        if (!WIFEXITED(st))
        {
            dprintf(2, "with system calls forbidden the process ended with signal %d\n", WTERMSIG(st));
            _exit(94);
        }
    }
    exit(0);
}
// }}}
struct SetChild
{
    SetChild() { childMain = child; }
} setChild;

// {{{ the parent
std::string contents(int fd)
{
    std::string s;
    lseek(fd, 0, SEEK_SET);
    char buf[65536];
    ssize_t n;
    while ((n = ::read(fd, buf, sizeof buf)) > 0)
        s.append(buf, static_cast<size_t>(n));
    return s;
}
void life(Case& c, std::vector<uint32_t> const& points, bool atLeastOneSafe)
{
    Plan p;
    for (auto const x: points)
        p.points |= 1u << x;
    auto const n = 1 + c.draw(c.size(10));
    for (size_t k = 0; k < n; ++k)
    {
        Job j;
        j.op = c.draw(ops::all().size());
        if (atLeastOneSafe && k == 0)
            while (!signalSafe(j.op))
                j.op = (j.op + 1) % ops::all().size();
        j.in = input(c);
        p.jobs.push_back(std::move(j));
    }
    std::string what = "operations";
    for (auto const& j: p.jobs)
    {
        what += std::string(" '") + ops::all()[j.op].name + "' on " + hexStr(j.in.text) + " / " + hexStr(j.in.other) + " number " + std::to_string(j.in.number) + ";";
        c.label(std::string("op.") + ops::all()[j.op].name);
        if (j.in.text.size() >= 2)
            c.nontrivial(hashOf(j.in.text) * 64 + j.op + (uint64_t(p.points) << 32));
    }
    c.show(what);
    std::vector<uint64_t> want;
    for (auto const& j: p.jobs)
        want.push_back(ops::run(j.op, j.in));

    int const in = memfd_create("plan", 0), out = memfd_create("answers", 0), err = memfd_create("stderr", 0);
    auto const bytes = encode(p);
    if (in < 0 || out < 0 || err < 0 || ::write(in, bytes.data(), bytes.size()) != static_cast<ssize_t>(bytes.size()))
        throw std::runtime_error("memfd");
    lseek(in, 0, SEEK_SET);
    posix_spawn_file_actions_t actions;
    posix_spawn_file_actions_init(&actions);
    posix_spawn_file_actions_adddup2(&actions, in, planFd);
    posix_spawn_file_actions_adddup2(&actions, out, answersFd);
    posix_spawn_file_actions_adddup2(&actions, err, 2);
    setenv("PBT_CHILD", "1", 1);
    char self[] = "/proc/self/exe";
    char* argv[] = { self, nullptr };
    pid_t pid = -1;
    auto const spawned = posix_spawn(&pid, self, &actions, nullptr, argv, environ);
    unsetenv("PBT_CHILD");
    posix_spawn_file_actions_destroy(&actions);
    if (spawned != 0)
        throw std::runtime_error("posix_spawn");
    int st = 0;
    rusage ru {};
    while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR)
        ;
    auto const answers = contents(out);
    auto const said = contents(err);
    close(in);
    close(out);
    close(err);
    std::vector<Record> records(answers.size() / sizeof(Record));
    if (!records.empty())
        std::memcpy(records.data(), answers.data(), records.size() * sizeof(Record));
    std::vector<uint64_t> seen(Points);
    for (auto const& r: records)
    {
        if (r.point >= Points || r.job >= want.size())
            throw std::runtime_error("garbled answers");
        ++seen[r.point];
        c.evals(1);
        if (r.answer != want[r.job])
            c.fail(std::string("'") + ops::all()[p.jobs[r.job].op].name + "' (job " + std::to_string(r.job) + ") answers differently " + pointName(r.point));
    }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
    {
        std::string where = "nothing";
        if (!records.empty())
            where = std::string(pointName(records.back().point));
        c.fail("the process ended with status " + std::to_string(st) + ", the last answer was given: " + where + "\n" + said.substr(0, 3000));
    }
    for (auto const x: points)
    {
        if (seen[x])
            c.label(std::string("point.") + pointName(x));
        else if (!(sanitized && (x == Sealed || x == Interrupted)) && x != Sealed)
            c.fail(std::string("no answers ") + pointName(x));
    }
}
// Which points the library was used at before matters for what is constructed and destroyed when, so they are drawn.
void anyPoints(Case& c)
{
    static std::vector<uint32_t> const choice { BeforeStatics, Main, OtherThread, ThreadLocalGone, MainThreadLocalGone, AtExit, AfterStatics, Forked, StrangeLocale, AnotherFenv };
    std::vector<uint32_t> points;
    for (auto const x: choice)
        if (c.chance(1, 2))
            points.push_back(x);
    if (points.empty())
        points.push_back(AfterStatics);
    life(c, points, false);
}
void single(Case& c)
{
    static std::vector<uint32_t> const choice { BeforeStatics, ThreadLocalGone, MainThreadLocalGone, AtExit, AfterStatics, StrangeLocale };
    life(c, { choice[c.draw(choice.size())] }, false);
}
void confined(Case& c)
{
    life(c, { c.chance(1, 2) ? uint32_t(Bare) : uint32_t(Sealed) }, false);
}
void forks(Case& c)
{
    if (sanitized) // the sanitizer's allocator does not survive a fork of a busy process
        return life(c, { Forked }, false);
    life(c, { ForkedBusy }, false);
}
void signals(Case& c)
{
    life(c, { Interrupted }, true);
}
// }}}
} // namespace

PROPERTY({ "P40",
           "a case is non-trivial if at least one of its operations works on a text of two or more characters",
           {
               { "lives", 900, 40000, anyPoints },
               { "single", 1200, 40000, single },
               { "confined", 400, 20000, confined },
               { "forks", 200, 8000, forks },
               { "signals", 120, 6000, signals },
           },
           {},
           {},
           { "only functions that allocate nothing are used in signal handlers",
             "no locale other than C, C.UTF-8 and a C++ locale of our own making is installed here" } });

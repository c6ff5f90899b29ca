// A small property-based testing engine: choice sequences, forked workers, crash/hang detection,
// shrinking by re-execution in child processes, replay files and evidence counters.
//
// A property is a list of arms. An arm is a function over a Case; every random decision goes
// through Case::draw(), so a case is fully described by its choice sequence (this is what shrinks
// and what the replay file stores). Random arms derive the choices of case i from
// hash(seed, property, arm, i); exhaustive arms receive i itself through Case::index().
#pragma once

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(PBT_COV)
extern "C" int __llvm_profile_write_file(void);
#endif
namespace pbt
{
[[noreturn]] inline void quit(int code)
{
#if defined(PBT_COV)
    __llvm_profile_write_file();
#endif
    _exit(code);
}


inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

inline uint64_t hashBytes(void const* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
    auto const* b = static_cast<unsigned char const*>(p);
    for (size_t i = 0; i < n; ++i)
        h = (h ^ b[i]) * 0x100000001b3ull;
    return mix(h);
}
inline uint64_t hashStr(std::string_view s, uint64_t h = 0xcbf29ce484222325ull) { return hashBytes(s.data(), s.size(), h); }
template <typename C>
inline uint64_t hashOf(std::basic_string_view<C> s, uint64_t h = 0xcbf29ce484222325ull)
{
    return hashBytes(s.data(), s.size() * sizeof(C), h);
}
template <typename C>
inline uint64_t hashOf(std::basic_string<C> const& s, uint64_t h = 0xcbf29ce484222325ull)
{
    return hashBytes(s.data(), s.size() * sizeof(C), h);
}

struct Failure: std::runtime_error
{
    using std::runtime_error::runtime_error;
};

struct Stats
{
    uint64_t evaluations = 0;
    std::unordered_set<uint64_t> fps;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};

// Shared memory for crash reproduction: choices of the case being run.
struct ChoiceLog
{
    std::atomic<uint64_t> n;
    uint64_t v[1 << 20];
};

class Case
{
  public:
    enum class Mode
    {
        Random,
        Replay,
        Bytes
    };
    Case(uint64_t seed, uint64_t idx): mode_(Mode::Random), state_(seed), idx_(idx) {}
    explicit Case(std::vector<uint64_t> const* replay): mode_(Mode::Replay), replay_(replay) {}
    Case(uint8_t const* d, size_t n): mode_(Mode::Bytes), bytes_(d), nbytes_(n) {}

    uint64_t draw(uint64_t n) // uniform in [0, n)
    {
        if (n <= 1)
        {
            return 0;
        }
        uint64_t v = 0;
        switch (mode_)
        {
            case Mode::Random:
                state_ += 0x9E3779B97F4A7C15ull;
                v = mix(state_) % n;
                break;
            case Mode::Replay:
                v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
                ++pos_;
                if (v >= n)
                    v %= n;
                break;
            case Mode::Bytes: {
                uint64_t m = n - 1;
                do
                {
                    v = (v << 8) | (bpos_ < nbytes_ ? bytes_[bpos_++] : 0);
                    m >>= 8;
                } while (m);
                v %= n;
                break;
            }
        }
        record(v);
        return v;
    }
    // Case number of an exhaustive arm.
    uint64_t index(uint64_t n)
    {
        if (mode_ == Mode::Random)
        {
            record(idx_);
            return idx_;
        }
        return draw(n);
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); } // inclusive
    bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }  // 0 -> false
    template <typename V>
    auto const& pick(V const& v)
    {
        return v[draw(v.size())];
    }
    // Mostly small sizes, sometimes up to max.
    size_t size(size_t max)
    {
        auto const kind = draw(8);
        size_t m = max;
        if (kind < 4)
            m = max < 8 ? max : 8;
        else if (kind < 6)
            m = max < 24 ? max : 24;
        return static_cast<size_t>(draw(m + 1));
    }

    void evals(uint64_t n) { evals_ += n; } // extra evaluations beyond the one per case
    void nontrivial(uint64_t fp)
    {
        if (stats && stats->fps.size() < 400000)
            stats->fps.insert(fp);
        nontrivial_ = true;
    }
    void label(std::string const& l, uint64_t n = 1)
    {
        if (stats)
            stats->labels[l] += n;
    }
    // Human-readable form of the generated case (kept for samples and failure reports).
    void show(std::string s) { shown_ = std::move(s); }
    [[noreturn]] void fail(std::string msg) { throw Failure(std::move(msg)); }

    bool wasNontrivial() const { return nontrivial_; }
    uint64_t extraEvals() const { return evals_; }
    std::string const& shown() const { return shown_; }
    std::vector<uint64_t> const& choices() const { return rec_; }
    bool verbose = false; // replaying: harnesses may print more
    Stats* stats = nullptr;
    ChoiceLog* log = nullptr;

  private:
    void record(uint64_t v)
    {
        rec_.push_back(v);
        if (log)
        {
            auto const i = log->n.load(std::memory_order_relaxed);
            if (i < (1 << 20))
            {
                log->v[i] = v;
                log->n.store(i + 1, std::memory_order_relaxed);
            }
        }
    }
    Mode mode_;
    uint64_t state_ = 0;
    uint64_t idx_ = 0;
    std::vector<uint64_t> const* replay_ = nullptr;
    size_t pos_ = 0;
    uint8_t const* bytes_ = nullptr;
    size_t nbytes_ = 0;
    size_t bpos_ = 0;
    std::vector<uint64_t> rec_;
    uint64_t evals_ = 0;
    bool nontrivial_ = false;
    std::string shown_;
};

struct Arm
{
    std::string name;
    uint64_t quick;    // cases (for exhaustive arms: size of the space)
    uint64_t thorough; // cases in the thorough tier
    std::function<void(Case&)> fn;
    bool exhaustive = false;
    int group = 0; // process group: workers are forked per group (see Property::groupSetup)
    unsigned cpuLimit = 60; // seconds of CPU time for one case before it counts as a hang
};

struct Property
{
    std::string id;
    std::string rule;
    std::vector<Arm> arms;
    std::function<void(int group)> groupSetup; // run in each worker before its first case
    std::function<bool(int group)> groupEnabled;
    std::vector<std::string> assumptions;
};

inline std::vector<Property>& registry()
{
    static std::vector<Property> r;
    return r;
}

struct Register
{
    explicit Register(Property p) { registry().push_back(std::move(p)); }
};

// {{{ JSON output helpers
inline std::string jsonStr(std::string_view s)
{
    std::string o = "\"";
    char buf[8];
    for (unsigned char c: s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += static_cast<char>(c);
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            snprintf(buf, sizeof buf, "\\u%04x", c);
            o += buf;
        }
        else
            o += static_cast<char>(c);
    }
    return o + "\"";
}
// }}}

inline double now()
{
    timespec t {};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

struct WorkerSlot
{
    std::atomic<int64_t> arm;
    std::atomic<uint64_t> idx;
    std::atomic<uint64_t> tick;
    std::atomic<int> failed; // 1: oracle failure, message below
    char msg[8192];
};
struct Shared
{
    std::atomic<int> stop;
    WorkerSlot slots[64];
    ChoiceLog log;
    std::atomic<int> childResult; // 0 none, 1 ok, 2 failure
    char childMsg[8192];
    char childShown[16384];
};

enum class Outcome
{
    Ok,
    Fail,
    Crash,
    Hang
};
struct RunResult
{
    Outcome outcome = Outcome::Ok;
    std::string message;
    std::string shown;
    std::vector<uint64_t> choices;
};

class Runner
{
  public:
    Property& prop;
    std::string tier = "quick";
    uint64_t seed = 1;
    std::string outDir = ".";
    int workers = 8;
    double scale = 1.0;
    double maxSeconds = 300;
    uint64_t rssLimitMb = 3000;
    std::string onlyArm;
    Shared* sh = nullptr;

    explicit Runner(Property& p): prop(p)
    {
        sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (sh == MAP_FAILED)
        {
            perror("mmap");
            exit(2);
        }
    }

    uint64_t caseSeed(size_t arm, uint64_t idx) const
    {
        return mix(seed * 0x100000001b3ull ^ hashStr(prop.id) ^ mix(hashStr(prop.arms[arm].name)) ^ mix(idx + 0x51ed27));
    }
    uint64_t casesFor(Arm const& a) const
    {
        auto n = tier == "thorough" ? a.thorough : a.quick;
        if (a.exhaustive)
            return n;
        n = static_cast<uint64_t>(static_cast<double>(n) * scale);
        return n ? n : 1;
    }
    bool armWanted(Arm const& a) const { return onlyArm.empty() || a.name == onlyArm; }

    // Runs one case in this process; throws Failure.
    void runCase(size_t arm, Case& c) const { prop.arms[arm].fn(c); }

    static std::string tailOf(std::string const& path, size_t max = 3000)
    {
        std::string s;
        if (FILE* f = fopen(path.c_str(), "r"))
        {
            char buf[4096];
            size_t n;
            while ((n = fread(buf, 1, sizeof buf, f)) > 0 && s.size() < max)
                s.append(buf, n);
            fclose(f);
        }
        return s.substr(0, max);
    }

    // Executes `body` in a child process with limits; classifies the result.
    RunResult inChild(int group, std::function<void(Case*&)> const& body, unsigned cpuLimit)
    {
        sh->childResult = 0;
        sh->childMsg[0] = 0;
        sh->childShown[0] = 0;
        sh->log.n = 0;
        auto const errPath = outDir + "/child.err";
        fflush(nullptr);
        pid_t const pid = fork();
        if (pid == 0)
        {
            int const fd = open(errPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0)
            {
                dup2(fd, 2);
                close(fd);
            }
            rlimit rl { cpuLimit, cpuLimit + 5 };
            setrlimit(RLIMIT_CPU, &rl);
            rlimit core { 0, 0 };
            setrlimit(RLIMIT_CORE, &core);
            if (prop.groupSetup)
                prop.groupSetup(group);
            Case* c = nullptr;
            try
            {
                body(c);
                if (c)
                    snprintf(sh->childShown, sizeof sh->childShown, "%s", c->shown().c_str());
                sh->childResult = 1;
            }
            catch (Failure const& f)
            {
                if (c)
                    snprintf(sh->childShown, sizeof sh->childShown, "%s", c->shown().c_str());
                snprintf(sh->childMsg, sizeof sh->childMsg, "%s", f.what());
                sh->childResult = 2;
            }
            catch (std::exception const& f)
            {
                if (c)
                    snprintf(sh->childShown, sizeof sh->childShown, "%s", c->shown().c_str());
                snprintf(sh->childMsg, sizeof sh->childMsg, "unexpected exception: %s", f.what());
                sh->childResult = 2;
            }
            quit(0);
        }
        int status = 0;
        bool oom = false;
        for (;;)
        {
            pid_t const r = waitpid(pid, &status, WNOHANG);
            if (r == pid)
                break;
            if (rssMb(pid) > rssLimitMb)
            {
                oom = true;
                kill(pid, SIGKILL);
            }
            usleep(500);
        }
        RunResult res;
        res.shown = sh->childShown;
        auto const n = std::min<uint64_t>(sh->log.n.load(), 1 << 20);
        res.choices.assign(sh->log.v, sh->log.v + n);
        if (oom)
        {
            res.outcome = Outcome::Hang;
            res.message = "memory use grew beyond " + std::to_string(rssLimitMb) + " MB in a single case";
        }
        else if (sh->childResult == 1 && WIFEXITED(status) && WEXITSTATUS(status) == 0)
            res.outcome = Outcome::Ok;
        else if (sh->childResult == 2)
        {
            res.outcome = Outcome::Fail;
            res.message = sh->childMsg;
        }
        else if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL))
        {
            res.outcome = Outcome::Hang;
            res.message = "did not terminate within " + std::to_string(cpuLimit) + " s of CPU time";
        }
        else
        {
            res.outcome = Outcome::Crash;
            res.message = WIFSIGNALED(status) ? "crashed with signal " + std::to_string(WTERMSIG(status))
                                              : "aborted with exit status " + std::to_string(WEXITSTATUS(status));
            res.message += "\n" + tailOf(errPath);
        }
        return res;
    }

    RunResult runChoices(size_t arm, std::vector<uint64_t> const& ch, unsigned cpu)
    {
        return inChild(
            prop.arms[arm].group,
            [&](Case*& out) {
                auto* c = new Case(&ch);
                out = c;
                c->log = &sh->log;
                c->verbose = true;
                runCase(arm, *c);
            },
            cpu);
    }
    RunResult runIndex(size_t arm, uint64_t idx, unsigned cpu)
    {
        return inChild(
            prop.arms[arm].group,
            [&](Case*& out) {
                auto* c = new Case(caseSeed(arm, idx), idx);
                out = c;
                c->log = &sh->log;
                c->verbose = true;
                runCase(arm, *c);
            },
            cpu);
    }
    // Re-runs the cases worker `w` ran, from case number `from` of arm `arm0`, up to the failing one.
    RunResult runHistory(int w, size_t arm0, uint64_t from, size_t arm, uint64_t idx, unsigned cpu)
    {
        return inChild(
            prop.arms[arm].group,
            [&](Case*& out) {
                for (size_t a = arm0; a <= arm; ++a)
                {
                    if (prop.arms[a].group != prop.arms[arm].group || !armWanted(prop.arms[a]))
                        continue;
                    auto const n = a == arm ? idx + 1 : casesFor(prop.arms[a]);
                    for (uint64_t i = static_cast<uint64_t>(w); i < n; i += static_cast<uint64_t>(workers))
                    {
                        if (a == arm0 && i < from)
                            continue;
                        auto* c = new Case(caseSeed(a, i), i);
                        out = c;
                        runCase(a, *c);
                    }
                }
            },
            cpu);
    }

    static uint64_t rssMb(pid_t pid)
    {
        char path[64];
        snprintf(path, sizeof path, "/proc/%d/statm", static_cast<int>(pid));
        unsigned long a = 0, b = 0, shared = 0;
        if (FILE* f = fopen(path, "r"))
        {
            if (fscanf(f, "%lu %lu %lu", &a, &b, &shared) != 3)
                b = shared = 0;
            fclose(f);
        }
        return (b - std::min(b, shared)) * 4096 / (1024 * 1024); // h_huge maps one file many times
    }

    static double cpuSeconds(pid_t pid)
    {
        char path[64];
        snprintf(path, sizeof path, "/proc/%d/stat", static_cast<int>(pid));
        double r = 0;
        if (FILE* f = fopen(path, "r"))
        {
            char buf[1024];
            size_t const n = fread(buf, 1, sizeof buf - 1, f);
            buf[n] = 0;
            fclose(f);
            char const* p = strrchr(buf, ')');
            if (p)
            {
                unsigned long ut = 0, st = 0;
                if (sscanf(p + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st) == 2)
                    r = static_cast<double>(ut + st) / static_cast<double>(sysconf(_SC_CLK_TCK));
            }
        }
        return r;
    }

    [[noreturn]] void workerMain(int w, int group)
    {
        auto& slot = sh->slots[w];
        auto const errPath = outDir + "/worker" + std::to_string(w) + ".err";
        int const fd = open(errPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0)
        {
            dup2(fd, 2);
            close(fd);
        }
        rlimit core { 0, 0 };
        setrlimit(RLIMIT_CORE, &core);
        Stats stats;
        if (prop.groupSetup)
            prop.groupSetup(group);
        double const deadline = now() + maxSeconds;
        bool truncated = false;
        for (size_t a = 0; a < prop.arms.size() && !sh->stop; ++a)
        {
            auto const& arm = prop.arms[a];
            if (arm.group != group || !armWanted(arm))
                continue;
            auto const n = casesFor(arm);
            size_t samplesHere = 0;
            uint64_t nontrivialHere = 0, casesHere = 0;
            for (uint64_t i = static_cast<uint64_t>(w); i < n && !sh->stop; i += static_cast<uint64_t>(workers))
            {
                if (!arm.exhaustive && (i & 63) < static_cast<uint64_t>(workers) && now() > deadline)
                {
                    truncated = true;
                    break;
                }
                slot.idx = i;
                slot.arm = static_cast<int64_t>(a);
                slot.tick.fetch_add(1, std::memory_order_relaxed);
                Case c(caseSeed(a, i), i);
                c.stats = &stats;
                bool failed = false;
                std::string msg;
                try
                {
                    runCase(a, c);
                }
                catch (Failure const& f)
                {
                    failed = true;
                    msg = f.what();
                }
                catch (std::exception const& f)
                {
                    failed = true;
                    msg = std::string("unexpected exception: ") + f.what();
                }
                if (failed)
                {
                    snprintf(slot.msg, sizeof slot.msg, "%s", msg.c_str());
                    slot.failed = 1;
                    sh->stop = 1;
                    break;
                }
                stats.evaluations += 1 + c.extraEvals();
                ++casesHere;
                if (c.wasNontrivial())
                {
                    ++nontrivialHere;
                    if (samplesHere < 1 && w < 2 && !c.shown().empty())
                    {
                        ++samplesHere;
                        stats.samples.push_back(arm.name + "#" + std::to_string(i) + ": " + c.shown().substr(0, 300));
                    }
                }
            }
            stats.labels["arm." + arm.name + ".cases"] += casesHere;
            stats.labels["arm." + arm.name + ".nontrivial_cases"] += nontrivialHere;
        }
        if (truncated)
            stats.labels["truncated_by_time"] += 1;
        // write results
        auto const path = outDir + "/w" + std::to_string(w);
        if (FILE* f = fopen(path.c_str(), "wb"))
        {
            fwrite(&stats.evaluations, 8, 1, f);
            uint64_t n = stats.fps.size();
            fwrite(&n, 8, 1, f);
            for (auto v: stats.fps)
                fwrite(&v, 8, 1, f);
            n = stats.labels.size();
            fwrite(&n, 8, 1, f);
            auto putStr = [&](std::string const& s) {
                uint64_t l = s.size();
                fwrite(&l, 8, 1, f);
                fwrite(s.data(), 1, l, f);
            };
            for (auto const& [k, v]: stats.labels)
            {
                putStr(k);
                fwrite(&v, 8, 1, f);
            }
            n = stats.samples.size();
            fwrite(&n, 8, 1, f);
            for (auto const& s: stats.samples)
                putStr(s);
            fclose(f);
        }
        quit(slot.failed ? 3 : 0);
    }

    Stats total;

    void mergeWorker(int w)
    {
        auto const path = outDir + "/w" + std::to_string(w);
        FILE* f = fopen(path.c_str(), "rb");
        if (!f)
            return;
        auto get8 = [&]() {
            uint64_t v = 0;
            if (fread(&v, 8, 1, f) != 1)
                v = 0;
            return v;
        };
        auto getStr = [&]() {
            auto const n = get8();
            std::string s(n, 0);
            if (n && fread(s.data(), 1, n, f) != n)
                s.clear();
            return s;
        };
        total.evaluations += get8();
        for (auto n = get8(); n; --n)
            total.fps.insert(get8());
        for (auto n = get8(); n; --n)
        {
            auto k = getStr();
            total.labels[k] += get8();
        }
        for (auto n = get8(); n; --n)
            total.samples.push_back(getStr());
        fclose(f);
        unlink(path.c_str());
    }

    struct Found
    {
        int worker = -1;
        size_t arm = 0;
        uint64_t idx = 0;
        std::string message;
        bool any = false;
    };

    Found runGroup(int group)
    {
        Found found;
        sh->stop = 0;
        std::vector<pid_t> pids(static_cast<size_t>(workers), -1);
        for (int w = 0; w < workers; ++w)
        {
            auto& s = sh->slots[w];
            s.arm = -1;
            s.idx = 0;
            s.tick = 0;
            s.failed = 0;
            s.msg[0] = 0;
            fflush(nullptr);
            pid_t const pid = fork();
            if (pid == 0)
                workerMain(w, group);
            pids[static_cast<size_t>(w)] = pid;
        }
        int alive = workers;
        std::vector<uint64_t> lastTick(static_cast<size_t>(workers), 0);
        std::vector<double> tickCpu(static_cast<size_t>(workers), 0);
        std::vector<Found> all;
        unsigned loops = 0;
        while (alive > 0)
        {
            usleep(2000);
            ++loops;
            for (int w = 0; w < workers; ++w)
            {
                auto& pid = pids[static_cast<size_t>(w)];
                if (pid < 0)
                    continue;
                int status = 0;
                pid_t const r = waitpid(pid, &status, WNOHANG);
                auto& s = sh->slots[w];
                auto record = [&](std::string msg) {
                    Found f;
                    f.worker = w;
                    f.arm = static_cast<size_t>(s.arm.load());
                    f.idx = s.idx;
                    f.message = std::move(msg);
                    f.any = s.arm >= 0;
                    if (f.any)
                        all.push_back(f);
                    else
                    {
                        fprintf(stderr, "worker died before its first case: %s\n", f.message.c_str());
                        exit(2);
                    }
                    sh->stop = 1;
                };
                if (r == pid)
                {
                    pid = -1;
                    --alive;
                    mergeWorker(w);
                    if (s.failed)
                        record(s.msg);
                    else if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
                        record("process died (" + std::string(WIFSIGNALED(status) ? "signal " : "exit ")
                               + std::to_string(WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status)) + ")\n"
                               + tailOf(outDir + "/worker" + std::to_string(w) + ".err"));
                    continue;
                }
                if (loops % 100 == 0)
                {
                    auto const t = s.tick.load();
                    auto const cpu = cpuSeconds(pid);
                    if (t != lastTick[static_cast<size_t>(w)])
                    {
                        lastTick[static_cast<size_t>(w)] = t;
                        tickCpu[static_cast<size_t>(w)] = cpu;
                    }
                    else if (t && s.arm >= 0 && cpu - tickCpu[static_cast<size_t>(w)] > prop.arms[static_cast<size_t>(s.arm.load())].cpuLimit)
                    {
                        record("one case used more than " + std::to_string(prop.arms[static_cast<size_t>(s.arm.load())].cpuLimit) + " s of CPU time (hang)");
                        kill(pid, SIGKILL);
                        waitpid(pid, &status, 0);
                        pid = -1;
                        --alive;
                        continue;
                    }
                    if (rssMb(pid) > rssLimitMb)
                    {
                        record("memory use grew beyond " + std::to_string(rssLimitMb) + " MB");
                        kill(pid, SIGKILL);
                        waitpid(pid, &status, 0);
                        pid = -1;
                        --alive;
                    }
                }
            }
        }
        for (auto const& f: all)
            if (!found.any || f.arm < found.arm || (f.arm == found.arm && f.idx < found.idx))
                found = f;
        return found;
    }

    // Shrinks a failing choice sequence; every candidate runs in its own process.
    std::vector<uint64_t> shrink(size_t arm, std::vector<uint64_t> best, RunResult& bestRes, Outcome want)
    {
        double const deadline = now() + (tier == "thorough" ? 60 : 25);
        unsigned tries = 0;
        auto const cpu = want == Outcome::Hang ? 5u : prop.arms[arm].cpuLimit;
        auto attempt = [&](std::vector<uint64_t> const& cand) {
            if (now() > deadline || tries > 3000)
                return false;
            ++tries;
            auto r = runChoices(arm, cand, cpu);
            if (r.outcome == Outcome::Ok || (want == Outcome::Hang) != (r.outcome == Outcome::Hang))
                return false;
            best = r.choices.size() <= cand.size() ? r.choices : cand;
            bestRes = std::move(r);
            return true;
        };
        bool progress = true;
        while (progress && now() < deadline)
        {
            progress = false;
            // delete blocks
            for (size_t block = std::max<size_t>(best.size() / 2, 1); block >= 1; block /= 2)
            {
                for (size_t i = 0; i + block <= best.size();)
                {
                    auto cand = best;
                    cand.erase(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + block));
                    if (attempt(cand))
                        progress = true;
                    else
                    {
                        // deleting elements often needs the count in front lowered, too
                        bool ok = false;
                        for (size_t back = 1; back <= 2 && back <= i && block <= 8; ++back)
                        {
                            auto c2 = cand;
                            if (c2[i - back] > 0)
                            {
                                c2[i - back] -= std::min<uint64_t>(c2[i - back], 1);
                                if (attempt(c2))
                                {
                                    ok = progress = true;
                                    break;
                                }
                            }
                        }
                        if (!ok)
                            i += block;
                    }
                    if (now() > deadline)
                        break;
                }
                if (block == 1)
                    break;
            }
            // lower values
            for (size_t i = 0; i < best.size() && now() < deadline; ++i)
            {
                if (best[i] == 0)
                    continue;
                auto cand = best;
                cand[i] = 0;
                if (attempt(cand))
                {
                    progress = true;
                    continue;
                }
                uint64_t lo = 0;
                while (i < best.size() && lo + 1 < best[i] && now() < deadline)
                {
                    cand = best;
                    auto const mid = lo + (best[i] - lo) / 2;
                    cand[i] = mid;
                    if (attempt(cand))
                        progress = true;
                    else
                        lo = mid;
                }
            }
        }
        return best;
    }

    void writeReplay(std::string const& path, size_t arm, std::string const& kind, std::vector<uint64_t> const& ch,
                     std::string const& message, std::string const& shown, int worker, uint64_t from, size_t arm0, uint64_t idx)
    {
        FILE* f = fopen(path.c_str(), "w");
        if (!f)
            return;
        fprintf(f, "property %s\narm %s\nkind %s\nseed %llu\ntier %s\nworkers %d\n", prop.id.c_str(), prop.arms[arm].name.c_str(),
                kind.c_str(), static_cast<unsigned long long>(seed), tier.c_str(), workers);
        if (kind == "history")
            fprintf(f, "history worker=%d arm0=%s from=%llu idx=%llu scale=%g\n", worker, prop.arms[arm0].name.c_str(),
                    static_cast<unsigned long long>(from), static_cast<unsigned long long>(idx), scale);
        fprintf(f, "choices");
        for (auto v: ch)
            fprintf(f, " %llu", static_cast<unsigned long long>(v));
        fprintf(f, "\n\n--- case ---\n%s\n--- failure ---\n%s\n", shown.c_str(), message.c_str());
        fclose(f);
    }

    // Confirms, shrinks and reports. Returns the exit status.
    int report(Found const& f, std::string const& replayPath)
    {
        printf("%s: arm %s case %llu failed:\n%s\n", prop.id.c_str(), prop.arms[f.arm].name.c_str(),
               static_cast<unsigned long long>(f.idx), f.message.c_str());
        fflush(stdout);
        auto r = runIndex(f.arm, f.idx, prop.arms[f.arm].cpuLimit);
        if (r.outcome != Outcome::Ok)
        {
            auto const first = r;
            auto best = r.choices;
            if (prop.arms[f.arm].cpuLimit > 60) // cases that take long are small in choices
            {
                printf("%s\n%s\n", first.shown.c_str(), first.message.c_str());
                writeReplay(replayPath, f.arm, "choices", best, first.message, first.shown, f.worker, 0, f.arm, f.idx);
                return 1;
            }
            // the choice sequence must reproduce on its own
            auto chk = runChoices(f.arm, best, prop.arms[f.arm].cpuLimit);
            if (chk.outcome == Outcome::Ok)
            {
                printf("note: choice replay did not reproduce; keeping the case number\n");
                writeReplay(replayPath, f.arm, "history", best, first.message, first.shown, f.worker, f.idx, f.arm, f.idx);
                printf("%s\n", first.message.c_str());
                return 1;
            }
            RunResult bestRes = chk;
            if (!prop.arms[f.arm].exhaustive)
                best = shrink(f.arm, best, bestRes, chk.outcome);
            int reproduced = 0;
            int repetitions = 0;
            for (auto const deadline = now() + 60; repetitions < 3 && (!repetitions || now() < deadline); ++repetitions)
                if (runChoices(f.arm, best, prop.arms[f.arm].cpuLimit).outcome != Outcome::Ok)
                    ++reproduced;
            printf("minimal case (reproduced %d of %d): %s\n%s\n", reproduced, repetitions, bestRes.shown.c_str(), bestRes.message.c_str());
            writeReplay(replayPath, f.arm, "choices", best, bestRes.message, bestRes.shown, f.worker, 0, f.arm, f.idx);
            return 1;
        }
        // The single case passes in a fresh process: the failure depends on what ran before it.
        size_t arm0 = 0;
        while (arm0 < prop.arms.size() && (prop.arms[arm0].group != prop.arms[f.arm].group || !armWanted(prop.arms[arm0])))
            ++arm0;
        auto h = runHistory(f.worker, arm0, 0, f.arm, f.idx, 300);
        if (h.outcome == Outcome::Ok)
        {
            // Not reproducible at all: unspecified behaviour such as reading uninitialised memory
            // shows up like this. The observed failure was real; report it with its history.
            printf("note: failure did not reproduce in a fresh process (it depends on process state)\n");
            h.message = f.message;
        }
        uint64_t from = 0;
        if (h.outcome != Outcome::Ok)
        {
            // shorten the history from the front, within the failing arm
            double const deadline = now() + 30;
            uint64_t lo = 0, hi = f.idx;
            auto whole = runHistory(f.worker, f.arm, 0, f.arm, f.idx, 120);
            if (whole.outcome != Outcome::Ok)
            {
                arm0 = f.arm;
                while (lo < hi && now() < deadline)
                {
                    auto const mid = lo + (hi - lo + 1) / 2;
                    auto t = runHistory(f.worker, f.arm, mid, f.arm, f.idx, 120);
                    if (t.outcome != Outcome::Ok)
                        lo = mid;
                    else
                        hi = mid - 1;
                }
                from = lo;
            }
        }
        writeReplay(replayPath, f.arm, "history", {}, h.message, h.shown, f.worker, from, arm0, f.idx);
        printf("history of case %llu..%llu (worker %d) fails: %s\n%s\n", static_cast<unsigned long long>(from),
               static_cast<unsigned long long>(f.idx), f.worker, h.shown.c_str(), h.message.c_str());
        return 1;
    }

    void writeSummary(std::string const& path, int violations, double wall)
    {
        FILE* f = fopen(path.c_str(), "w");
        if (!f)
            return;
        bool allExh = true;
        for (auto const& a: prop.arms)
            allExh = allExh && a.exhaustive;
        fprintf(f, "{\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"exhaustive\": %s, \"violations\": %d, \"wall_s\": %.2f,\n",
                static_cast<unsigned long long>(total.evaluations), static_cast<unsigned long long>(total.fps.size()),
                allExh ? "true" : "false", violations, wall);
        fprintf(f, " \"rule\": %s,\n \"samples\": [", jsonStr(prop.rule).c_str());
        std::set<std::string> seen;
        bool first = true;
        size_t n = 0;
        for (auto const& s: total.samples)
            if (n < 24 && seen.insert(s.substr(0, s.find('#'))).second)
            {
                fprintf(f, "%s%s", first ? "" : ", ", jsonStr(s).c_str());
                first = false;
                ++n;
            }
        fprintf(f, "],\n \"classes\": {");
        first = true;
        for (auto const& [k, v]: total.labels)
        {
            fprintf(f, "%s%s: %llu", first ? "" : ", ", jsonStr(k).c_str(), static_cast<unsigned long long>(v));
            first = false;
        }
        fprintf(f, "},\n \"arms\": [");
        first = true;
        for (auto const& a: prop.arms)
        {
            fprintf(f, "%s{\"name\": %s, \"exhaustive\": %s, \"cases\": %llu}", first ? "" : ", ", jsonStr(a.name).c_str(),
                    a.exhaustive ? "true" : "false", static_cast<unsigned long long>(casesFor(a)));
            first = false;
        }
        fprintf(f, "],\n \"assumptions\": [");
        first = true;
        for (auto const& a: prop.assumptions)
        {
            fprintf(f, "%s%s", first ? "" : ", ", jsonStr(a).c_str());
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
    }

    int run(std::string const& summaryPath, std::string const& replayPath)
    {
        double const t0 = now();
        std::set<int> groups;
        for (auto const& a: prop.arms)
            groups.insert(a.group);
        int rc = 0;
        for (int g: groups)
        {
            if (prop.groupEnabled && !prop.groupEnabled(g))
            {
                total.labels["group." + std::to_string(g) + ".skipped"] += 1;
                continue;
            }
            auto f = runGroup(g);
            if (f.any)
            {
                rc = report(f, replayPath);
                break;
            }
        }
        writeSummary(summaryPath, rc ? 1 : 0, now() - t0);
        printf("%s: %llu evaluations, %llu distinct non-trivial, %.1f s\n", prop.id.c_str(),
               static_cast<unsigned long long>(total.evaluations), static_cast<unsigned long long>(total.fps.size()), now() - t0);
        return rc;
    }

    int replayFile(std::string const& path)
    {
        FILE* f = fopen(path.c_str(), "r");
        if (!f)
        {
            perror(path.c_str());
            return 2;
        }
        std::string text;
        char buf[65536];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0)
            text.append(buf, n);
        fclose(f);
        auto field = [&](std::string const& k) -> std::string {
            auto p = text.find("\n" + k);
            if (text.compare(0, k.size(), k) == 0)
                p = 0;
            else if (p != std::string::npos)
                ++p;
            else
                return {};
            p += k.size();
            auto const e = text.find('\n', p);
            return text.substr(p, e - p);
        };
        auto const armName = field("arm ");
        size_t arm = prop.arms.size();
        for (size_t i = 0; i < prop.arms.size(); ++i)
            if (prop.arms[i].name == armName)
                arm = i;
        if (arm == prop.arms.size())
        {
            fprintf(stderr, "unknown arm %s\n", armName.c_str());
            return 2;
        }
        seed = strtoull(field("seed ").c_str(), nullptr, 10);
        tier = field("tier ");
        RunResult r;
        if (field("kind ") == "choices")
        {
            std::vector<uint64_t> ch;
            auto const c = field("choices");
            char const* p = c.c_str();
            while (*p)
            {
                char* e = nullptr;
                auto const v = strtoull(p, &e, 10);
                if (e == p)
                    break;
                ch.push_back(v);
                p = e;
            }
            r = runChoices(arm, ch, prop.arms[arm].cpuLimit);
        }
        else
        {
            workers = atoi(field("workers ").c_str());
            int w = 0;
            char a0[256] {};
            unsigned long long from = 0, idx = 0;
            sscanf(field("history ").c_str(), "worker=%d arm0=%255s from=%llu idx=%llu scale=%lf", &w, a0, &from, &idx, &scale);
            size_t arm0 = arm;
            for (size_t i = 0; i < prop.arms.size(); ++i)
                if (prop.arms[i].name == a0)
                    arm0 = i;
            r = runHistory(w, arm0, from, arm, idx, 300);
        }
        if (r.outcome == Outcome::Ok)
        {
            printf("replay passes\n");
            return 0;
        }
        printf("replay fails: %s\n%s\n", r.shown.c_str(), r.message.c_str());
        return 1;
    }
};

// A harness whose cases run this program again sets this: what main does when PBT_CHILD is in the environment.
inline int (*childMain)() = nullptr;

inline int mainImpl(int argc, char** argv)
{
    std::string id, summary = "summary.json", replayOut = "replay.txt", replayIn, outDir = ".", tier = "quick", onlyArm;
    uint64_t seed = 1;
    int workers = 8;
    double scale = 1, maxSeconds = 300;
    for (int i = 1; i < argc; ++i)
    {
        std::string const a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--property")
            id = next();
        else if (a == "--tier")
            tier = next();
        else if (a == "--seed")
            seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--out")
            outDir = next();
        else if (a == "--summary")
            summary = next();
        else if (a == "--replay-out")
            replayOut = next();
        else if (a == "--replay")
            replayIn = next();
        else if (a == "--workers")
            workers = atoi(next().c_str());
        else if (a == "--scale")
            scale = atof(next().c_str());
        else if (a == "--arm")
            onlyArm = next();
        else if (a == "--max-seconds")
            maxSeconds = atof(next().c_str());
        else
        {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 2;
        }
    }
    if (workers < 1)
        workers = 1;
    if (workers > 32)
        workers = 32;
    for (auto& p: registry())
        if (p.id == id)
        {
            Runner r(p);
            r.tier = tier;
            r.seed = seed;
            r.outDir = outDir;
            r.workers = workers;
            r.scale = scale;
            r.maxSeconds = maxSeconds;
            r.onlyArm = onlyArm;
            if (!replayIn.empty())
                return r.replayFile(replayIn);
            return r.run(summary, replayOut);
        }
    fprintf(stderr, "no property %s in this harness\n", id.c_str());
    return 2;
}

} // namespace pbt

// Requirement on the code under test inside a case.
#define PBT_CONCAT2(a, b) a##b
#define PBT_CONCAT(a, b)  PBT_CONCAT2(a, b)
#define PROPERTY(...)     static ::pbt::Register PBT_CONCAT(pbt_register_, __COUNTER__)(__VA_ARGS__)

#if defined(PBT_FUZZ)
// libFuzzer entry: bytes -> choices of one arm of the property in $PBT_PROPERTY.
extern "C" int LLVMFuzzerTestOneInput(uint8_t const* data, size_t size);
inline pbt::Property* pbtFuzzProperty()
{
    static pbt::Property* p = [] {
        char const* id = getenv("PBT_PROPERTY");
        pbt::Property* r = nullptr;
        for (auto& q: pbt::registry())
            if (id && q.id == id)
                r = &q;
        if (!r)
        {
            fprintf(stderr, "PBT_PROPERTY not set to a property of this harness\n");
            exit(2);
        }
        return r;
    }();
    return p;
}
int LLVMFuzzerTestOneInput(uint8_t const* data, size_t size)
{
    auto* p = pbtFuzzProperty();
    static std::vector<size_t> arms = [&] {
        std::vector<size_t> v;
        for (size_t i = 0; i < p->arms.size(); ++i)
            if (!p->arms[i].exhaustive && p->arms[i].group == 0 && p->arms[i].name.find("long") == std::string::npos)
                v.push_back(i);
        return v;
    }();
    if (size < 1 || arms.empty())
        return 0;
    auto const arm = arms[data[0] % arms.size()];
    pbt::Case c(data + 1, size - 1);
    bool failed = false;
    std::string msg;
    try
    {
        p->arms[arm].fn(c);
    }
    catch (pbt::Failure const& f)
    {
        failed = true;
        msg = f.what();
    }
    if (failed)
    {
        // Leave a replay file the normal harness understands, then stop the fuzzer.
        if (char const* path = getenv("PBT_REPLAY_OUT"))
            if (FILE* f = fopen(path, "w"))
            {
                fprintf(f, "property %s\narm %s\nkind choices\nseed 1\ntier thorough\nworkers 8\nchoices", p->id.c_str(),
                        p->arms[arm].name.c_str());
                for (auto v: c.choices())
                    fprintf(f, " %llu", static_cast<unsigned long long>(v));
                fprintf(f, "\n\n--- case ---\n%s\n--- failure ---\n%s\n", c.shown().c_str(), msg.c_str());
                fclose(f);
            }
        fprintf(stderr, "PBT failure: %s\n%s\n", msg.c_str(), c.shown().c_str());
        abort();
    }
    return 0;
}
#else
int main(int argc, char** argv)
{
    if (pbt::childMain && getenv("PBT_CHILD"))
        return pbt::childMain();
    return pbt::mainImpl(argc, argv);
}
#endif

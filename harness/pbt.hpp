/*
 * Property-based testing engine of this directory.
 *
 * A case is a pure function of a sequence of choices (bounded integers).
 * Choices come from a seeded generator, from a replay file
 * or from bytes of a coverage-guided fuzzer, so generation, shrinking,
 * replay and fuzzing share the same decoder.
 *
 * A worker forks a child which runs cases one by one and keeps choices
 * of the current case in shared memory.  Whatever kills the child
 * (failed check, exception, sanitizer report, assertion, signal,
 * excessive CPU time) the parent still knows the failing choices
 * and shrinks them using forked attempts.
 */
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <fstream>
#include <iterator>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt
{

using u64 = std::uint64_t;

struct Fail
{
    std::string msg;
};

constexpr u64 MAX_CHOICES = 1u << 17;
constexpr int MAX_LABELS = 96;
constexpr int MAX_SAMPLES = 6;
constexpr int EXIT_OK = 0, EXIT_FAIL = 61, EXIT_HANG = 77, EXIT_ERROR = 78, EXIT_UNSUPPORTED = 79;

struct Shared
{
    u64 choices_number;
    u64 index;
    u64 evaluations;
    u64 nontrivial;
    int labels_number;
    int samples_number;
    char labels[MAX_LABELS][56];
    u64 counts[MAX_LABELS];
    char samples[MAX_SAMPLES][1800];
    char message[6000];
    u64 choices[MAX_CHOICES];
};

inline u64 mix(u64 z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

class Case
{
public:
    enum class Mode { Random, Replay, Bytes };

    Case(Shared* shared, u64 seed) : shared{shared}, mode{Mode::Random}, state{seed} { shared->choices_number = 0; }
    Case(Shared* shared, const std::vector<u64>* replayed)
        : shared{shared}, mode{Mode::Replay}, replayed{replayed} { shared->choices_number = 0; }
    Case(Shared* shared, const std::uint8_t* data, size_t size)
        : shared{shared}, mode{Mode::Bytes}, data{data}, size{size} { shared->choices_number = 0; }

    /* The only source of choices: an integer from 0 to max, 0 is the simplest. */
    u64 draw(u64 max)
    {
        if (shared->choices_number >= MAX_CHOICES)
        {
            return 0;
        }
        u64 value = 0;
        if (mode == Mode::Random)
        {
            state = mix(state);
            value = max == ~0ull ? state : static_cast<u64>((static_cast<unsigned __int128>(state) * (max + 1)) >> 64);
        }
        else if (mode == Mode::Replay)
        {
            value = shared->choices_number < replayed->size() ? (*replayed)[shared->choices_number] : 0;
            value = std::min(value, max);
        }
        else
        {
            u64 m = max;
            unsigned shift = 0;
            while (m != 0 && position < size)
            {
                value |= static_cast<u64>(data[position++]) << shift;
                shift += 8;
                m >>= 8;
            }
            value = max == ~0ull ? value : value % (max + 1);
        }
        shared->choices[shared->choices_number] = value;
        ++shared->choices_number;
        return value;
    }

    u64 range(u64 low, u64 high) { return low + draw(high - low); }
    /* True with probability numerator / denominator; false is simpler. */
    bool chance(u64 numerator, u64 denominator) { return draw(denominator - 1) >= denominator - numerator; }
    template <class T> const T& pick(const std::vector<T>& items) { return items[draw(items.size() - 1)]; }
    /* Index of a weight; the first one is the simplest. */
    size_t weighted(const std::vector<u64>& weights)
    {
        u64 total = 0;
        for (u64 w : weights) total += w;
        u64 value = draw(total - 1);
        for (size_t i = 0; i < weights.size(); ++i)
        {
            if (value < weights[i]) return i;
            value -= weights[i];
        }
        return 0;
    }
    /* -bound ... bound, zigzag order: 0 is the simplest. */
    long signed_range(u64 bound)
    {
        u64 value = draw(2 * bound);
        return value % 2 == 0 ? static_cast<long>(value / 2) : -static_cast<long>(value / 2 + 1);
    }

    void label(const std::string& name)
    {
        for (int i = 0; i < shared->labels_number; ++i)
        {
            if (name == shared->labels[i])
            {
                ++shared->counts[i];
                return;
            }
        }
        if (shared->labels_number < MAX_LABELS)
        {
            std::snprintf(shared->labels[shared->labels_number], sizeof shared->labels[0], "%s", name.c_str());
            shared->counts[shared->labels_number++] = 1;
        }
    }
    void label_if(bool condition, const std::string& name)
    {
        if (condition) label(name);
    }
    void nontrivial(bool value = true) { is_nontrivial = is_nontrivial || value; }
    /* Description of the case for samples and messages. */
    void describe(std::function<std::string()> function) { description = std::move(function); }
    std::string text() const { return description ? description() : std::string{}; }
    u64 hash() const
    {
        u64 h = 0x1234567;
        for (u64 i = 0; i < shared->choices_number; ++i) h = mix(h ^ shared->choices[i]) + i;
        return h;
    }

    bool is_nontrivial = false;

private:
    Shared* shared;
    Mode mode;
    u64 state = 0;
    const std::vector<u64>* replayed = nullptr;
    const std::uint8_t* data = nullptr;
    size_t size = 0, position = 0;
    std::function<std::string()> description;
};

inline void compose(std::ostringstream&) {}
template <class T, class... Rest> void compose(std::ostringstream& out, const T& value, const Rest&... rest)
{
    out << value;
    compose(out, rest...);
}
template <class... Args> std::string str(const Args&... args)
{
    std::ostringstream out;
    out.precision(17);
    compose(out, args...);
    return out.str();
}
template <class T> std::string list(const T& items)
{
    std::ostringstream out;
    out.precision(17);
    out << "[";
    bool first = true;
    for (const auto& item : items)
    {
        out << (first ? "" : " ") << item;
        first = false;
    }
    out << "]";
    return out.str();
}

#define REQUIRE(condition, ...) \
    do { if (!(condition)) throw ::pbt::Fail{::pbt::str("`" #condition "` does not hold: ", ##__VA_ARGS__)}; } while (0)

/* Supplied by the harness. */
void property(Case& c);
extern const char* const PROPERTY_ID;
extern const char* const PROPERTY_RULE;

inline Shared* make_shared_memory()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { std::perror("mmap"); std::exit(2); }
    return static_cast<Shared*>(p);
}

inline void on_cpu_limit(int)
{
    static const char text[] = "PBT: CPU time limit of a case is exceeded\n";
    if (write(2, text, sizeof text - 1) < 0) {}
    _exit(EXIT_HANG);
}

inline void set_cpu_limit(unsigned seconds)
{
    struct itimerval timer{};
    timer.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &timer, nullptr);
}

/* Returns true if the case passed; fills the message otherwise. */
inline bool run_case(Case& c, Shared* shared)
{
    std::string message;
    try
    {
        property(c);
        return true;
    }
    catch (const Fail& fail) { message = fail.msg; }
    catch (const std::exception& e) { message = str("unexpected exception: ", e.what()); }
    catch (...) { message = "unexpected exception of unknown type"; }
    std::string described;
    try { described = c.text(); } catch (...) {}
    std::snprintf(shared->message, sizeof shared->message, "%s\n%s", message.c_str(), described.c_str());
    return false;
}

inline u64 case_seed(u64 seed, u64 index) { return mix(mix(seed) ^ mix(index * 2 + 1)); }

[[noreturn]] inline void harness_error(const std::string& text)
{
    std::fprintf(stderr, "%s: %s\n", text.c_str(), std::strerror(errno));
    _exit(EXIT_ERROR);
}

/* The code cannot be tested here because of a limit of the stand-ins. */
[[noreturn]] inline void unsupported(const std::string& text)
{
    std::fprintf(stderr, "UNSUPPORTED: %s\n", text.c_str());
    std::fflush(nullptr);
    _exit(EXIT_UNSUPPORTED);
}

struct Outcome
{
    bool failed;
    bool hang;
    std::vector<u64> choices;
    std::string message;
};

class Runner
{
public:
    Shared* shared = make_shared_memory();
    unsigned cpu_limit = 20;
    std::string error_file;

    static std::string read_tail(const std::string& path)
    {
        std::ifstream in(path);
        std::string text{std::istreambuf_iterator<char>{in}, std::istreambuf_iterator<char>{}};
        if (text.size() > 5000) text = text.substr(0, 5000);
        return text;
    }
    void redirect_errors() const
    {
        int fd = open(error_file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0)
        {
            dup2(fd, 2);
            close(fd);
        }
    }
    Outcome collect(int status) const
    {
        Outcome outcome{true, false, {}, {}};
        if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_ERROR)
        {
            // The harness itself does not work, nothing can be said about the property.
            std::fprintf(stdout, "error of the harness: %s\n", read_tail(error_file).c_str());
            std::exit(2);
        }
        if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_UNSUPPORTED)
        {
            std::fprintf(stdout, "%s\n", read_tail(error_file).c_str());
            std::exit(EXIT_UNSUPPORTED);
        }
        if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_OK)
        {
            outcome.failed = false;
        }
        outcome.choices.assign(shared->choices, shared->choices + std::min(shared->choices_number, MAX_CHOICES));
        if (!outcome.failed) return outcome;
        if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_FAIL) outcome.message = shared->message;
        else if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_HANG)
        {
            outcome.hang = true;
            outcome.message = str("does not terminate: more than ", cpu_limit, " s of CPU time for one case");
        }
        else if (WIFEXITED(status)) outcome.message = str("exits with ", WEXITSTATUS(status), ":\n", read_tail(error_file));
        else outcome.message = str("killed by signal ", WTERMSIG(status), ":\n", read_tail(error_file));
        return outcome;
    }
    /* Run one case from choices in a forked child. */
    Outcome attempt(const std::vector<u64>& choices)
    {
        std::fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            redirect_errors();
            signal(SIGPROF, on_cpu_limit);
            set_cpu_limit(cpu_limit);
            Case c{shared, &choices};
            bool ok = run_case(c, shared);
            _exit(ok ? EXIT_OK : EXIT_FAIL);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        return collect(status);
    }
};

inline bool simpler(const std::vector<u64>& a, const std::vector<u64>& b)
{
    return a.size() != b.size() ? a.size() < b.size() : a < b;
}

inline double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

/* Shrink a failing sequence of choices. */
inline Outcome shrink(Runner& runner, Outcome best, unsigned attempts_limit, double seconds, unsigned& attempts)
{
    double deadline = now() + seconds;
    attempts = 0;
    auto left = [&] { return attempts < attempts_limit && now() < deadline; };
    auto consider = [&](const std::vector<u64>& candidate) {
        if (!left() || !simpler(candidate, best.choices)) return false;
        ++attempts;
        Outcome outcome = runner.attempt(candidate);
        if (!outcome.failed || !simpler(outcome.choices, best.choices)) return false;
        best = outcome;
        return true;
    };
    bool improved = true;
    while (improved && left())
    {
        improved = false;
        for (size_t block : {256, 64, 16, 8, 4, 3, 2, 1})
        {
            for (size_t i = best.choices.size(); i-- > 0 && left();)
            {
                if (i + block > best.choices.size()) continue;
                auto candidate = best.choices;
                candidate.erase(candidate.begin() + i, candidate.begin() + i + block);
                if (consider(candidate)) improved = true;
                if (block > 1 && i >= block) i -= block - 1;
            }
        }
        for (size_t block : {64, 8, 1})
        {
            for (size_t i = 0; i < best.choices.size() && left(); i += block)
            {
                auto candidate = best.choices;
                bool any = false;
                for (size_t j = i; j < std::min(i + block, candidate.size()); ++j)
                {
                    any = any || candidate[j] != 0;
                    candidate[j] = 0;
                }
                if (any && consider(candidate)) improved = true;
            }
        }
        for (size_t i = 0; i < best.choices.size() && left(); ++i)
        {
            u64 low = 0;
            while (i < best.choices.size() && low < best.choices[i] && left())
            {
                u64 middle = low + (best.choices[i] - low) / 2;
                auto candidate = best.choices;
                candidate[i] = middle;
                if (consider(candidate)) improved = true;
                else low = middle + 1;
            }
        }
        for (size_t i = 0; i < best.choices.size() && left(); ++i)
        {
            if (best.choices[i] == 0) continue;
            for (size_t j = i + 1; j < std::min(best.choices.size(), i + 40) && left(); ++j)
            {
                auto candidate = best.choices;
                --candidate[i];
                candidate.erase(candidate.begin() + j);
                if (consider(candidate))
                {
                    improved = true;
                    break;
                }
            }
        }
    }
    return best;
}

inline std::string json_string(const std::string& text)
{
    std::string out = "\"";
    for (unsigned char ch : text)
    {
        if (ch == '"' || ch == '\\') { out += '\\'; out += static_cast<char>(ch); }
        else if (ch < 32 || ch > 126)
        {
            char buffer[8];
            std::snprintf(buffer, sizeof buffer, "\\u%04x", ch);
            out += buffer;
        }
        else out += static_cast<char>(ch);
    }
    return out + "\"";
}

inline std::vector<u64> read_choices(const std::string& path)
{
    std::vector<u64> result;
    std::ifstream in(path);
    u64 value;
    while (in >> value) result.push_back(value);
    return result;
}

/*
 * harness --run SEED CASES SECONDS PREFIX
 *     runs cases, writes PREFIX.json (and PREFIX.hashes);
 *     exit code 0 — passed, 1 — failed (choices are in the JSON).
 * harness --choices FILE       replays choices: exit 0 or 1, message on stdout.
 * harness --range SEED FROM TO replays a range of random cases in one process.
 * harness --shrink FILE PREFIX shrinks choices found elsewhere.
 */
inline int report(Runner& runner, const std::string& prefix, u64 requested, const std::vector<u64>& hashes,
                  bool failed, const Outcome& outcome, const std::string& kind, u64 seed, u64 from, u64 to,
                  unsigned attempts)
{
    Shared* s = runner.shared;
    std::ofstream out(prefix + ".json");
    out << "{\"property\":" << json_string(PROPERTY_ID) << ",\"rule\":" << json_string(PROPERTY_RULE)
        << ",\"requested\":" << requested << ",\"evaluations\":" << s->evaluations << ",\"nontrivial\":" << s->nontrivial
        << ",\"labels\":{";
    for (int i = 0; i < s->labels_number; ++i) out << (i ? "," : "") << json_string(s->labels[i]) << ":" << s->counts[i];
    out << "},\"samples\":[";
    for (int i = 0; i < s->samples_number; ++i) out << (i ? "," : "") << json_string(s->samples[i]);
    out << "],\"failed\":" << (failed ? "true" : "false");
    if (failed)
    {
        out << ",\"kind\":" << json_string(kind) << ",\"message\":" << json_string(outcome.message)
            << ",\"seed\":" << seed << ",\"from\":" << from << ",\"to\":" << to << ",\"shrink_attempts\":" << attempts
            << ",\"choices\":[";
        for (size_t i = 0; i < outcome.choices.size(); ++i) out << (i ? "," : "") << outcome.choices[i];
        out << "]";
    }
    out << "}\n";
    std::ofstream hash_file(prefix + ".hashes", std::ios::binary);
    hash_file.write(reinterpret_cast<const char*>(hashes.data()), hashes.size() * sizeof(u64));
    return failed ? 1 : 0;
}

inline void run_range(Runner& runner, u64 seed, u64 from, u64 to, double deadline, u64* hashes)
{
    Shared* s = runner.shared;
    for (u64 i = from; i < to; ++i)
    {
        if (i % 16 == 0 && deadline > 0 && now() > deadline) break;
        s->index = i;
        set_cpu_limit(runner.cpu_limit);
        Case c{s, case_seed(seed, i)};
        if (!run_case(c, s)) _exit(EXIT_FAIL);
        ++s->evaluations;
        if (c.is_nontrivial)
        {
            if (hashes) hashes[s->nontrivial] = c.hash();
            ++s->nontrivial;
            if (s->samples_number < MAX_SAMPLES && (s->nontrivial & (s->nontrivial - 1)) == 0 && (s->nontrivial == 1 || s->nontrivial >= 16))
            {
                std::string text = c.text();
                if (!text.empty()) std::snprintf(s->samples[s->samples_number++], sizeof s->samples[0], "%s", text.c_str());
            }
        }
    }
}

inline int main_function(int argc, char** argv)
{
    std::string mode = argc > 1 ? argv[1] : "";
    Runner runner;
    char error_file[] = "/tmp/pbt-errors-XXXXXX";
    int fd = mkstemp(error_file);
    if (fd >= 0) close(fd);
    runner.error_file = error_file;
    if (const char* limit = std::getenv("PBT_CPU_LIMIT")) runner.cpu_limit = static_cast<unsigned>(std::atoi(limit));
    struct Cleanup
    {
        std::string path;
        pid_t pid = getpid();
        ~Cleanup() { if (getpid() == pid) unlink(path.c_str()); }
    } cleanup{error_file};
    Shared* s = runner.shared;

    if (mode == "--choices" && argc == 3)
    {
        Outcome outcome = runner.attempt(read_choices(argv[2]));
        std::printf("%s\n", outcome.failed ? outcome.message.c_str() : "passed");
        return outcome.failed ? 1 : 0;
    }
    auto run_child = [&](u64 seed, u64 from, u64 to, double deadline, u64* hashes) {
        std::fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            runner.redirect_errors();
            signal(SIGPROF, on_cpu_limit);
            run_range(runner, seed, from, to, deadline, hashes);
            _exit(EXIT_OK);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        return runner.collect(status);
    };
    if (mode == "--range" && argc == 5)
    {
        Outcome outcome = run_child(std::strtoull(argv[2], nullptr, 10), std::strtoull(argv[3], nullptr, 10),
                                    std::strtoull(argv[4], nullptr, 10), 0, nullptr);
        std::printf("%s\n", outcome.failed ? outcome.message.c_str() : "passed");
        return outcome.failed ? 1 : 0;
    }
    if (mode == "--shrink" && argc == 4)
    {
        Outcome outcome = runner.attempt(read_choices(argv[2]));
        if (!outcome.failed) return 0;
        unsigned attempts = 0;
        unsigned limit = runner.cpu_limit;
        if (outcome.hang) runner.cpu_limit = 3;
        Outcome best = shrink(runner, outcome, outcome.hang ? 60 : 3000, 60, attempts);
        runner.cpu_limit = limit;
        return report(runner, argv[3], 0, {}, true, best, "choices", 0, 0, 0, attempts);
    }
    if (mode != "--run" || argc != 6)
    {
        std::fprintf(stderr, "usage: %s --run SEED CASES SECONDS PREFIX\n", argv[0]);
        return 2;
    }
    u64 seed = std::strtoull(argv[2], nullptr, 10);
    u64 cases = std::strtoull(argv[3], nullptr, 10);
    double deadline = now() + std::atof(argv[4]);
    std::string prefix = argv[5];
    size_t bytes = (cases + 1) * sizeof(u64);
    u64* hashes = static_cast<u64*>(mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    Outcome outcome = run_child(seed, 0, cases, deadline, hashes);
    std::vector<u64> found(hashes, hashes + s->nontrivial);
    u64 index = s->index;
    if (!outcome.failed) return report(runner, prefix, cases, found, false, outcome, "", 0, 0, 0, 0);

    /* Keep statistics of the run: attempts share the same memory. */
    static Shared saved;
    std::memcpy(static_cast<void*>(&saved), s, offsetof(Shared, message));
    Outcome confirmed{false, false, {}, {}};
    for (int i = 0; i < 3 && !confirmed.failed; ++i) confirmed = runner.attempt(outcome.choices);
    unsigned attempts = 0;
    std::string kind = "choices";
    Outcome best = outcome;
    if (confirmed.failed)
    {
        unsigned limit = runner.cpu_limit;
        if (confirmed.hang) runner.cpu_limit = 3;
        best = shrink(runner, confirmed, confirmed.hang ? 60 : 3000, 60, attempts);
        runner.cpu_limit = limit;
    }
    else kind = "range";
    std::memcpy(static_cast<void*>(s), &saved, offsetof(Shared, message));
    return report(runner, prefix, cases, found, true, best, kind, seed, 0, index + 1, attempts);
}

}

#ifdef PBT_FUZZ
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace pbt
{
inline Shared* fuzz_shared;
inline void dump_choices()
{
    const char* path = std::getenv("PBT_FUZZ_OUT");
    if (!path) return;
    std::string name = str(path, ".", getpid());
    if (FILE* f = std::fopen(name.c_str(), "w"))
    {
        for (u64 i = 0; i < fuzz_shared->choices_number; ++i) std::fprintf(f, "%llu\n", (unsigned long long)fuzz_shared->choices[i]);
        std::fclose(f);
    }
}
}
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, size_t size)
{
    using namespace pbt;
    if (!fuzz_shared)
    {
        fuzz_shared = make_shared_memory();
        __sanitizer_set_death_callback(dump_choices);
    }
    Case c{fuzz_shared, data, size};
    if (!run_case(c, fuzz_shared))
    {
        std::fprintf(stderr, "PBT failure: %s\n", fuzz_shared->message);
        dump_choices();
        __builtin_trap();
    }
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::main_function(argc, argv); }
#endif

/* Runs the program in scratch directories, shared by C18 and C19. */
#pragma once
#include "pgm.hpp"

#include <sys/stat.h>
#include <poll.h>

namespace cli
{

using pbt::str;
using Args = std::vector<std::string>;

inline std::string variable(const char* name)
{
    const char* value = std::getenv(name);
    if (!value) pbt::harness_error(str(name, " is not set"));
    return value;
}

/* A directory of the current process. */
inline const std::string& scratch()
{
    static pid_t owner = 0;
    static std::string path;
    if (owner != getpid())
    {
        owner = getpid();
        path = variable("PBT_SCRATCH") + "/dir-XXXXXX";
        if (!mkdtemp(path.data())) pbt::harness_error("mkdtemp");
    }
    return path;
}
struct RemoveScratch
{
    std::string path = scratch();
    std::vector<std::string> files;
    ~RemoveScratch()
    {
        for (auto& f : files) { unlink((path + "/" + f).c_str()); rmdir((path + "/" + f).c_str()); }
    }
};

inline void write_file(const std::string& name, const std::string& text)
{
    std::ofstream out(scratch() + "/" + name, std::ios::binary | std::ios::trunc);
    out << text;
    out.close();
    if (!out) pbt::harness_error("cannot write " + name);
}
inline std::optional<std::string> read_file(const std::string& name)
{
    std::ifstream in(scratch() + "/" + name, std::ios::binary);
    if (!in) return std::nullopt;
    return std::string{std::istreambuf_iterator<char>{in}, std::istreambuf_iterator<char>{}};
}

struct Finished
{
    bool exited = false;
    int code = 0;   // exit code or signal
    std::string out, err;
    std::string text() const
    {
        return str(exited ? "exit code " : "signal ", code, ", stdout ", pgm::quoted(out), ", stderr ", pgm::quoted(err));
    }
    /* A crash, a sanitizer report, or an endless loop. */
    bool broken() const
    {
        return !exited || code == 99 || err.find("Sanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos
            || err.find("Assertion") != std::string::npos;
    }
};

struct Limits
{
    long file_size = -1;
    int threads = 0;
    int thread_limit = 0;       // no more of them are given
    bool adjusted = false;      // less of them may be given
};

inline Finished run(const std::string& program, const Args& args, const Limits& limits = {})
{
    int out[2], err[2];
    if (pipe2(out, O_CLOEXEC) != 0 || pipe2(err, O_CLOEXEC) != 0) pbt::harness_error("pipe");
    const std::string directory = scratch();
    std::vector<char*> argv;
    argv.push_back(const_cast<char*>(program.c_str()));
    for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    pid_t pid = fork();
    if (pid < 0) pbt::harness_error("fork");
    if (pid == 0)
    {
        signal(SIGPROF, SIG_DFL);
        pbt::set_cpu_limit(0);
        dup2(out[1], 1);
        dup2(err[1], 2);
        int null = open("/dev/null", O_RDONLY);
        if (null >= 0) dup2(null, 0);
        if (chdir(directory.c_str()) != 0) _exit(98);
        struct rlimit cpu{20, 25};
        setrlimit(RLIMIT_CPU, &cpu);
        struct rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        if (limits.file_size >= 0)
        {
            signal(SIGXFSZ, SIG_IGN);
            struct rlimit size{static_cast<rlim_t>(limits.file_size), static_cast<rlim_t>(limits.file_size)};
            setrlimit(RLIMIT_FSIZE, &size);
        }
        // Waiting for nothing is a failure as well.
        alarm(90);
        setenv("OMP_WAIT_POLICY", "passive", 1);
        setenv("GOMP_SPINCOUNT", "0", 1);
        if (limits.threads > 0) setenv("OMP_NUM_THREADS", std::to_string(limits.threads).c_str(), 1);
        if (limits.thread_limit > 0) setenv("OMP_THREAD_LIMIT", std::to_string(limits.thread_limit).c_str(), 1);
        if (limits.adjusted) setenv("OMP_DYNAMIC", "true", 1);
        execv(program.c_str(), argv.data());
        _exit(98);
    }
    close(out[1]);
    close(err[1]);
    Finished result;
    struct pollfd fds[2] = {{out[0], POLLIN, 0}, {err[0], POLLIN, 0}};
    int open_count = 2;
    while (open_count > 0)
    {
        if (poll(fds, 2, -1) < 0) { if (errno == EINTR) continue; break; }
        for (int i = 0; i < 2; ++i)
        {
            if (fds[i].fd < 0 || fds[i].revents == 0) continue;
            char buffer[4096];
            ssize_t n = read(fds[i].fd, buffer, sizeof buffer);
            if (n > 0)
            {
                std::string& target = i == 0 ? result.out : result.err;
                if (target.size() < 100000) target.append(buffer, static_cast<size_t>(n));
            }
            else
            {
                close(fds[i].fd);
                fds[i].fd = -1;
                --open_count;
            }
        }
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    result.exited = WIFEXITED(status);
    result.code = result.exited ? WEXITSTATUS(status) : WTERMSIG(status);
    if (result.exited && result.code == 98 && result.err.empty()) pbt::harness_error("cannot execute " + program);
    return result;
}

/* Replaces a file by a pipe with the same content. */
struct Feeder
{
    pid_t pid = -1;
    void start(const std::string& name)
    {
        const std::string text = read_file(name).value_or(""), path = scratch() + "/" + name;
        unlink(path.c_str());
        if (mkfifo(path.c_str(), 0600) != 0) pbt::harness_error("mkfifo");
        pid = fork();
        if (pid < 0) pbt::harness_error("fork");
        if (pid > 0) return;
        signal(SIGPIPE, SIG_DFL);
        signal(SIGPROF, SIG_DFL);
        pbt::set_cpu_limit(0);
        alarm(60);
        int out = open(path.c_str(), O_WRONLY);
        for (size_t done = 0; out >= 0 && done < text.size();)
        {
            ssize_t n = write(out, text.data() + done, std::min<size_t>(text.size() - done, 1 + done % 4000));
            if (n <= 0) break;
            done += static_cast<size_t>(n);
        }
        _exit(0);
    }
    ~Feeder()
    {
        if (pid <= 0) return;
        kill(pid, SIGKILL);
        while (waitpid(pid, nullptr, 0) < 0 && errno == EINTR) {}
    }
};

/* One of equivalent forms of an option. */
inline Args option(pbt::Case& c, char short_name, const std::string& long_name, const std::string& value)
{
    // A value which looks like an option has to be glued.
    bool glue = !value.empty() && value[0] == '-';
    switch (glue ? 1 : value.empty() ? 0 : c.draw(3))
    {
        case 0: return {"--" + long_name, value};
        case 1: return {"--" + long_name + "=" + value};
        case 2: return {std::string{'-', short_name}, value};
        default: return {std::string{'-', short_name} + value};
    }
}
inline Args join(pbt::Case& c, std::vector<Args> options, bool shuffle = true)
{
    Args result;
    for (size_t i = 0; shuffle && i + 1 < options.size(); ++i) std::swap(options[i], options[i + c.draw(options.size() - 1 - i)]);
    for (auto& o : options) result.insert(result.end(), o.begin(), o.end());
    return result;
}
inline std::string quoted(const Args& args)
{
    std::string result;
    for (auto& a : args) result += (result.empty() ? "" : " ") + pbt::json_string(a);
    return result;
}

inline std::string number(pbt::Case& c, double value)
{
    char buffer[64];
    std::snprintf(buffer, sizeof buffer, "%.17g", value);
    std::string plain = buffer;
    if (plain.find('e') != std::string::npos) return plain;
    bool dot = plain.find('.') != std::string::npos;
    switch (c.draw(5))
    {
        case 0: return plain;
        case 1: return plain + (dot ? "0" : ".0");
        case 2: return plain + "e0";
        case 3: return "0" + plain;
        case 4:
            std::snprintf(buffer, sizeof buffer, "%.16e", value);
            return buffer;
        default:
            if (dot && plain[0] == '0') return plain.substr(1);
            return dot ? plain : plain + ".";
    }
}

}

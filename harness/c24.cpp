/*
 * Faults of devices: the program built with OpenCL, and the program built with CUDA, on stand-ins of devices.
 */
#include "device_program.hpp"
using namespace device_program;

namespace pbt {
const char* const PROPERTY_ID = "C24";
const char* const PROPERTY_RULE =
    "a problem solved on a device, one call of a function of the device library, one kernel, or all of the device fails; the call is chosen among those which "
    "the program makes without faults; non-trivial: the fault happened after something was done on the device";
namespace {
#ifdef PBT_CUDA
const std::vector<int> CODES{cudaErrorInvalidValue, cudaErrorMemoryAllocation, 3, 4, cudaErrorInvalidConfiguration, cudaErrorInvalidDevicePointer, 35, 46, 98,
                             cudaErrorNoDevice, 101, 209, 214, 216, 222, 304, 400, 600, 700, cudaErrorLaunchOutOfResources, 702, 710, 714, 716, 717,
                             cudaErrorLaunchFailure, 720, 800, 801, 802, 900, 999};
#else
const std::vector<int> CODES{-1, -2, -3, -4, -5, -6, -9, -10, -11, -12, -14, -30, -32, -33, -34, -36, -38, -45, -46, -48, -52, -54, -55, -56, -58, -59, -61, -62, -1001};
#endif
struct Child
{
    cli::Finished finished;
    std::map<std::string, u64> calls;
    std::string failure;
};
/* The program works in a child process, because it may exit. */
Child fork_program(const Args& args, const std::string& directory)
{
    int out[2], err[2], report[2];
    if (pipe(out) != 0 || pipe(err) != 0 || pipe(report) != 0) pbt::harness_error("pipe");
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) pbt::harness_error("fork");
    if (pid == 0)
    {
        static int to = report[1];
        signal(SIGPROF, SIG_DFL);
        pbt::set_cpu_limit(15);
        dup2(out[1], 1);
        dup2(err[1], 2);
        if (!directory.empty() && chdir(directory.c_str()) != 0) _exit(98);
        // Whatever way the program ends in, what happened on the device is reported.
        std::atexit([] {
            std::string text = device::state().failure + "\n";
            for (auto& [name, number] : device::state().calls) text += name + "\t" + std::to_string(number) + "\n";
            if (write(to, text.data(), text.size()) < 0) {}
        });
        std::string name = "stereo_parallel";
        Args copy = args;
        std::vector<char*> argv{name.data()};
        for (auto& a : copy) argv.push_back(a.data());
        argv.push_back(nullptr);
        std::exit(repo_main(static_cast<int>(argv.size()) - 1, argv.data()));
    }
    close(out[1]);
    close(err[1]);
    close(report[1]);
    Child result;
    std::string texts[3];
    struct pollfd fds[3] = {{out[0], POLLIN, 0}, {err[0], POLLIN, 0}, {report[0], POLLIN, 0}};
    for (int opened = 3; opened > 0;)
    {
        if (poll(fds, 3, -1) < 0) { if (errno == EINTR) continue; break; }
        for (int i = 0; i < 3; ++i)
        {
            if (fds[i].fd < 0 || fds[i].revents == 0) continue;
            char buffer[4096];
            ssize_t n = read(fds[i].fd, buffer, sizeof buffer);
            if (n > 0) texts[i].append(buffer, static_cast<size_t>(n));
            else
            {
                close(fds[i].fd);
                fds[i].fd = -1;
                --opened;
            }
        }
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    result.finished.exited = WIFEXITED(status);
    result.finished.code = result.finished.exited ? WEXITSTATUS(status) : WTERMSIG(status);
    if (result.finished.exited && result.finished.code == EXIT_UNSUPPORTED) pbt::unsupported(texts[1]);
    if (result.finished.exited && result.finished.code == EXIT_ERROR) pbt::harness_error(texts[1]);
    result.finished.out = texts[0];
    result.finished.err = texts[1];
    std::istringstream lines(texts[2]);
    std::getline(lines, result.failure);
    for (std::string line; std::getline(lines, line);)
        if (size_t tab = line.find('\t'); tab != std::string::npos) result.calls[line.substr(0, tab)] = std::stoull(line.substr(tab + 1));
    return result;
}
}
void property(Case& c)
{
    auto log = std::make_shared<std::string>();
    c.describe([log] { return *log; });
    const Problem p = generate(c);
    cli::RemoveScratch cleanup{cli::scratch(), {"left.pgm", "right.pgm", "map.pgm"}};
    cli::write_file("left.pgm", layout(c, p, true));
    cli::write_file("right.pgm", layout(c, p, false));
    auto args = arguments(c, p, "left.pgm", "right.pgm", "map.pgm", c.pick(TECHNOLOGIES));
    *log += p.text() + " | " + cli::quoted(args);
    reset(c, p);
    auto& s = device::state();
    const auto policy = s.policy;
    const auto garbage = s.garbage;
    auto usual = fork_program(args, "");
    REQUIRE(!usual.finished.broken() && usual.finished.code == 0 && usual.failure.empty(), "failed without faults: ", usual.finished.text(), usual.failure);

    const bool exists = c.chance(1, 3);
    const std::string old(3000, '7');
    if (exists) cli::write_file("map.pgm", old);
    else unlink(path("map.pgm").c_str());
    // Release of memory is not a thing to fail because of, and queries do not fail.
    std::vector<std::string> functions;
    for (auto& [name, number] : usual.calls)
        if (number > 0 && name != "cudaFree" && name.rfind("clGet", 0) != 0) functions.push_back(name);
    if (functions.empty())
    {
        c.label("the device is not used");
        return;
    }
    s.policy = policy;
    s.garbage = garbage;
    std::string directory;
    if (c.chance(1, 2)) s.fault_code = c.pick(CODES);
    if (s.fault_code) *log += str("; error ", s.fault_code);
    ul kind = c.weighted({6, 1, 1});
    if (kind == 1)
    {
        s.lost = true;
        *log += "; there is no device";
        c.label("no device");
    }
#ifndef PBT_CUDA
    else if (kind == 2)
    {
        directory = cli::scratch();
        *log += "; sources of kernels are not found";
        c.label("no sources of kernels");
    }
#endif
    else
    {
        s.fault = c.pick(functions);
        const u64 number = usual.calls[s.fault];
        s.fault_index = c.chance(1, 2) ? c.draw(number - 1) : number - 1 - c.draw(std::min<u64>(number - 1, 2));
        s.fatal = c.chance(1, 4);
        *log += str("; ", s.fault, " number ", s.fault_index, " of ", number, " fails", s.fatal ? " and everything after it" : "");
        if (s.fatal) c.label("the device is lost");
        c.label(s.fault + " fails");
        c.nontrivial(s.fault_index > 0 || s.fault == "a kernel" || s.fault == "a launch" || s.fault.find("nqueue") != std::string::npos);
    }
    auto faulty = fork_program(args, directory);
    REQUIRE(!faulty.finished.broken() && faulty.failure.empty(), "the program is broken: ", faulty.finished.text(), "; ", faulty.failure);
    if (kind == 0 && faulty.calls[s.fault] <= s.fault_index)
    {
        c.label("the fault did not happen");
        return;
    }
    auto text = cli::read_file("map.pgm");
    REQUIRE(faulty.finished.code != 0, "the fault is ignored: ", faulty.finished.text(), ", map ", text ? pgm::quoted(*text) : "absent");
    REQUIRE(!faulty.finished.err.empty(), "nothing is written to the error stream: ", faulty.finished.text());
    REQUIRE(exists ? text == old : !text, "the output is touched by a failure: ", text ? pgm::quoted(*text) : "removed");
}
}

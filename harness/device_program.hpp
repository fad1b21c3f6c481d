/* The program built for a device runs inside of the harness, on the stand-in of the device; for C22 and C24. */
#pragma once
#ifdef PBT_CUDA
#include "cuda.hpp"
#else
#include "opencl.hpp"
#endif
#include "cli.hpp"
#include "gpu_cases.hpp"
#include "hard.hpp"

#include <iostream>

/* main() of the program */
int repo_main(int argc, char* argv[]);

namespace device_program
{
using model::Problem;
using model::ul;
using pbt::Case;
using pbt::str;
using cli::Args;

#ifdef PBT_CUDA
static const std::vector<std::string> TECHNOLOGIES{"cuda", "CUDA", "Cuda"}, UNAVAILABLE{"cl", "CL", "opencl", "OpenCL"};
#else
static const std::vector<std::string> TECHNOLOGIES{"cl", "CL", "opencl", "OpenCL", "OPENCL", "Cl"}, UNAVAILABLE{"cuda", "CUDA"};
#endif
static const std::vector<std::string> CPU{"", "cpu", "CPU", "omp", "OpenMP"};

inline void reset(Case& c, const Problem& p)
{
#ifdef PBT_CUDA
    pbt_cuda::reset();
#else
    opencl::scratch() = cli::variable("PBT_SCRATCH");
#endif
    gpu_cases::GpuCase k;
    k.p = p;
    k.initial = model::Nodes(p);
    gpu_cases::prepare_device(c, k);
    device::state().garbage = static_cast<unsigned char>(c.pick(std::vector<pbt::u64>{0xcd, 0, 0xff, 0x01}));
}

/* Images and weights; numbers are exact in single precision. */
inline Problem generate(Case& c)
{
    model::Options o;
    o.nodes_limit = c.chance(1, 10) ? 200 : 60;
    o.max_width = o.nodes_limit == 200 ? 16 : 10;
    o.max_height = o.max_width;
    o.float_exact = true;
    o.reparametrization = false;
    return c.chance(1, 6) ? hard::generate(c) : model::generate(c, o);
}
inline std::string layout(Case& c, const Problem& p, bool left)
{
    return pgm::layout(c, pgm::tokens(sp::image::Image{p.W, p.H, p.max_value, left ? p.L : p.R}));
}
inline std::string path(const std::string& name) { return cli::scratch() + "/" + name; }

inline Args arguments(Case& c, const Problem& p, const std::string& left, const std::string& right, const std::string& map, const std::string& technology)
{
    std::vector<Args> options{cli::option(c, 'l', "left-image", path(left)), cli::option(c, 'r', "right-image", path(right)),
                              cli::option(c, 'o', "output-image", path(map))};
    if (p.D != p.W || c.chance(1, 2)) options.push_back(cli::option(c, 'd', "disparity-levels", std::to_string(p.D)));
    if (p.c != 1 || c.chance(1, 2)) options.push_back(cli::option(c, 'c', "cleanness", cli::number(c, p.c)));
    if (p.s != 1 || c.chance(1, 2)) options.push_back(cli::option(c, 's', "smoothness", cli::number(c, p.s)));
    if (!technology.empty()) options.push_back(cli::option(c, 'p', "parallel", technology));
    return cli::join(c, options);
}

struct Finished
{
    int code = 0;
    std::string out, err;
    std::string text() const { return str("exit code ", code, ", stdout ", pgm::quoted(out), ", stderr ", pgm::quoted(err)); }
};
/* The program works in this process. */
inline Finished run(const Args& args)
{
    Finished result;
    std::string name = "stereo_parallel";
    Args copy = args;
    std::vector<char*> argv{name.data()};
    for (auto& a : copy) argv.push_back(a.data());
    argv.push_back(nullptr);
    std::ostringstream out, err;
    auto* old_out = std::cout.rdbuf(out.rdbuf());
    auto* old_err = std::cerr.rdbuf(err.rdbuf());
    result.code = repo_main(static_cast<int>(argv.size()) - 1, argv.data());
    std::cout.rdbuf(old_out);
    std::cerr.rdbuf(old_err);
    result.out = out.str();
    result.err = err.str();
    return result;
}
}

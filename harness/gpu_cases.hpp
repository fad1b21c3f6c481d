/* What C20 and C21 have in common: cases, expectations and the device. */
#pragma once
#include "csp_cases.hpp"
#include "device.hpp"

namespace gpu_cases
{
using namespace bridge;
using pbt::Case;
using pbt::str;

struct GpuCase
{
    Problem p;
    double threshold = 0;
    Nodes initial, greedy, closed;
    std::string text() const { return p.text() + pbt::str(" threshold=", threshold, " available: ") + initial.text(); }
};

inline std::shared_ptr<GpuCase> generate(Case& c)
{
    model::Options o;
    o.nodes_limit = 60;
    o.max_width = 10;
    o.max_height = 10;
    o.float_exact = true;
    auto k = std::make_shared<GpuCase>();
    if (c.chance(1, 2))
    {
        o.reparametrization = false;
        auto l = cases::generate_labeling(c, o);
        k->p = l->p;
        k->threshold = l->threshold;
        k->initial = l->initial;
    }
    else
    {
        auto l = cases::generate(c, o);
        k->p = l->p;
        k->threshold = l->threshold;
        k->initial = l->initial;
    }
    model::Csp m{k->p, k->threshold};
    k->closed = m.closure(k->initial);
    k->greedy = cases::greedy(k->p, m, k->initial);
    c.label(!k->closed.any() ? "unsolvable" : k->greedy.any() ? "greedy choice succeeds" : "the best node belongs to no labeling");
    c.label_if(k->p.W != k->p.H, "not square");
    return k;
}

/*
 * More rows than a block of CUDA has threads. Neighbours have to have equal disparities, so the first solution leaves
 * disparity 0 only, and nothing is changed by later ones.
 */
inline std::shared_ptr<GpuCase> generate_tall(Case& c)
{
    auto k = std::make_shared<GpuCase>();
    Problem& p = k->p;
    p.W = 2;
    p.D = 2;
    p.H = c.chance(1, 4) ? c.range(2049, 2060) : c.range(1024, 1100);
    p.max_value = c.range(1, 7);
    p.s = c.pick(std::vector<double>{8, 16});
    p.c = p.s / 128;
    p.L.resize(p.pixels());
    p.R.resize(p.pixels());
    for (auto* image : {&p.L, &p.R})
        for (auto& v : *image) v = c.draw(p.max_value);
    k->threshold = p.s / 2;
    model::Csp m{p, k->threshold};
    k->initial = m.initial();
    // The first choice is made before the first solution.
    k->initial.at(0, 0, 1) = 0;
    k->closed = m.closure(k->initial);
    for (ul y = 0; y < p.H; ++y)
        for (ul x = 0; x < p.W; ++x)
            if (k->closed.count(x, y) != 1) pbt::harness_error("several nodes are left in a tall problem");
    k->greedy = k->closed;
    c.label("more rows than threads of a block");
    return k;
}

inline void prepare_device(Case& c, const GpuCase& k)
{
    device::reset();
    auto& s = device::state();
    s.policy = fibers::generate_policy(c, k.p.pixels(), 200 * k.p.pixels());
    s.garbage = static_cast<unsigned char>(c.pick(std::vector<pbt::u64>{0, 0xff, 0x01, 0xcd}));
    s.launches_limit = 40 * (k.p.pixels() + k.initial.on.size() + 4);
}
}

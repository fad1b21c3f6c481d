/*
 * Labelings searched on devices, which compute in single precision, for numbers which are not exact there (weights like 0.1).
 * The labeling may differ from the one of CPU by rounding only: it is complete, and fits the threshold up to rounding.
 */
#ifdef PBT_CUDA
#include "cuda.hpp"
#else
#include "opencl.hpp"
#endif
#include "gpu_cases.hpp"
#include "rounded.hpp"
#ifdef PBT_CUDA
#include <cuda_csp.hpp>
#else
#include <gpu_csp.hpp>
#endif
using namespace bridge;
using namespace rounded;
using namespace sp::graph::constraint;
using namespace sp::labeling::finder;
namespace pbt {
const char* const PROPERTY_ID = "C27";
const char* const PROPERTY_RULE =
    "images up to 50 nodes with decimal or random weights (1e-15 ... 1e12), a third of them with reparametrization, the minimal consistent threshold or a greater one, "
    "schedules of the device and garbage in its memory; non-trivial: some penalty is not exact in single precision, the device works, and the choice is not forced everywhere";
namespace {
double weight(Case& c)
{
    static const std::vector<double> decimals{0.1, 0.2, 0.3, 0.7, 1.1, 1.0 / 3, 2.0 / 3, 1e-3, 0.01, 3.14159, 99.9, 1e9 / 7, 1e-9, 123.456, 1e-12, 1e12 / 3, 1, 2, 16777217};
    if (c.chance(1, 2)) return c.pick(decimals);
    const double mantissa = 1 + static_cast<double>(c.draw((1ul << 52) - 1)) * 0x1p-52;
    return std::ldexp(mantissa, static_cast<int>(c.signed_range(c.chance(1, 3) ? 30 : 6)));
}
}
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 50;
    o.max_width = 8;
    o.max_height = 8;
    o.reparametrization = false;
    auto problem = std::make_shared<Problem>(model::generate(c, o));
    Problem& p = *problem;
    p.c = weight(c);
    p.s = c.chance(1, 3) ? p.c * c.pick(std::vector<double>{1, 3, 1.0 / 3, 0.1, 7}) : weight(c);
    if (c.chance(1, 12)) (c.chance(1, 2) ? p.c : p.s) = 0;
    if (c.chance(1, 4))
    {
        const double scale = std::pow(10, -static_cast<double>(c.range(1, 9)));
        p.c *= scale;
        p.s *= scale;
        if (p.c < 1e-15 && p.s < 1e-15) p.c = 1e-14;
    }
    if (c.chance(1, 3))
    {
        p.reparametrized = true;
        p.phi.assign(p.pixels() * 4 * p.D, 0);
        const double unit = std::max(p.c, p.s) * c.pick(std::vector<double>{0.1, 1, 1.0 / 3, 1e-5, 30});
        for (ul i = c.range(1, 12); i > 0; --i)
        {
            const ul x = c.draw(p.W - 1), y = c.draw(p.H - 1), d = c.draw(p.levels(x) - 1), n = c.draw(3);
            ul nx, ny;
            if (p.neighbor(x, y, n, nx, ny)) p.phi[((y * p.W + x) * 4 + n) * p.D + d] = unit * static_cast<double>(c.signed_range(1000)) / 997;
        }
    }
    const DisparityGraph g = graph(p);
    const LowestPenalties lowest{&g};
    const auto candidates = fetch_available_penalties(&lowest);
    double threshold = calculate_minimal_consistent_threshold(&lowest, &g, candidates);
    if (c.chance(1, 3)) threshold = c.chance(1, 2) ? std::max(threshold, c.pick(candidates)) : threshold * c.pick(std::vector<double>{1.0000001, 1.1, 2});
    ConstraintGraph csp{&g, &lowest, threshold};
    const bool solved = solve_csp(&csp);
    const Nodes available = nodes(p, csp);
    gpu_cases::GpuCase prepared{p, threshold, available, available, available};
#ifdef PBT_CUDA
    pbt_cuda::reset();
#else
    opencl::scratch() = std::getenv("PBT_SCRATCH") ? std::getenv("PBT_SCRATCH") : ".";
#endif
    gpu_cases::prepare_device(c, prepared);
    auto& s = device::state();
    // The search on the device, and another one for what it leaves.
    s.launches_limit *= 2;
    auto policy = s.policy;
    c.describe([problem, threshold, policy] { return problem->text() + str(" threshold=", threshold, " ", policy.text()); });
    c.label(p.reparametrized ? "reparametrized" : "of images");
    // A solution for a threshold is a matter of C14; with rounding it may be lost for a greater one.
    if (!solved)
    {
        c.label("unsolvable");
        return;
    }
    if (p.reparametrized)
    {
        // Consistent nodes may belong to no labeling then.
        ConstraintGraph copy = csp;
        if (!find_labeling(&copy))
        {
            c.label("no labeling");
            return;
        }
    }
    const Rounded m{p};
    const real tolerance = m.scale * 1e-5L;
    bool exact = true;
    m.for_nodes([&](ul x, ul y, ul d) { exact = exact && static_cast<real>(static_cast<float>(m.node(x, y, d))) == m.node(x, y, d); });
    ConstraintGraph again = csp;
    for (auto* graph : {&csp, &again})
    {
        const bool repeated = graph == &again;
#ifdef PBT_CUDA
        ConstraintGraph* result = find_labeling_cuda(graph);
#else
        ConstraintGraph* result = find_labeling_cl(graph);
#endif
        REQUIRE(result == graph, result ? "another graph is returned" : "no labeling is found", repeated ? " again" : "");
        const Nodes chosen = nodes(p, *graph);
        for (ul y = 0; y < p.H; ++y)
            for (ul x = 0; x < p.W; ++x) REQUIRE(chosen.count(x, y) == 1, "x=", x, " y=", y, " has ", chosen.count(x, y), " nodes", repeated ? " again" : "");
        REQUIRE(chosen.subset_of(available), "chosen ", chosen.text(), " of ", available.text());
        m.for_edges([&](ul x, ul y, ul n, ul d, ul nd, bool) {
            ul nx, ny;
            p.neighbor(x, y, n, nx, ny);
            if (chosen.at(x, y, d) && chosen.at(nx, ny, nd))
                REQUIRE(m.edge_excess(x, y, n, d, nd) <= threshold + tolerance, "the edge of x=", x, " y=", y, " and ", n, " is too bad: ", m.edge_excess(x, y, n, d, nd));
        });
        for (ul y = 0; y < p.H; ++y)
            for (ul x = 0; x + 1 < p.W; ++x)
                for (ul d = 0; d < p.levels(x); ++d)
                    for (ul nd = 0; nd + 1 < d && nd < p.levels(x + 1); ++nd)
                        REQUIRE(!chosen.at(x, y, d) || !chosen.at(x + 1, y, nd), "disparities of x=", x, " y=", y, " break the order");
        const Image map = build_disparity_map(graph);
        REQUIRE(map.data.size() == p.pixels(), "a wrong map");
        REQUIRE(!repeated || chosen == nodes(p, csp), "another labeling is found again: ", chosen.text(), " and ", nodes(p, csp).text());
    }
    REQUIRE(s.launches > 0, "the device is not used");
    c.nontrivial(!exact && s.switches > 0 && !(available == nodes(p, csp)));
    c.label_if(s.switches > 0, "interleaved");
    c.label(exact ? "penalties of nodes are exact" : "rounded");
}
}

/*
 * The host code runs on the stand-in of the OpenCL library, see opencl.hpp.
 */
#include "opencl.hpp"
#include "gpu_cases.hpp"

#include <gpu_csp.hpp>
using namespace bridge;
using namespace sp::labeling::finder;

namespace pbt {
const char* const PROPERTY_ID = "C20";
const char* const PROPERTY_RULE =
    "a problem, a threshold, a set of nodes, a partition of work items into groups, a schedule which switches them at single accesses to buffers, and garbage "
    "in fresh buffers; non-trivial: the set of nodes is reduced beyond the choice of the best node in each pixel, and work items were interleaved";
void property(Case& c)
{
    opencl::scratch() = std::getenv("PBT_SCRATCH") ? std::getenv("PBT_SCRATCH") : ".";
    auto k = gpu_cases::generate(c);
    const Problem& p = k->p;
    bool whole = c.chance(1, 2);
    gpu_cases::prepare_device(c, *k);
    auto policy = device::state().policy;
    c.describe([k, policy, whole] { return k->text() + str(" ", policy.text(), whole ? "; the whole search" : "; the part on the device"); });
    DisparityGraph g = graph(p);
    LowestPenalties lowest{&g};
    ConstraintGraph csp{&g, &lowest, k->threshold};
    set_nodes(k->initial, p, csp);
    ConstraintGraph reference = csp;
    auto& s = device::state();
    if (whole)
    {
        ConstraintGraph* expected = k->closed.any() ? find_labeling(&reference) : nullptr;
        ConstraintGraph* result = find_labeling_cl(&csp);
        REQUIRE((result != nullptr) == (expected != nullptr), result ? "a labeling is found" : "no labeling is found");
        if (result)
        {
            REQUIRE(result == &csp, "another graph is returned");
            Nodes actual = nodes(p, csp);
            Nodes wanted = nodes(p, reference);
            REQUIRE(actual == wanted, "left ", actual.text(), " instead of ", wanted.text());
        }
    }
    else
    {
        gpu::Problem problem;
        gpu::build_csp_program(&problem);
        gpu::prepare_problem(&csp, &problem);
        gpu::csp_solution_cl(&csp, &problem);
        Nodes actual = nodes(p, csp);
        REQUIRE(actual == k->greedy, "left ", actual.text(), " instead of ", k->greedy.text());
    }
    REQUIRE(csp.nodes_availability.size() == p.pixels() * p.D, "number of nodes has changed: ", csp.nodes_availability.size());
    c.nontrivial(s.switches > 0 && !(k->closed == k->initial) && k->closed.any());
    c.label(whole ? "the whole search" : "the part on the device");
    c.label_if(s.switches > 0, "interleaved");
    c.label_if(s.launches == 0, "nothing was launched");
}
}

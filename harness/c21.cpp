/*
 * The host code runs on the stand-in of the CUDA runtime, see cuda.hpp.
 */
#include "cuda.hpp"
#include "gpu_cases.hpp"

#include <cuda_csp.hpp>
using namespace bridge;
using namespace sp::labeling::finder;

namespace pbt {
const char* const PROPERTY_ID = "C21";
const char* const PROPERTY_RULE =
    "a problem, a threshold, a set of nodes, a schedule which switches device threads at single accesses to the device memory, and garbage in fresh memory; "
    "non-trivial: the set of nodes is reduced beyond the choice of the best node in each pixel, and threads were interleaved";
const pbt::u64 TALL = 400;        // one of so many problems has more rows than a block has threads
void property(Case& c)
{
    const bool tall = c.chance(1, TALL);
    auto k = tall ? gpu_cases::generate_tall(c) : gpu_cases::generate(c);
    const Problem& p = k->p;
    bool whole = c.chance(1, 2);
    pbt_cuda::reset();
    gpu_cases::prepare_device(c, *k);
    auto policy = device::state().policy;
    c.describe([k, policy, whole, tall] { return (tall ? k->text().substr(0, 300) + "..." : k->text()) + str(" ", policy.text(), whole ? "; the whole search" : "; the part on the device"); });
    DisparityGraph g = graph(p);
    LowestPenalties lowest{&g};
    ConstraintGraph csp{&g, &lowest, k->threshold};
    set_nodes(k->initial, p, csp);
    ConstraintGraph reference = csp;
    auto& s = device::state();
    if (tall)
    {
        s.crowds = 6;
        s.last_crowd = p.pixels();
    }
    if (tall && whole)
    {
        REQUIRE(find_labeling_cuda(&csp) == &csp, "another graph is returned, or none");
        Nodes actual = nodes(p, csp);
        if (!(actual == k->greedy)) throw pbt::Fail{"other nodes are left than disparity 0 everywhere"};
    }
    else if (whole)
    {
        ConstraintGraph* expected = k->closed.any() ? find_labeling(&reference) : nullptr;
        ConstraintGraph* result = find_labeling_cuda(&csp);
        REQUIRE((result != nullptr) == (expected != nullptr), result ? "a labeling is found" : "no labeling is found");
        if (result)
        {
            REQUIRE(result == &csp, "another graph is returned");
            Nodes actual = nodes(p, csp);
            Nodes wanted = nodes(p, reference);
            REQUIRE(actual == wanted, "left ", actual.text(), " instead of ", wanted.text());
        }
    }
    else
    {
        gpu::CUDAProblem problem;
        gpu::prepare_problem(&csp, &problem);
        gpu::csp_solution_cuda(&csp, &problem);
        gpu::free_problem(&csp, &problem);
        Nodes actual = nodes(p, csp);
        REQUIRE(actual == k->greedy, "left ", actual.text(), " instead of ", k->greedy.text());
    }
    REQUIRE(csp.nodes_availability.size() == p.pixels() * p.D, "number of nodes has changed: ", csp.nodes_availability.size());
    REQUIRE(s.buffers.empty(), s.buffers.size(), " allocations of the device memory are not released, the first is of ", s.buffers[0].size, " bytes");
    c.nontrivial(s.switches > 0 && !(k->closed == k->initial) && k->closed.any());
    c.label(whole ? "the whole search" : "the part on the device");
    c.label_if(s.switches > 0, "interleaved");
    c.label_if(s.barriers > 0, "grid barriers");
    c.label_if(s.launches == 0, "nothing was launched");
}
}

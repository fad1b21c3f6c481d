#include "csp_cases.hpp"
#include <omp.h>
using namespace bridge;
using namespace sp::graph::constraint;
namespace pbt {
const char* const PROPERTY_ID = "C13";
const char* const PROPERTY_RULE =
    "a problem, a threshold and a set of nodes, solved by the code built with OpenMP with real threads of random number; non-trivial: as above";
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 500;
    o.long_rarity = 1500;
    auto k = cases::generate(c, o);
    int threads = static_cast<int>(c.range(1, 12));
    c.describe([k, threads] { return k->text() + str(" threads=", threads); });
    const Problem& p = k->p;
    DisparityGraph g = graph(p);
    LowestPenalties lowest{&g};
    // The caller may be inside of a parallel region, where inner ones get a single thread.
    const bool nested = c.chance(1, 5);
    for (int i = 0; i < 2; ++i)
    {
        omp_set_num_threads(i == 0 ? threads : 1 + threads % 5);
        constexpr int CALLERS = 2;
        std::vector<ConstraintGraph> graphs(nested ? CALLERS : 1, ConstraintGraph{&g, &lowest, k->threshold});
        std::vector<char> answers(graphs.size(), 0);
        for (auto& csp : graphs) set_nodes(k->initial, p, csp);
        if (nested)
        {
            #pragma omp parallel for num_threads(CALLERS) schedule(static, 1)
            for (int caller = 0; caller < CALLERS; ++caller) answers[static_cast<size_t>(caller)] = solve_csp(&graphs[static_cast<size_t>(caller)]);
        }
        else answers[0] = solve_csp(&graphs[0]);
        for (size_t caller = 0; caller < graphs.size(); ++caller)
        {
            Nodes actual = bridge::nodes(p, graphs[caller]);
            REQUIRE(actual == k->expected, nested ? "inside of a parallel region " : "", "left ", actual.text(), " instead of ", k->expected.text());
            REQUIRE((answers[caller] != 0) == k->expected.any(), "answer ", static_cast<int>(answers[caller]));
        }
    }
    c.label_if(nested, "inside of a parallel region");
    c.label(threads == 1 ? "one thread" : threads <= 4 ? "2-4 threads" : "5-12 threads");
}
}

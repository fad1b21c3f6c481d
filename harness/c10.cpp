#include "repo.hpp"
using namespace bridge;
using namespace sp::labeling::finder;
namespace pbt {
const char* const PROPERTY_ID = "C10";
const char* const PROPERTY_RULE =
    "valid problems with and without reparametrization; lists of all pixels, all neighbours and the whole problem are compared with sets "
    "built by enumeration; non-trivial: the whole list has at least four candidates and some pixel has less levels than the problem";
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 300;
    o.long_rarity = 400;
    o.huge_rarity = 3000;
    o.many_levels = 60;
    auto p = std::make_shared<Problem>(model::generate(c, o));
    c.describe([p] { return p->text(); });
    DisparityGraph g = graph(*p);
    for (ul y = 0; y < p->H; ++y)
        for (ul x = 0; x < p->W; ++x)
        {
            double low = p->lowest_node(x, y);
            std::set<double> expected;
            for (ul d = 0; d < p->levels(x); ++d) expected.insert(p->node(x, y, d) - low);
            auto actual = fetch_pixel_available_penalties(&g, {x, y}, low);
            REQUIRE((std::vector<double>(expected.begin(), expected.end()) == std::vector<double>(actual.begin(), actual.end())),
                    "pixel x=", x, " y=", y, ": ", list(actual), " instead of ", list(expected));
            for (ul n = 0; n < 4; ++n)
            {
                ul nx, ny;
                if (!p->neighbor(x, y, n, nx, ny)) continue;
                low = p->lowest_edge(x, y, n);
                expected.clear();
                for (ul d = 0; d < p->levels(x); ++d)
                    for (ul nd = 0; nd < p->levels(nx); ++nd)
                        if (p->allowed(n, d, nd)) expected.insert(p->edge(x, y, n, d, nd) - low);
                actual = fetch_edge_available_penalties(&g, Edge{node(x, y, 0), node(nx, ny, 0)}, low);
                REQUIRE((std::vector<double>(expected.begin(), expected.end()) == std::vector<double>(actual.begin(), actual.end())),
                        "pair x=", x, " y=", y, " n=", n, ": ", list(actual), " instead of ", list(expected));
            }
        }
    LowestPenalties lowest{&g};
    auto all = p->candidates();
    auto actual = fetch_available_penalties(&lowest);
    REQUIRE((std::vector<double>(all.begin(), all.end()) == std::vector<double>(actual.begin(), actual.end())), "whole problem: ", list(actual), " instead of ", list(all));
    REQUIRE(!actual.empty() && actual[0] == 0, list(actual));
    c.nontrivial(all.size() >= 4);
    c.label_if(all.size() >= 16, ">= 16 candidates");
}
}

#include "csp_cases.hpp"
using namespace bridge;
using namespace sp::graph::constraint;
namespace pbt {
const char* const PROPERTY_ID = "C13";
const char* const PROPERTY_RULE =
    "a problem, a threshold and a set of nodes, solved by single iterations over random splits of rows into jobs in random order, by processing of pixels in random order, and by solve_csp; "
    "every report of a change is compared with the actual change; non-trivial: at least two rows, and some but not all nodes are removed or all are removed though every pixel had some";
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 250;
    o.long_rarity = 1500;
    auto k = cases::generate(c, o);
    auto log = std::make_shared<std::string>();
    c.describe([k, log] { return k->text() + " " + *log; });
    const Problem& p = k->p;
    DisparityGraph g = graph(p);
    LowestPenalties lowest{&g};
    ConstraintGraph csp{&g, &lowest, k->threshold};
    set_nodes(k->initial, p, csp);
    ConstraintGraph other = csp;
    Nodes before = k->initial;
    auto judge = [&](bool report, const Nodes& after, const std::string& what) {
        bool changed = !(after == before);
        // When nothing is left, the (empty) solution is found: both answers are right after a change.
        if (changed && after.any()) REQUIRE(report, what, " changed nodes but reported nothing: ", before.text(), " became ", after.text());
        if (!changed) REQUIRE(!report, what, " reported a change but made none: ", before.text());
        REQUIRE(after.subset_of(before), what, " made nodes available: ", before.text(), " became ", after.text());
        REQUIRE(k->expected.subset_of(after), what, " removed a node of the solution: ", before.text(), " became ", after.text());
        before = after;
    };
    bool pixels = c.chance(1, 3);
    if (pixels)
    {
        c.label("pixels in random order");
        *log = "pixels";
        bool changed = true;
        std::vector<ul> order(p.pixels());
        for (ul i = 0; i < order.size(); ++i) order[i] = i;
        for (ul round = 0; changed; ++round)
        {
            REQUIRE(round <= k->initial.on.size() + 2, "more than ", round, " rounds");
            changed = false;
            ul swaps = c.draw(std::min<ul>(order.size(), 12));
            for (ul i = 0; i < swaps; ++i) std::swap(order[c.draw(order.size() - 1)], order[c.draw(order.size() - 1)]);
            for (ul i : order)
            {
                ul x = i % p.W, y = i / p.W;
                bool report = csp_process_pixel(&csp, {x, y});
                Nodes after = bridge::nodes(p, csp);
                bool differs = !(after == before);
                REQUIRE(report == differs, "processing of the pixel x=", x, " y=", y, " reported ", report, ": ", before.text(), " became ", after.text());
                judge(report, after, "processing of the pixel");
                changed = changed || differs;
            }
        }
    }
    else
    {
        c.label("iterations over jobs");
        bool changed = true;
        for (ul round = 0; changed; ++round)
        {
            REQUIRE(round <= k->initial.on.size() + 2, "more than ", round, " rounds");
            changed = false;
            ul jobs = c.range(1, p.H + 2);
            std::vector<ul> order(jobs);
            for (ul i = 0; i < jobs; ++i) order[i] = i;
            for (ul i = 0; i + 1 < jobs; ++i) std::swap(order[i], order[i + c.draw(jobs - 1 - i)]);
            // Some iterations are repeated, some belong to another split.
            for (ul i : order)
            {
                if (c.chance(1, 8))
                {
                    ul extra = c.range(1, p.H + 1), number = c.draw(extra - 1);
                    *log += str("(", extra, ",", number, ")");
                    Nodes previous = before;
                    bool report = csp_solution_iteration(&csp, extra, number);
                    judge(report, bridge::nodes(p, csp), str("iteration (", extra, ",", number, ")"));
                    changed = changed || report || !(previous == before);
                }
                *log += str("(", jobs, ",", i, ")");
                Nodes previous = before;
                bool report = csp_solution_iteration(&csp, jobs, i);
                judge(report, bridge::nodes(p, csp), str("iteration (", jobs, ",", i, ")"));
                changed = changed || report || !(previous == before);
            }
        }
        c.label_if(log->size() > 30, "several rounds or jobs");
    }
    REQUIRE(before == k->expected, "left ", before.text(), " instead of ", k->expected.text());
    bool answer = solve_csp(&other);
    REQUIRE(bridge::nodes(p, other) == k->expected && answer == k->expected.any(), "solve_csp left ", bridge::nodes(p, other).text(), " instead of ", k->expected.text());
}
}

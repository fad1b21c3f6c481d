#include "csp_cases.hpp"
using namespace bridge;
using namespace sp::labeling::finder;
using sp::graph::constraint::solve_csp;
namespace pbt {
const char* const PROPERTY_ID = "C16";
const char* const PROPERTY_RULE =
    "problems without reparametrization, at the minimal threshold, one a few candidates above, or with an initial set of nodes reduced while the problem "
    "stays solvable; non-trivial: some pixel keeps at least two nodes after the CSP solution";
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 220;
    o.long_rarity = 1500;
    o.many_levels = 40;
    o.reparametrization = false;
    auto k = cases::generate_labeling(c, o);
    auto p = std::shared_ptr<Problem>(k, &k->p);
    auto initial = std::shared_ptr<Nodes>(k, &k->initial);
    double threshold = k->threshold;
    bool minimal = k->minimal;
    DisparityGraph g = graph(*p);
    LowestPenalties lowest{&g};
    ConstraintGraph csp{&g, &lowest, threshold};
    model::Csp m{*p, threshold};
    set_nodes(*initial, *p, csp);
    c.describe([p, threshold, initial] { return p->text() + str(" threshold=", threshold, " available: ") + initial->text(); });
    Nodes left = m.closure(*initial);
    c.label(minimal ? "minimal threshold" : "greater threshold");
    bool ambiguous = false;
    std::vector<ul> best(p->pixels(), 0);
    for (ul y = 0; y < p->H; ++y)
        for (ul x = 0; x < p->W; ++x)
        {
            ambiguous = ambiguous || left.count(x, y) > 1;
            ul choice = p->D;
            for (ul d = 0; d < p->levels(x); ++d)
                if (left.at(x, y, d) && (choice == p->D || p->node(x, y, d) < p->node(x, y, choice))) choice = d;
            REQUIRE(choice != p->D, "model: no available node");
            best[y * p->W + x] = choice;
        }
    c.nontrivial(ambiguous);
    c.label_if(p->pixels() <= 200 && !cases::greedy(*p, m, left).any(), "the best node belongs to no labeling");
    REQUIRE(solve_csp(&csp), "the problem is not solved");
    REQUIRE(bridge::nodes(*p, csp) == left, "CSP solution differs from the model");
    ConstraintGraph copy = csp;
    ConstraintGraph* result = find_labeling(&csp);
    REQUIRE(result != nullptr, "no labeling found");
    REQUIRE(result == &csp, "another graph is returned");
    Nodes actual = bridge::nodes(*p, csp);
    REQUIRE(actual.subset_of(left), "a node was not available: ", actual.text());
    std::vector<ul> labeling(p->pixels());
    for (ul y = 0; y < p->H; ++y)
        for (ul x = 0; x < p->W; ++x)
        {
            REQUIRE(actual.count(x, y) == 1, "pixel x=", x, " y=", y, " has ", actual.count(x, y), " nodes: ", actual.text());
            for (ul d = 0; d < p->D; ++d)
                if (actual.at(x, y, d)) labeling[y * p->W + x] = d;
        }
    REQUIRE(m.consistent(labeling), "inconsistent labeling ", list(labeling));
    if (m.consistent(best))
    {
        c.label("independent choice is consistent");
        REQUIRE(labeling == best, "labeling ", list(labeling), " instead of ", list(best));
    }
    REQUIRE(find_labeling(&copy) != nullptr && bridge::nodes(*p, copy) == actual, "the second search differs");
}
}

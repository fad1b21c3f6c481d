#include "repo.hpp"
using namespace bridge;
using namespace sp::graph::constraint;
namespace pbt {
const char* const PROPERTY_ID = "C12";
const char* const PROPERTY_RULE =
    "a problem, a threshold among achievable differences and the initial or an arbitrarily changed set of available nodes, solved by the code and by the model; "
    "small ones without reparametrization also by enumeration of labelings; non-trivial: some but not all available nodes are removed, or all "
    "nodes are removed though every pixel had some";
namespace {
ul true_cells(const ConstraintGraph& g)
{
    ul result = 0;
    for (size_t i = 0; i < g.nodes_availability.size(); ++i) result += g.nodes_availability[i] ? 1 : 0;
    return result;
}
}
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 700;
    o.long_rarity = 500;
    o.many_levels = 80;
    o.many_rarity = 600;
    auto p = std::make_shared<Problem>(model::generate(c, o));
    double threshold = c.chance(1, 2) ? model::generate_critical_threshold(c, *p) : model::generate_threshold(c, *p, o);
    DisparityGraph g = graph(*p);
    LowestPenalties lowest{&g};
    model::Csp m{*p, threshold};
    auto initial = std::make_shared<Nodes>(m.initial());
    ConstraintGraph csp{&g, &lowest, threshold};
    ul changes = c.chance(1, 2) ? 0 : c.range(1, p->pixels());
    for (ul i = 0; i < changes; ++i)
    {
        ul x = c.draw(p->W - 1), y = c.draw(p->H - 1), d = c.draw(p->levels(x) - 1);
        initial->at(x, y, d) = c.chance(1, 2) ? 1 : 0;
    }
    if (changes) set_nodes(*initial, *p, csp);
    c.describe([p, threshold, initial] { return p->text() + str(" threshold=", threshold, " available: ") + initial->text(); });
    Nodes expected = m.closure(*initial);
    bool full = true;
    for (ul y = 0; y < p->H; ++y)
        for (ul x = 0; x < p->W; ++x) full = full && initial->count(x, y) > 0;
    bool partial = expected.any() && !(expected == *initial);
    c.nontrivial(partial || (full && !expected.any()));
    c.label(!expected.any() ? "unsolvable" : partial ? "partly removed" : "nothing removed");
    ConstraintGraph start = csp;
    bool answer = solve_csp(&csp);
    Nodes actual = bridge::nodes(*p, csp);
    REQUIRE(actual == expected, "left ", actual.text(), " instead of ", expected.text());
    REQUIRE(answer == expected.any(), "answer ", answer);
    REQUIRE(true_cells(csp) == static_cast<ul>(std::count(expected.on.begin(), expected.on.end(), 1)), "nonexistent nodes became available");
    REQUIRE(csp.threshold == threshold && csp.disparity_graph == &g && csp.lowest_penalties == &lowest, "the problem is changed");
    bool again = solve_csp(&csp);
    REQUIRE(again == answer && bridge::nodes(*p, csp) == expected, "the second solution differs");
    // Independent characterization through labelings.
    if (auto all = m.enumerate(*initial, 20000))
    {
        c.label("enumerated");
        REQUIRE(all->subset_of(actual), "a node of a consistent labeling is removed: solutions use ", all->text(), " left ", actual.text());
        if (!p->reparametrized) REQUIRE(all->any() == answer, "consistent labelings exist: ", all->any(), ", answer: ", answer);
    }
    if (!p->reparametrized && answer)
    {
        // Certificate for problems which are too big for enumeration.
        std::vector<ul> labeling(p->pixels());
        for (ul i = 0; i < p->pixels(); ++i)
            while (!actual.at(i % p->W, i / p->W, labeling[i])) ++labeling[i];
        REQUIRE(m.consistent(labeling), "no labeling made of the smallest disparities");
    }
    // Monotonicity.
    ConstraintGraph greater = start;
    if (c.chance(1, 2))
    {
        greater.threshold += p->scale * static_cast<double>(c.range(1, 16)) / 4.0;
        c.label("greater threshold");
    }
    else
    {
        for (ul i = 0; i < 3; ++i)
        {
            ul x = c.draw(p->W - 1);
            make_node_available(&greater, node(x, c.draw(p->H - 1), c.draw(p->levels(x) - 1)));
        }
        c.label("greater initial set");
    }
    bool more = solve_csp(&greater);
    REQUIRE(actual.subset_of(bridge::nodes(*p, greater)) && (more || !answer), "less nodes left for a weaker problem: ", bridge::nodes(*p, greater).text(), " and ", actual.text());
}
}

#include "repo.hpp"
using namespace bridge;
using namespace sp::labeling::finder;
namespace pbt {
const char* const PROPERTY_ID = "C15";
const char* const PROPERTY_RULE =
    "valid problems with penalties of any sign, arbitrary sets of available nodes and one to four pixels to choose in; non-trivial: the pixel "
    "has at least two available nodes and the best one is not the first available";
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 700;
    o.long_rarity = 500;
    o.huge_rarity = 20000;
    o.most_levels = 270;
    auto p = std::make_shared<Problem>(model::generate(c, o));
    auto set = std::make_shared<Nodes>(*p);
    ul density = c.range(0, 10);
    for (ul y = 0; y < p->H; ++y)
        for (ul x = 0; x < p->W; ++x)
            for (ul d = 0; d < p->levels(x); ++d) set->at(x, y, d) = c.draw(9) < density;
    DisparityGraph g = graph(*p);
    LowestPenalties lowest = quick_minima(g);
    ConstraintGraph csp{&g, &lowest, c.draw(20) / 2.0};
    set_nodes(*set, *p, csp);
    auto pixels = std::make_shared<std::string>();
    c.describe([p, set, pixels] { return p->text() + " available: " + set->text() + " pixels: " + *pixels; });
    Nodes expected = *set;
    bool nontrivial = false;
    for (ul k = c.range(1, 4); k > 0; --k)
    {
        ul x = c.draw(p->W - 1), y = c.draw(p->H - 1);
        *pixels += str("(", x, ",", y, ") ");
        ul best = p->D, first = p->D, number = 0;
        bool negative = false, tie = false;
        for (ul d = 0; d < p->levels(x); ++d)
        {
            if (!expected.at(x, y, d)) continue;
            ++number;
            if (first == p->D) first = d;
            negative = negative || p->node(x, y, d) < 0;
            if (best != p->D && p->node(x, y, d) == p->node(x, y, best)) tie = true;
            if (best == p->D || p->node(x, y, d) < p->node(x, y, best)) { best = d; tie = false; }
        }
        nontrivial = nontrivial || (number >= 2 && best != first);
        c.label_if(negative, "negative penalties");
        c.label_if(tie, "equally good nodes");
        c.label_if(number == 0, "no available nodes");
        for (ul d = 0; d < p->D && number > 0; ++d) expected.at(x, y, d) = d == best;
        ConstraintGraph* result = choose_best_node(&csp, {x, y});
        REQUIRE(result == (number > 0 ? &csp : nullptr), "wrong answer for x=", x, " y=", y);
        Nodes actual = bridge::nodes(*p, csp);
        REQUIRE(actual == expected, "available ", actual.text(), " instead of ", expected.text(), " after x=", x, " y=", y);
    }
    c.nontrivial(nontrivial);
}
}

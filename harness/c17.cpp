#include "repo.hpp"
#include <stdexcept>
using namespace bridge;
using namespace sp::labeling::finder;
namespace pbt {
const char* const PROPERTY_ID = "C17";
const char* const PROPERTY_RULE =
    "valid problems with one random node available per pixel, then zero to two pixels changed to have none or several; non-trivial: at least two "
    "different disparities, or exactly one wrong pixel";
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 3000;
    o.long_rarity = 300;
    o.huge_rarity = 10000;
    o.most_levels = 280;
    auto p = std::make_shared<Problem>(model::generate(c, o));
    auto set = std::make_shared<Nodes>(*p);
    std::vector<ul> labeling(p->pixels());
    for (ul y = 0; y < p->H; ++y)
        for (ul x = 0; x < p->W; ++x)
        {
            ul d = c.chance(1, 8) ? p->levels(x) - 1 : c.draw(p->levels(x) - 1);
            labeling[y * p->W + x] = d;
            set->at(x, y, d) = 1;
        }
    ul wrong = c.weighted({3, 2, 1});
    for (ul i = 0; i < wrong; ++i)
    {
        ul x = c.draw(p->W - 1), y = c.chance(1, 3) ? p->H - 1 : c.draw(p->H - 1);
        if (c.chance(1, 2)) for (ul d = 0; d < p->D; ++d) set->at(x, y, d) = 0;
        else set->at(x, y, c.draw(p->levels(x) - 1)) = 1;
    }
    ul broken = 0;
    bool several = false;
    for (ul y = 0; y < p->H; ++y)
        for (ul x = 0; x < p->W; ++x)
        {
            broken += set->count(x, y) != 1;
            for (ul d = 0; d < p->D; ++d)
                if (set->at(x, y, d)) labeling[y * p->W + x] = d;
            several = several || set->count(x, y) > 1;
        }
    c.describe([p, set] { return str("W=", p->W, " H=", p->H, " D=", p->D, " available: ", set->text()); });
    c.nontrivial(broken == 1 || (broken == 0 && std::set<ul>(labeling.begin(), labeling.end()).size() > 1));
    c.label(broken == 0 ? "labeling" : several ? "several nodes in a pixel" : "no node in a pixel");
    DisparityGraph g = graph(*p);
    LowestPenalties lowest = quick_minima(g);
    ConstraintGraph csp{&g, &lowest, 1};
    set_nodes(*set, *p, csp);
    ConstraintGraph copy = csp;
    bool thrown = false;
    Image map{0, 0, 0, {}};
    try { map = build_disparity_map(&csp); }
    catch (const std::logic_error&) { thrown = true; }
    REQUIRE(thrown == (broken > 0), thrown ? "an error for a labeling" : "no error for a graph with wrong pixels");
    REQUIRE(bridge::nodes(*p, csp) == *set && csp.nodes_availability == copy.nodes_availability && csp.threshold == 1, "the constraint problem is changed");
    if (thrown) return;
    REQUIRE(map.width == p->W && map.height == p->H && map.max_value == p->D, "size ", map.width, "x", map.height, " max ", map.max_value);
    REQUIRE(map.data == labeling, "map ", list(map.data), " instead of ", list(labeling));
}
}

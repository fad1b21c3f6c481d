/*
 * Numbers which are not exact: weights as people write them (0.1, 1/3, 3.7e-9, 1e200), where every operation is rounded.
 * The model computes in extended precision; what it says is compared up to a tolerance which is far above rounding and far below
 * what a wrong algorithm does: sets of nodes are bounded from both sides by solutions for a slightly smaller and a slightly greater threshold.
 */
#include "rounded.hpp"
#include <set>
using namespace bridge;
using namespace rounded;
using namespace sp::graph::constraint;
using namespace sp::graph::lowest_penalties;
using namespace sp::labeling::finder;
namespace pbt {
const char* const PROPERTY_ID = "C26";
const char* const PROPERTY_RULE =
    "images up to 80 nodes with random or decimal weights of very different magnitudes (1e-15 ... 1e250, one of them may be as small as 1e-300), a third of them with random "
    "reparametrization, and thresholds near excesses; non-trivial: some penalty is not exact in double precision and the solution removes some nodes but not all";
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 80;
    o.long_rarity = 1500;
    o.max_width = 12;
    o.max_height = 9;
    o.reparametrization = false;
    auto problem = std::make_shared<Problem>(model::generate(c, o));
    Problem& p = *problem;
    p.c = any_weight(c);
    p.s = c.chance(1, 3) ? p.c * c.pick(std::vector<double>{1, 3, 1.0 / 3, 0.1, 7}) : any_weight(c);
    if (c.chance(1, 12)) (c.chance(1, 2) ? p.c : p.s) = c.pick(std::vector<double>{0, 1e-300, 1e-30});
    if (p.c < 1e-14 && p.s < 1e-14) p.c = 0.1;
    if (c.chance(1, 3))
    {
        p.reparametrized = true;
        p.phi.assign(p.pixels() * 4 * p.D, 0);
        const double unit = std::max(p.c, p.s) * c.pick(std::vector<double>{0.1, 1, 1.0 / 3, 1e-5, 30});
        for (ul i = c.range(1, 12); i > 0; --i)
        {
            const ul x = c.draw(p.W - 1), y = c.draw(p.H - 1), d = c.draw(p.levels(x) - 1), n = c.draw(3);
            ul nx, ny;
            if (p.neighbor(x, y, n, nx, ny)) p.phi[((y * p.W + x) * 4 + n) * p.D + d] = unit * static_cast<double>(c.signed_range(1000)) / 997;
        }
    }
    auto log = std::make_shared<std::string>();
    c.describe([problem, log] { return problem->text() + *log; });
    const DisparityGraph g = graph(p);
    const Rounded m{p};
    REQUIRE(std::isfinite(static_cast<double>(m.scale)), "the case is wrong");
    const real tolerance = m.scale * 1e-12L;
    // Relative to numbers which are added, if there is nothing but them.
    auto near = [&](double actual, real expected) { return std::abs(static_cast<real>(actual) - expected) <= (p.reparametrized ? tolerance : std::abs(expected) * 1e-12L); };
    auto close = [&](double actual, real expected) { return std::abs(static_cast<real>(actual) - expected) <= tolerance; };
    bool exact = true;
    m.for_nodes([&](ul x, ul y, ul d) {
        const double value = sp::graph::disparity::node_penalty(&g, node(x, y, d));
        REQUIRE(near(value, m.node(x, y, d)), "penalty of a node: ", value, " instead of ", m.node(x, y, d));
        exact = exact && value == m.node(x, y, d);
    });
    m.for_edges([&](ul x, ul y, ul n, ul d, ul nd, bool) {
        const double value = sp::graph::disparity::edge_penalty(&g, edge(p, x, y, n, d, nd));
        REQUIRE(near(value, m.edge(x, y, n, d, nd)), "penalty of an edge: ", value, " instead of ", m.edge(x, y, n, d, nd));
        exact = exact && value == m.edge(x, y, n, d, nd);
    });
    const LowestPenalties lowest{&g};
    std::vector<real> excesses;
    for (ul y = 0; y < p.H; ++y)
        for (ul x = 0; x < p.W; ++x)
        {
            REQUIRE(near(lowest_pixel_penalty(&lowest, {x, y}), m.low_node[y * p.W + x]), "lowest penalty of a pixel: ", lowest_pixel_penalty(&lowest, {x, y}));
            for (ul n = 0; n < 4; ++n)
            {
                ul nx, ny;
                if (!p.neighbor(x, y, n, nx, ny)) continue;
                const double value = lowest_neighborhood_penalty(&lowest, edge(p, x, y, n, 0, 0));
                REQUIRE(near(value, m.low_edge[(y * p.W + x) * 4 + n]), "lowest penalty of edges: ", value, " instead of ", m.low_edge[(y * p.W + x) * 4 + n]);
            }
        }
    m.for_nodes([&](ul x, ul y, ul d) { excesses.push_back(m.node_excess(x, y, d)); });
    m.for_edges([&](ul x, ul y, ul n, ul d, ul nd, bool) { excesses.push_back(m.edge_excess(x, y, n, d, nd)); });
    std::sort(excesses.begin(), excesses.end());
    const auto candidates = fetch_available_penalties(&lowest);
    REQUIRE(!candidates.empty(), "no candidates");
    for (size_t i = 0; i < candidates.size(); ++i)
    {
        REQUIRE(i == 0 || candidates[i - 1] < candidates[i], "candidates are not sorted: ", list(candidates));
        auto at = std::lower_bound(excesses.begin(), excesses.end(), static_cast<real>(candidates[i]) - tolerance);
        REQUIRE(at != excesses.end() && *at <= candidates[i] + tolerance, "candidate ", candidates[i], " is not an excess");
    }
    for (real e : excesses)
    {
        auto at = std::lower_bound(candidates.begin(), candidates.end(), static_cast<double>(e - tolerance));
        REQUIRE(at != candidates.end() && *at <= e + tolerance, "excess ", e, " is not a candidate");
    }
    // The least threshold with a solution.
    const double threshold = calculate_minimal_consistent_threshold(&lowest, &g, candidates);
    *log = str(" threshold=", threshold);
    size_t low = 0, high = excesses.size() - 1;
    while (low < high)
    {
        const size_t middle = (low + high) / 2;
        if (m.full(m.closure(excesses[middle]))) high = middle;
        else low = middle + 1;
    }
    REQUIRE(close(threshold, excesses[low]), "threshold ", threshold, " instead of ", excesses[low]);
    // Nodes for the threshold found and for another one.
    double other = static_cast<double>(c.pick(excesses)) * (1 + 0.01 * static_cast<double>(c.signed_range(3)));
    switch (c.draw(3))
    {
        case 0: { const size_t i = c.draw(candidates.size() - 1); other = i + 1 < candidates.size() ? candidates[i] / 2 + candidates[i + 1] / 2 : candidates[i] * 2; break; }
        case 1: other = c.pick(candidates); break;
        case 2: other = static_cast<double>(excesses[low]) * c.pick(std::vector<double>{0.9999, 1.0001, 0.9, 1.1, 2}); break;
        default: break;
    }
    for (double t : {threshold, other})
    {
        ConstraintGraph csp{&g, &lowest, t};
        const bool found = solve_csp(&csp);
        const Nodes actual = nodes(p, csp), least = m.closure(t - tolerance), greatest = m.closure(t + tolerance);
        if (found || m.full(least))
            REQUIRE(least.subset_of(actual) && actual.subset_of(greatest), "threshold ", t, " leaves ", actual.text(), ", bounds are ", least.text(), " and ", greatest.text());
        REQUIRE(!found || m.full(actual), "success without nodes for threshold ", t, ": ", actual.text());
        REQUIRE(found || !m.full(least), "no solution for threshold ", t);
        REQUIRE(found || t != threshold, "the threshold found has no solution");
        c.label(!found ? "unsolvable" : least == greatest ? "bounds are equal" : "bounds differ");
        c.nontrivial(!exact && found && actual.any() && std::find(actual.on.begin(), actual.on.end(), 0) != actual.on.end() && p.pixels() > 2);
    }
    c.label(exact ? "all penalties are exact" : "rounded");
    c.label(p.reparametrized ? "reparametrized" : "of images");
    if (p.reparametrized) return;
    ConstraintGraph csp{&g, &lowest, threshold};
    solve_csp(&csp);
    REQUIRE(find_labeling(&csp) == &csp, "no labeling");
    const Nodes chosen = nodes(p, csp);
    const Image map = build_disparity_map(&csp);
    for (ul y = 0; y < p.H; ++y)
        for (ul x = 0; x < p.W; ++x)
        {
            REQUIRE(chosen.count(x, y) == 1, "x=", x, " y=", y, " has ", chosen.count(x, y), " nodes");
            const ul d = map.data[y * p.W + x];
            REQUIRE(d < p.levels(x) && chosen.at(x, y, d), "the map differs from the labeling at x=", x, " y=", y);
            REQUIRE(m.node_excess(x, y, d) <= threshold + tolerance, "the node of x=", x, " y=", y, " is too bad: ", m.node_excess(x, y, d));
        }
    m.for_edges([&](ul x, ul y, ul n, ul d, ul nd, bool) {
        ul nx, ny;
        p.neighbor(x, y, n, nx, ny);
        if (chosen.at(x, y, d) && chosen.at(nx, ny, nd)) REQUIRE(m.edge_excess(x, y, n, d, nd) <= threshold + tolerance, "the edge of x=", x, " y=", y, " and ", n, " is too bad");
    });
    for (ul y = 0; y < p.H; ++y)
        for (ul x = 0; x + 1 < p.W; ++x)
            REQUIRE(map.data[y * p.W + x] <= map.data[y * p.W + x + 1] + 1, "disparities of x=", x, " y=", y, " break the order");
}
}

#include "repo.hpp"
using namespace bridge;
using namespace sp::labeling::finder;
namespace pbt {
const char* const PROPERTY_ID = "C14";
const char* const PROPERTY_RULE =
    "valid problems without reparametrization; the threshold is compared with the bottleneck optimum of the model (certified by a labeling and by "
    "refutation of the next smaller candidate, small problems also by enumeration of labelings) and with thresholds of transformed problems; "
    "non-trivial: the threshold is neither the least nor the greatest candidate";
namespace {
double find(const Problem& p)
{
    DisparityGraph g = graph(p);
    LowestPenalties lowest{&g};
    return calculate_minimal_consistent_threshold(&lowest, &g, fetch_available_penalties(&lowest));
}
}
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 260;
    o.long_rarity = 1000;
    o.many_levels = 72;
    o.reparametrization = false;
    auto p = std::make_shared<Problem>(model::generate(c, o));
    c.describe([p] { return p->text(); });
    double actual = find(*p);
    auto set = p->candidates();
    std::vector<double> all(set.begin(), set.end());
    size_t low = model::minimal_candidate(*p, all);
    double expected = all[low];
    model::Csp m{*p, expected};
    Nodes left = m.closure(m.initial());
    REQUIRE(left.any(), "model: no solution with the greatest candidate");
    std::vector<ul> labeling(p->pixels());
    for (ul i = 0; i < p->pixels(); ++i)
        while (!left.at(i % p->W, i / p->W, labeling[i])) ++labeling[i];
    REQUIRE(m.consistent(labeling), "model: no certificate");
    c.nontrivial(low > 0 && low + 1 < all.size());
    c.label(low == 0 ? "zero threshold" : low + 1 == all.size() ? "the greatest candidate" : "intermediate threshold");
    REQUIRE(actual == expected, "threshold ", actual, " instead of ", expected, ", candidates ", list(all));
    if (low > 0)
    {
        model::Csp smaller{*p, all[low - 1]};
        if (auto solutions = smaller.enumerate(smaller.initial(), 3000))
        {
            REQUIRE(!solutions->any(), "model: a labeling with a smaller threshold exists");
            c.label("refuted by enumeration");
        }
    }
    {
        // Minimum over all labelings, straight from the definition.
        double total = 1;
        for (ul i = 0; i < p->pixels(); ++i) total *= static_cast<double>(p->levels(i % p->W));
        if (total <= 800)
        {
            double best = std::numeric_limits<double>::infinity();
            std::vector<ul> l(p->pixels(), 0);
            while (true)
            {
                double worst = 0;
                for (ul y = 0; y < p->H; ++y)
                    for (ul x = 0; x < p->W; ++x)
                    {
                        ul d = l[y * p->W + x];
                        worst = std::max(worst, p->node(x, y, d) - m.low_node[y * p->W + x]);
                        for (ul n : {0ul, 2ul})
                        {
                            ul nx, ny;
                            if (!p->neighbor(x, y, n, nx, ny)) continue;
                            ul nd = l[ny * p->W + nx];
                            worst = std::max(worst, p->allowed(n, d, nd) ? p->edge(x, y, n, d, nd) - m.low_edge[(y * p->W + x) * 4 + n] : std::numeric_limits<double>::infinity());
                        }
                    }
                best = std::min(best, worst);
                ul i = 0;
                while (i < l.size() && ++l[i] == p->levels(i % p->W)) l[i++] = 0;
                if (i == l.size()) break;
            }
            REQUIRE(actual == best, "threshold ", actual, ", minimum over all labelings ", best);
            c.label("minimum over all labelings");
        }
    }
    // Metamorphic relations.
    Problem q = *p;
    switch (c.draw(3))
    {
        case 0:
        {
            double k = c.pick(std::vector<double>{2, 0.5, 3, 10, 0.25});
            q.c *= k;
            q.s *= k;
            c.label("scaled weights");
            REQUIRE(find(q) == k * actual, "weights times ", k, ": threshold ", find(q), " and ", actual);
            break;
        }
        case 1:
            for (ul y = 0; y < p->H; ++y)
                for (ul x = 0; x < p->W; ++x)
                {
                    q.L[y * p->W + x] = p->L[(p->H - 1 - y) * p->W + x];
                    q.R[y * p->W + x] = p->R[(p->H - 1 - y) * p->W + x];
                }
            c.label("upside down");
            REQUIRE(find(q) == actual, "upside down: threshold ", find(q), " and ", actual);
            break;
        case 2:
        {
            ul k = c.range(1, 1000);
            q.max_value += k;
            for (auto& v : q.L) v += k;
            for (auto& v : q.R) v += k;
            c.label("brighter");
            REQUIRE(find(q) == actual, "intensities plus ", k, ": threshold ", find(q), " and ", actual);
            break;
        }
        default:
        {
            ul k = c.range(1, 3);
            for (ul i = 0; i < k; ++i)
            {
                q.L.insert(q.L.end(), p->L.end() - p->W, p->L.end());
                q.R.insert(q.R.end(), p->R.end() - p->W, p->R.end());
            }
            q.H += k;
            c.label("equal rows appended");
            REQUIRE(find(q) == actual, k, " rows appended: threshold ", find(q), " and ", actual);
        }
    }
}
}

#include "repo.hpp"
using namespace bridge;
using namespace sp::graph::constraint;
namespace pbt {
const char* const PROPERTY_ID = "C11";
const char* const PROPERTY_RULE =
    "stateful: a problem, a threshold and 1..40 operations (make available, make unavailable, make all unavailable, queries of nodes, edges "
    "(also nonexistent), removal, remaining nodes), the whole availability is compared with the model after each; non-trivial: at least one "
    "modification and at least one of available edge and of existing edge made unavailable by the threshold were seen";
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 260;
    o.long_rarity = 800;
    o.huge_rarity = 20000;
    auto p = std::make_shared<Problem>(model::generate(c, o));
    double threshold = model::generate_threshold(c, *p, o);
    auto log = std::make_shared<std::string>();
    c.describe([p, log, threshold] { return p->text() + str(" threshold=", threshold, " operations: ") + *log; });
    DisparityGraph g = graph(*p);
    LowestPenalties lowest{&g};
    ConstraintGraph csp{&g, &lowest, threshold};
    model::Csp m{*p, threshold};
    Nodes expected = m.initial();
    auto same = [&] {
        Nodes actual = bridge::nodes(*p, csp);
        REQUIRE(actual == expected, "available ", actual.text(), " instead of ", expected.text(), " after ", *log);
        REQUIRE(check_nodes_left(&csp) == expected.any(), "after ", *log);
    };
    same();
    bool modified = false, available_edge = false, cut_edge = false, nonexistent = false, removal = false;
    ul operations = c.range(1, 40);
    for (ul i = 0; i < operations; ++i)
    {
        ul x = c.draw(p->W - 1), y = c.draw(p->H - 1), d = c.draw(p->levels(x) - 1);
        switch (c.weighted({5, 5, 12, 6, 4, 1}))
        {
            case 0:
                *log += str("available(", x, ",", y, ",", d, ") ");
                make_node_available(&csp, node(x, y, d));
                expected.at(x, y, d) = 1;
                modified = true;
                break;
            case 1:
                *log += str("unavailable(", x, ",", y, ",", d, ") ");
                make_node_unavailable(&csp, node(x, y, d));
                expected.at(x, y, d) = 0;
                modified = true;
                break;
            case 2: // edges of neighbours
            {
                ul n = c.draw(3), nx, ny;
                if (!p->neighbor(x, y, n, nx, ny)) break;
                ul nd = c.draw(p->levels(nx) - 1);
                bool fits = m.edge_fits(x, y, n, d, nd);
                bool available = fits && expected.at(x, y, d) && expected.at(nx, ny, nd);
                *log += str("edge(", x, ",", y, ",", d, " n", n, " ", nd, ") ");
                bool actual = is_edge_available(&csp, Edge{node(x, y, d), node(nx, ny, nd)});
                REQUIRE(actual == available, "after ", *log);
                available_edge = available_edge || available;
                cut_edge = cut_edge || (!fits && p->allowed(n, d, nd) && expected.at(x, y, d) && expected.at(nx, ny, nd));
                break;
            }
            case 3: // any pair of nodes
            {
                auto any = [&](ul size) { return c.chance(1, 8) ? c.pick(std::vector<ul>{~0ul, 1ul << 63, 1ul << 32, size + 1000}) : c.draw(size + 1); };
                Edge e{node(x, y, d), node(any(p->W), any(p->H), any(p->D))};
                if (c.chance(1, 3)) e.node.disparity = any(p->D);
                if (c.chance(1, 6)) e.node.pixel = {any(p->W), any(p->H)};
                if (c.chance(1, 2))
                {
                    e.neighbor.pixel = e.node.pixel;
                    switch (c.draw(3))
                    {
                        case 0: ++e.neighbor.pixel.x; break;
                        case 1: --e.neighbor.pixel.x; break;
                        case 2: ++e.neighbor.pixel.y; break;
                        default: --e.neighbor.pixel.y; break;
                    }
                }
                auto exists = [&](Node k) { return k.pixel.x < p->W && k.pixel.y < p->H && k.disparity < p->levels(k.pixel.x); };
                bool available = false, known = exists(e.node) && exists(e.neighbor);
                if (known)
                    for (ul n = 0; n < 4; ++n)
                    {
                        ul nx, ny;
                        if (p->neighbor(e.node.pixel.x, e.node.pixel.y, n, nx, ny) && nx == e.neighbor.pixel.x && ny == e.neighbor.pixel.y)
                            available = m.edge_fits(e.node.pixel.x, e.node.pixel.y, n, e.node.disparity, e.neighbor.disparity)
                                && expected.at(e.node.pixel.x, e.node.pixel.y, e.node.disparity) && expected.at(nx, ny, e.neighbor.disparity);
                    }
                nonexistent = nonexistent || !known;
                *log += str("pair(", e.node.pixel.x, ",", e.node.pixel.y, ",", e.node.disparity, " ", e.neighbor.pixel.x, ",", e.neighbor.pixel.y, ",", e.neighbor.disparity, ") ");
                REQUIRE(static_cast<bool>(is_edge_available(&csp, e)) == available, "after ", *log);
                break;
            }
            case 4:
            {
                bool remove = expected.at(x, y, d) && !m.supported(expected, x, y, d);
                *log += str("removal(", x, ",", y, ",", d, ") ");
                REQUIRE(static_cast<bool>(should_remove_node(&csp, node(x, y, d))) == remove, "after ", *log);
                removal = removal || remove;
                break;
            }
            default:
                *log += "clear ";
                make_all_nodes_unavailable(&csp);
                std::fill(expected.on.begin(), expected.on.end(), 0);
                modified = true;
        }
        same();
    }
    // Every removal and every edge in the final state.
    for (ul y = 0; y < p->H; ++y)
        for (ul x = 0; x < p->W; ++x)
            for (ul d = 0; d < p->levels(x); ++d)
            {
                bool remove = expected.at(x, y, d) && !m.supported(expected, x, y, d);
                REQUIRE(static_cast<bool>(should_remove_node(&csp, node(x, y, d))) == remove, "removal of ", x, ",", y, ",", d, " after ", *log);
                for (ul n = 0; n < 4; ++n)
                {
                    ul nx, ny;
                    if (!p->neighbor(x, y, n, nx, ny)) continue;
                    for (ul nd = 0; nd < p->levels(nx); ++nd)
                    {
                        bool available = m.edge_fits(x, y, n, d, nd) && expected.at(x, y, d) && expected.at(nx, ny, nd);
                        REQUIRE(static_cast<bool>(is_edge_available(&csp, Edge{node(x, y, d), node(nx, ny, nd)})) == available, "edge ", x, ",", y, ",", d, " n", n, " ", nd, " after ", *log);
                        available_edge = available_edge || available;
                        cut_edge = cut_edge || (!m.edge_fits(x, y, n, d, nd) && p->allowed(n, d, nd));
                    }
                }
                removal = removal || remove;
            }
    c.nontrivial(modified && available_edge && cut_edge);
    c.label_if(nonexistent, "nonexistent nodes asked");
    c.label_if(removal, "a node to be removed");
    c.label_if(operations >= 20, ">= 20 operations");
}
}

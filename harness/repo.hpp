/* Bridge between the model and the code under test. */
#pragma once
#include "model.hpp"

#include <constraint_graph.hpp>
#include <disparity_graph.hpp>
#include <image.hpp>
#include <indexing.hpp>
#include <indexing_checks.hpp>
#include <labeling_finder.hpp>
#include <lowest_penalties.hpp>
#include <types.hpp>

namespace bridge
{

using model::Nodes;
using model::Problem;
using model::ul;
using sp::graph::constraint::ConstraintGraph;
using sp::graph::disparity::DisparityGraph;
using sp::graph::lowest_penalties::LowestPenalties;
using sp::image::Image;
using sp::types::Edge;
using sp::types::Node;
using sp::types::Pixel;

inline Image left_image(const Problem& p) { return Image{p.W, p.H, p.max_value, p.L}; }
inline Image right_image(const Problem& p) { return Image{p.W, p.H, p.max_value, p.R}; }
inline Node node(ul x, ul y, ul d) { return Node{Pixel{x, y}, d}; }
inline Edge edge(const Problem& p, ul x, ul y, ul n, ul d, ul nd)
{
    ul nx, ny;
    p.neighbor(x, y, n, nx, ny);
    return Edge{node(x, y, d), node(nx, ny, nd)};
}
inline void fill_reparametrization(const Problem& p, DisparityGraph& g)
{
    if (!p.reparametrized) return;
    for (ul y = 0; y < p.H; ++y)
        for (ul x = 0; x < p.W; ++x)
            for (ul n = 0; n < 4; ++n)
                for (ul d = 0; d < p.D; ++d)
                    if (p.phi_at(x, y, n, d) != 0)
                        g.reparametrization[sp::indexing::reparametrization_index_fast(&g, node(x, y, d), n)] = p.phi_at(x, y, n, d);
}
inline DisparityGraph graph(const Problem& p)
{
    DisparityGraph g{left_image(p), right_image(p), p.D, p.c, p.s};
    fill_reparametrization(p, g);
    return g;
}
/* Minima for a constraint problem whose availability is given by the check; cheap for a lot of levels. */
inline LowestPenalties quick_minima(const DisparityGraph& g)
{
    if (g.disparity_levels < 100) return LowestPenalties{&g};
    const DisparityGraph narrow{g.left, g.right, 2, g.cleanness, g.smoothness};
    LowestPenalties result{&narrow};
    result.graph = &g;
    return result;
}
inline Nodes nodes(const Problem& p, const ConstraintGraph& g)
{
    Nodes result(p);
    for (ul y = 0; y < p.H; ++y)
        for (ul x = 0; x < p.W; ++x)
            for (ul d = 0; d < p.levels(x); ++d)
                result.at(x, y, d) = sp::graph::constraint::is_node_available(&g, node(x, y, d)) ? 1 : 0;
    return result;
}
inline void set_nodes(const Nodes& n, const Problem& p, ConstraintGraph& g)
{
    for (ul y = 0; y < p.H; ++y)
        for (ul x = 0; x < p.W; ++x)
            for (ul d = 0; d < p.levels(x); ++d)
                if (n.at(x, y, d)) sp::graph::constraint::make_node_available(&g, node(x, y, d));
                else sp::graph::constraint::make_node_unavailable(&g, node(x, y, d));
}

}

#include "repo.hpp"
using namespace bridge;
using namespace sp::indexing::checks;
namespace pbt {
const char* const PROPERTY_ID = "C06";
const char* const PROPERTY_RULE =
    "valid problem sizes with 60 random queries each: pixels, nodes, pairs near each other and near borders, outside of the image and "
    "near the limits of the integer type; non-trivial: among the queries there are existing and forbidden edges between existing nodes of neighbours";
namespace {
using wide = unsigned __int128;
bool model_pixel(const Problem& p, ul x, ul y) { return x < p.W && y < p.H; }
bool model_node(const Problem& p, Node n)
{
    return model_pixel(p, n.pixel.x, n.pixel.y) && n.disparity < p.D && static_cast<wide>(n.pixel.x) + n.disparity < p.W;
}
bool model_neighbors(const Problem& p, Pixel a, Pixel b)
{
    if (!model_pixel(p, a.x, a.y) || !model_pixel(p, b.x, b.y)) return false;
    wide dx = a.x > b.x ? a.x - b.x : b.x - a.x, dy = a.y > b.y ? a.y - b.y : b.y - a.y;
    return dx + dy == 1;
}
bool model_edge(const Problem& p, Edge e)
{
    if (!model_node(p, e.node) || !model_node(p, e.neighbor) || !model_neighbors(p, e.node.pixel, e.neighbor.pixel)) return false;
    if (e.node.pixel.y != e.neighbor.pixel.y) return true;
    const Node& left = e.node.pixel.x < e.neighbor.pixel.x ? e.node : e.neighbor;
    const Node& right = e.node.pixel.x < e.neighbor.pixel.x ? e.neighbor : e.node;
    return left.disparity <= right.disparity + 1;
}
std::string text(Node n) { return str("(x=", n.pixel.x, " y=", n.pixel.y, " d=", n.disparity, ")"); }
}
void property(Case& c)
{
    model::Options o;
    o.reparametrization = false;
    auto p = std::make_shared<Problem>();
    o.most_levels = 400;
    model::generate_size(c, *p, o);
    p->L.assign(p->pixels(), 0);
    p->R.assign(p->pixels(), 0);
    DisparityGraph g = graph(*p);
    if (c.chance(1, 8))
    {
        // Only sides are needed to know what exists.
        c.label("sides above 2^31");
        auto side = [&] { return c.chance(1, 4) ? 1 + c.draw(7) : c.pick(std::vector<ul>{1ul << 31, 1ul << 32, 1ul << 33, 1ul << 40}) + c.draw(4) - 2; };
        p->W = std::max(2ul, side());
        p->H = side();
        p->D = c.chance(1, 2) ? p->W - c.draw(std::min(p->W - 2, 4ul)) : 2 + c.draw(std::min(p->W - 2, 1000ul));
        for (auto* image : {&g.left, &g.right})
        {
            image->width = p->W;
            image->height = p->H;
        }
        g.disparity_levels = p->D;
    }
    auto log = std::make_shared<std::string>();
    c.describe([p, log] { return str("W=", p->W, " H=", p->H, " D=", p->D, " queries: ", *log); });
    auto coordinate = [&](ul size) -> ul {
        switch (c.weighted({12, 3, 1}))
        {
            case 0: return c.draw(size - 1);
            case 1: return c.chance(1, 2) ? c.draw(size + 2) : size - std::min(size, c.draw(4)) + c.draw(3);
            default: return c.pick(std::vector<ul>{~0ul, ~0ul - 1, 1ul << 63, (1ul << 63) - 1, 1ul << 32, (1ul << 32) - 1, ~0ul - size, ~0ul - size + 1});
        }
    };
    ul existing = 0, forbidden = 0, outside = 0;
    for (int i = 0; i < 60; ++i)
    {
        Node a{{coordinate(p->W), coordinate(p->H)}, coordinate(p->D)};
        Node b{{coordinate(p->W), coordinate(p->H)}, coordinate(p->D)};
        if (c.chance(3, 4))
        {
            b.pixel = a.pixel;
            switch (c.draw(3))
            {
                case 0: ++b.pixel.x; break;
                case 1: --b.pixel.x; break;
                case 2: ++b.pixel.y; break;
                default: --b.pixel.y; break;
            }
        }
        if (c.chance(1, 2)) b.disparity = a.disparity + c.draw(4) - 2;
        if (i < 2) *log += text(a) + "-" + text(b) + "; ";
        Edge e{a, b}, r{b, a};
        REQUIRE(node_exists(&g, a) == model_node(*p, a), "node ", text(a));
        REQUIRE(node_exists(&g, b) == model_node(*p, b), "node ", text(b));
        bool neighbors = model_neighbors(*p, a.pixel, b.pixel), exists = model_edge(*p, e);
        REQUIRE(neighborhood_exists(&g, a.pixel, b.pixel) == neighbors, "pixels ", text(a), " ", text(b));
        REQUIRE(neighborhood_exists(&g, b.pixel, a.pixel) == neighbors, "pixels ", text(b), " ", text(a));
        REQUIRE(edge_exists(&g, e) == exists, "edge ", text(a), " ", text(b));
        REQUIRE(edge_exists(&g, r) == exists, "edge ", text(b), " ", text(a));
        ul n = c.chance(1, 6) ? c.pick(std::vector<ul>{4, 5, 6, 255, 256, 1ul << 32, ~0ul}) : c.draw(3);
        ul nx, ny;
        bool fast = model_pixel(*p, a.pixel.x, a.pixel.y) && n < 4 && p->neighbor(a.pixel.x, a.pixel.y, n, nx, ny);
        REQUIRE(neighborhood_exists_fast(&g, a.pixel, n) == fast, "pixel ", text(a), " neighbour number ", n);
        existing += exists;
        forbidden += neighbors && !exists && model_node(*p, a) && model_node(*p, b);
        outside += !model_node(*p, a);
    }
    c.nontrivial(existing > 0 && forbidden > 0);
    c.label_if(existing > 0, "existing edges");
    c.label_if(forbidden > 0, "forbidden edges between existing nodes");
    c.label_if(outside > 0, "nonexistent nodes");
}
}

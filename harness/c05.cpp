#include "repo.hpp"
#include <algorithm>
#include <array>
#include <random>
using namespace bridge;
using namespace sp::indexing;
namespace pbt {
const char* const PROPERTY_ID = "C05";
const char* const PROPERTY_RULE =
    "valid problems of random size (2..48 columns, 1..48 rows, 2..width levels); every pixel, node, neighbourhood and reparametrization cell "
    "of the problem is enumerated; for sides of problems with more than 2^32 cells, 120000 random cells are compared; non-trivial: at least two rows, width != height and levels < width or at least four pixels";
namespace {
void distinct(std::vector<char>& used, ul index, const char* what, ul x, ul y, ul n, ul d)
{
    REQUIRE(index < used.size(), what, " index ", index, " of x=", x, " y=", y, " n=", n, " d=", d, " is outside of the array of ", used.size());
    REQUIRE(!used[index], what, " index ", index, " of x=", x, " y=", y, " n=", n, " d=", d, " is used twice");
    used[index] = 1;
}
/**
 * Sides of a problem with more than 2^32 cells are given to index functions, the arrays themselves are not allocated:
 * indices of many random coordinates are inside the arrays and do not coincide.
 */
void outlined(Case& c)
{
    Problem small;
    small.W = small.H = small.D = 2;
    small.max_value = 255;
    small.L.assign(4, 0);
    small.R.assign(4, 0);
    DisparityGraph g = graph(small);
    auto side = [&](ul bits) { return 2 + c.draw((1ul << (bits - c.draw(3))) - 2); };
    const ul W = side(21), H = side(21), D = std::min(W, side(17));
    // Some coordinates are the same for all cells, so that the others coincide more likely if they are narrowed.
    const ul frozen = c.draw(15);
    const int k = static_cast<int>(c.weighted({1, 2, 2, 5}));
    auto log = std::make_shared<std::string>(str("outlined W=", W, " H=", H, " D=", D));
    c.describe([log] { return *log; });
    c.nontrivial(W * H * D > 1ul << 32);
    c.label_if(W * H > 1ul << 32, "more than 2^32 pixels");
    c.label_if(W * H * D > 1ul << 32, "more than 2^32 nodes");
    for (auto* image : {&g.left, &g.right})
    {
        image->width = W;
        image->height = H;
    }
    g.disparity_levels = D;
    std::mt19937_64 random(c.draw(~0ul));
    using Tuple = std::array<ul, 4>;
    std::vector<Tuple> all;
    std::vector<std::pair<ul, unsigned>> order;
    const ul sizes[4] = {W * H, W * H * D, W * H * 4, W * H * 4 * D};
    static const char* const names[4] = {"pixel", "node", "neighbourhood", "reparametrization"};
    auto text = [&](const Tuple& t) { return str(names[k], " of x=", t[0], " y=", t[1], " n=", t[2], " d=", t[3]); };
    const Tuple first{random() % W, random() % H, random() % 4, random() % D};
    for (int i = 0; i < 120000; ++i)
    {
        Tuple t{random() % W, random() % H, random() % 4, random() % D};
        for (int b = 0; b < 4; ++b)
            if (frozen >> b & 1) t[b] = first[b];
        if (k == 0 || k == 2) t[3] = 0;
        if (k == 0 || k == 1) t[2] = 0;
        const Pixel pixel{t[0], t[1]};
        const Node cell = node(t[0], t[1], t[3]);
        const ul index = k == 0 ? pixel_index(&g.right, pixel) : k == 1 ? node_index(&g, cell) : k == 2 ? neighborhood_index_fast(&g, pixel, t[2]) : reparametrization_index_fast(&g, cell, t[2]);
        if (k == 0) REQUIRE(index == W * t[1] + t[0] && pixel_index(&g.left, pixel) == index, "pixel index is not row-major for ", text(t));
        REQUIRE(index < sizes[k], "index ", index, " of ", text(t), " is outside of the array of ", sizes[k]);
        all.push_back(t);
        order.push_back({index, static_cast<unsigned>(i)});
    }
    std::sort(order.begin(), order.end());
    for (size_t i = 1; i < order.size(); ++i)
    {
        const auto& t = all[order[i].second];
        const auto& o = all[order[i - 1].second];
        REQUIRE(order[i].first != order[i - 1].first || t == o, "index ", order[i].first, " of ", text(t), " is also used for ", text(o));
    }
}
}
void property(Case& c)
{
    if (c.chance(1, 1000)) return outlined(c);
    model::Options o;
    o.reparametrization = false;
    o.nodes_limit = 3000;
    o.huge_rarity = 6000;
    o.most_levels = 300;
    auto p = std::make_shared<Problem>();
    model::generate_size(c, *p, o);
    p->max_value = 255;
    p->L.resize(p->pixels());
    p->R.resize(p->pixels());
    for (ul i = 0; i < p->pixels(); ++i)
    {
        p->L[i] = (i * 7 + 3) % 251;
        p->R[i] = (i * 5 + 1) % 239;
    }
    c.describe([p] { return str("W=", p->W, " H=", p->H, " D=", p->D); });
    c.nontrivial(p->H >= 2 && p->W != p->H);
    c.label_if(p->W == p->H, "square");
    c.label_if(p->W > p->H, "landscape");
    c.label_if(p->W < p->H, "portrait");
    c.label_if(p->D < p->W, "levels < width");
    DisparityGraph g = graph(*p);
    LowestPenalties lowest = quick_minima(g);
    ConstraintGraph csp{&g, &lowest, 0};
    std::vector<char> pixels(std::min(g.right.data.size(), lowest.pixels.size()), 0), nodes(csp.nodes_availability.size(), 0),
        neighborhoods(lowest.neighborhoods.size(), 0), cells(g.reparametrization.size(), 0);
    double mark = 1;
    for (ul y = 0; y < p->H; ++y)
        for (ul x = 0; x < p->W; ++x)
        {
            ul index = pixel_index(&g.right, {x, y});
            REQUIRE(index == p->W * y + x, "pixel index is not row-major for x=", x, " y=", y);
            REQUIRE(pixel_index(&g.left, {x, y}) == index, "x=", x, " y=", y);
            distinct(pixels, index, "pixel", x, y, 0, 0);
            REQUIRE(pixel_value(&g.right, {x, y}) == p->R[y * p->W + x] && pixel_value(&g.left, {x, y}) == p->L[y * p->W + x], "x=", x, " y=", y);
            for (ul d = 0; d < p->D; ++d) distinct(nodes, node_index(&g, node(x, y, d)), "node", x, y, 0, d);
            for (ul n = 0; n < 4; ++n)
            {
                distinct(neighborhoods, neighborhood_index_fast(&g, {x, y}, n), "neighbourhood", x, y, n, 0);
                for (ul d = 0; d < p->D; ++d)
                {
                    ul cell = reparametrization_index_fast(&g, node(x, y, d), n);
                    distinct(cells, cell, "reparametrization", x, y, n, d);
                    g.reparametrization[cell] = mark++;
                }
            }
        }
    mark = 1;
    for (ul y = 0; y < p->H; ++y)
        for (ul x = 0; x < p->W; ++x)
            for (ul n = 0; n < 4; ++n)
            {
                ul nx = 0, ny = 0;
                bool exists = p->neighbor(x, y, n, nx, ny);
                if (exists)
                {
                    Pixel found = neighbor_by_index({x, y}, n);
                    REQUIRE(found.x == nx && found.y == ny, "neighbour ", n, " of x=", x, " y=", y);
                    REQUIRE(neighbor_index({x, y}, {nx, ny}) == n, "number of x=", nx, " y=", ny, " as a neighbour of x=", x, " y=", y);
                    REQUIRE(neighborhood_index(&g, {x, y}, {nx, ny}) == neighborhood_index_fast(&g, {x, y}, n), "x=", x, " y=", y, " n=", n);
                }
                for (ul d = 0; d < p->D; ++d, ++mark)
                {
                    REQUIRE(reparametrization_value_fast(&g, node(x, y, d), n) == mark, "x=", x, " y=", y, " n=", n, " d=", d);
                    if (!exists) continue;
                    ul nd = (d * 3 + x + y) % p->D;
                    Edge e{node(x, y, d), node(nx, ny, nd)};
                    ul expected = reparametrization_index_fast(&g, node(x, y, d), n);
                    REQUIRE(reparametrization_index(&g, node(x, y, d), {nx, ny}) == expected, "x=", x, " y=", y, " n=", n, " d=", d);
                    REQUIRE(reparametrization_index_slow(&g, e) == expected, "x=", x, " y=", y, " n=", n, " d=", d, " nd=", nd);
                    REQUIRE(reparametrization_value(&g, node(x, y, d), {nx, ny}) == mark, "x=", x, " y=", y, " n=", n, " d=", d);
                    REQUIRE(reparametrization_value_slow(&g, e) == mark, "x=", x, " y=", y, " n=", n, " d=", d, " nd=", nd);
                    REQUIRE(neighborhood_index_slow(&g, e) == neighborhood_index_fast(&g, {x, y}, n), "x=", x, " y=", y, " n=", n, " d=", d, " nd=", nd);
                }
            }
    for (int i = 0; i < 30; ++i)
    {
        ul x = c.draw(p->W - 1), y = c.draw(p->H - 1), ox = c.draw(p->W - 1), oy = c.draw(p->H - 1);
        if (c.chance(1, 4))
        {
            // Diagonal neighbours and pixels two steps away.
            static const int steps[8][2] = {{1, 1}, {1, -1}, {-1, 1}, {-1, -1}, {2, 0}, {-2, 0}, {0, 2}, {0, -2}};
            const auto& step = steps[c.draw(7)];
            ox = x + static_cast<ul>(static_cast<long>(step[0]));
            oy = y + static_cast<ul>(static_cast<long>(step[1]));
            if (ox >= p->W || oy >= p->H) continue;
        }
        else if (c.chance(1, 2)) { ox = std::min(p->W - 1, x + c.draw(2)); oy = std::min(p->H - 1, y + c.draw(2)); }
        ul dx = x > ox ? x - ox : ox - x, dy = y > oy ? y - oy : oy - y;
        if (dx + dy == 1) continue;
        REQUIRE(neighbor_index({x, y}, {ox, oy}) == sp::graph::disparity::NEIGHBORS_COUNT, "x=", x, " y=", y, " and x=", ox, " y=", oy, " are not adjacent");
    }
}
}

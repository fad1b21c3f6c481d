#include "csp_cases.hpp"
#include "hard.hpp"
#include "pgm.hpp"
using namespace bridge;
using namespace sp::graph::constraint;
using namespace sp::labeling::finder;
namespace pbt {
const char* const PROPERTY_ID = "C23";
const char* const PROPERTY_RULE =
    "2-4 problems handled step by step in a random order of problems (write and read images, build, minima, candidates, threshold, constraints, copies, iterations, "
    "solution, labeling, map), finished ones are replaced by others at the same addresses; everything is compared with the model and with snapshots of all objects "
    "after every step; non-trivial: steps of at least three different problems were mixed and a labeling was found";
namespace {
struct Slot
{
    int stage = 0;
    ul number = 0;
    Problem p;
    std::string texts[2];
    std::shared_ptr<Image> images[2];
    std::optional<DisparityGraph> g;
    std::optional<LowestPenalties> lowest;
    std::vector<double> kept_reparametrization, kept_pixels, kept_neighborhoods;
    double threshold = 0;
    std::optional<ConstraintGraph> csp[3];      // initial, solved, labeled
    Nodes expected[3];
    std::vector<double> candidates;
};
void verify(const Slot& s)
{
    const Problem& p = s.p;
    for (int i = 0; i < 2; ++i)
        if (s.images[i])
            REQUIRE(s.images[i]->width == p.W && s.images[i]->height == p.H && s.images[i]->max_value == p.max_value && s.images[i]->data == (i ? p.R : p.L),
                    "problem ", s.number, ": an image has changed: ", list(s.images[i]->data));
    if (s.g)
    {
        for (int i = 0; i < 2; ++i)
        {
            const Image& image = i ? s.g->right : s.g->left;
            REQUIRE(image.width == p.W && image.height == p.H && image.max_value == p.max_value && image.data == (i ? p.R : p.L),
                    "problem ", s.number, ": an image of the graph has changed: ", list(image.data));
        }
        REQUIRE(s.g->disparity_levels == p.D && s.g->cleanness == p.c && s.g->smoothness == p.s, "problem ", s.number, ": parameters have changed");
        REQUIRE(s.g->reparametrization == s.kept_reparametrization, "problem ", s.number, ": the reparametrization has changed");
    }
    if (s.lowest)
    {
        REQUIRE(s.lowest->graph == &*s.g, "problem ", s.number, ": the minima belong to another graph");
        REQUIRE(s.lowest->pixels == s.kept_pixels && s.lowest->neighborhoods == s.kept_neighborhoods, "problem ", s.number, ": the minima have changed");
    }
    for (int i = 0; i < 3; ++i)
        if (s.csp[i])
        {
            REQUIRE(s.csp[i]->disparity_graph == &*s.g && s.csp[i]->lowest_penalties == &*s.lowest && s.csp[i]->threshold == s.threshold,
                    "problem ", s.number, ": parameters of constraints have changed");
            Nodes actual = nodes(p, *s.csp[i]);
            REQUIRE(actual == s.expected[i], "problem ", s.number, ", constraints ", i, ": ", actual.text(), " instead of ", s.expected[i].text());
        }
}
Nodes labeling(Slot& s, const model::Csp& m, ConstraintGraph& csp, const Nodes& from)
{
    const Problem& p = s.p;
    REQUIRE(find_labeling(&csp) == &csp, "problem ", s.number, ": no labeling is found");
    Nodes actual = nodes(p, csp);
    std::vector<ul> chosen(p.pixels());
    REQUIRE(actual.subset_of(from), "problem ", s.number, ": a node was not available: ", actual.text());
    for (ul y = 0; y < p.H; ++y)
        for (ul x = 0; x < p.W; ++x)
        {
            REQUIRE(actual.count(x, y) == 1, "problem ", s.number, ": x=", x, " y=", y, " has ", actual.count(x, y), " nodes");
            for (ul d = 0; d < p.D; ++d)
                if (actual.at(x, y, d)) chosen[y * p.W + x] = d;
        }
    REQUIRE(m.consistent(chosen), "problem ", s.number, ": inconsistent labeling ", list(chosen));
    return actual;
}
/* One step of a problem; returns its name. */
std::string step(Case& c, Slot& s, sp::image::PGM_IO& io, ul& number, bool& labeled)
{
    Problem& p = s.p;
    switch (s.stage++)
    {
        case 0:
        {
            s = Slot{};
            s.stage = 1;
            s.number = ++number;
            model::Options o;
            o.nodes_limit = 60;
            o.max_width = 8;
            o.max_height = 8;
            s.p = c.chance(1, 8) ? hard::generate(c) : model::generate(c, o);
            p.max_value = std::min<ul>(p.max_value, 65536);
            for (auto* image : {&p.L, &p.R})
                for (auto& v : *image) v = std::min(v, p.max_value);
            for (int i = 0; i < 2; ++i)
            {
                std::ostringstream out;
                out << sp::image::PGM_IO{std::make_shared<Image>(i ? right_image(p) : left_image(p))};
                s.texts[i] = out.str();
            }
            return "write " + p.text();
        }
        case 1:
            for (int i = 0; i < 2; ++i)
            {
                std::istringstream in(s.texts[i]);
                in >> io;
                REQUIRE(in && io.get_image(), "problem ", s.number, ": an image is not read");
                s.images[i] = io.get_image();
            }
            return "read";
        case 2:
            s.g.emplace(*s.images[0], *s.images[1], p.D, p.c, p.s);
            fill_reparametrization(p, *s.g);
            s.kept_reparametrization.assign(s.g->reparametrization.begin(), s.g->reparametrization.end());
            if (c.chance(1, 2))
            {
                // Images are not needed any more.
                for (auto& image : s.images)
                {
                    if (c.chance(1, 2)) for (auto& v : image->data) v = p.max_value - v;
                    image.reset();
                }
                io = sp::image::PGM_IO{};
            }
            return "graph";
        case 3:
            s.lowest.emplace(&*s.g);
            s.kept_pixels.assign(s.lowest->pixels.begin(), s.lowest->pixels.end());
            s.kept_neighborhoods.assign(s.lowest->neighborhoods.begin(), s.lowest->neighborhoods.end());
            for (ul y = 0; y < p.H; ++y)
                for (ul x = 0; x < p.W; ++x)
                {
                    REQUIRE(lowest_pixel_penalty(&*s.lowest, Pixel{x, y}) == p.lowest_node(x, y), "problem ", s.number, ": minimum of x=", x, " y=", y);
                    for (ul n = 0; n < 4; ++n)
                    {
                        ul nx, ny;
                        if (p.neighbor(x, y, n, nx, ny))
                            REQUIRE(lowest_neighborhood_penalty_fast(&*s.lowest, Pixel{x, y}, Pixel{nx, ny}) == p.lowest_edge(x, y, n),
                                    "problem ", s.number, ": minimum of x=", x, " y=", y, " n=", n);
                    }
                }
            return "minima";
        case 4:
        {
            auto found = fetch_available_penalties(&*s.lowest);
            s.candidates.assign(found.begin(), found.end());
            auto wanted = p.candidates();
            REQUIRE(s.candidates == std::vector<double>(wanted.begin(), wanted.end()), "problem ", s.number, ": candidates ", list(s.candidates), " instead of ", list(wanted));
            return "candidates";
        }
        case 5:
        {
            size_t low = model::minimal_candidate(p, s.candidates);
            s.threshold = s.candidates[low];
            // With reparametrization the answer is defined by the search itself, the last candidate is always enough.
            double found = calculate_minimal_consistent_threshold(&*s.lowest, &*s.g, {s.candidates.begin(), s.candidates.end()});
            REQUIRE(found == s.threshold, "problem ", s.number, ": threshold ", found, " instead of ", s.threshold);
            return "threshold";
        }
        case 6:
            s.csp[0].emplace(&*s.g, &*s.lowest, s.threshold);
            s.expected[0] = model::Csp{p, s.threshold}.initial();
            return "constraints";
        case 7:
            s.csp[1] = s.csp[0];
            s.expected[1] = s.expected[0];
            return "copy";
        case 8:
        {
            model::Csp m{p, s.threshold};
            if (c.chance(1, 2))
            {
                // One pixel of a copy.
                const Pixel pixel{c.draw(p.W - 1), c.draw(p.H - 1)};
                csp_process_pixel(&*s.csp[1], pixel);
                s.expected[1] = nodes(p, *s.csp[1]);
                REQUIRE(m.closure(s.expected[0]).subset_of(s.expected[1]) && s.expected[1].subset_of(s.expected[0]), "problem ", s.number, ": a wrong node is removed");
                if (c.chance(2, 3)) s.stage = 8;
                return "pixel";
            }
            bool answer = solve_csp(&*s.csp[1]);
            s.expected[1] = m.closure(s.expected[0]);
            REQUIRE(answer == s.expected[1].any(), "problem ", s.number, ": answer ", answer);
            return "solution";
        }
        case 9:
        {
            if (!s.expected[1].any() || p.reparametrized)
            {
                s.stage = 0;
                return "end";
            }
            model::Csp m{p, s.threshold};
            s.csp[2] = s.csp[1];
            s.expected[2] = labeling(s, m, *s.csp[2], s.expected[1]);
            labeled = true;
            return "labeling";
        }
        case 10:
        {
            auto map = build_disparity_map(&*s.csp[2]);
            REQUIRE(map.width == p.W && map.height == p.H && map.max_value == p.D, "problem ", s.number, ": another size of the map");
            for (ul y = 0; y < p.H; ++y)
                for (ul x = 0; x < p.W; ++x)
                    REQUIRE(map.data[y * p.W + x] < p.D && s.expected[2].at(x, y, map.data[y * p.W + x]), "problem ", s.number, ": wrong map ", list(map.data));
            return "map";
        }
        default:
        {
            ConstraintGraph copy = *s.csp[1];
            Nodes again = labeling(s, model::Csp{p, s.threshold}, copy, s.expected[1]);
            REQUIRE(again == s.expected[2], "problem ", s.number, ": the second labeling differs: ", again.text(), " and ", s.expected[2].text());
            s.stage = 0;
            return "the same labeling";
        }
    }
}
}
void property(Case& c)
{
    std::vector<Slot> slots(c.range(2, 4));
    sp::image::PGM_IO io;
    auto log = std::make_shared<std::string>();
    c.describe([log] { return *log; });
    ul number = 0, previous = 0, mixed = 0;
    bool labeled = false;
    for (ul steps = c.range(1, 60); steps > 0; --steps)
    {
        Slot& s = slots[c.draw(slots.size() - 1)];
        *log += str("#", &s - slots.data(), " ");
        std::string name = step(c, s, io, number, labeled);
        *log += name + "; ";
        c.label(name.substr(0, name.find(' ')));
        mixed += previous && previous != s.number;
        previous = s.number;
        for (auto& other : slots) verify(other);
    }
    c.label_if(number > slots.size(), "a place is used again");
    c.nontrivial(number >= 3 && mixed >= 5 && labeled);
}
}

#include "csp_cases.hpp"
#include "hard.hpp"
#include "pgm.hpp"
#include <atomic>
#include <thread>
using namespace bridge;
using namespace sp::graph::constraint;
using namespace sp::labeling::finder;
namespace pbt {
const char* const PROPERTY_ID = "C23";
const char* const PROPERTY_RULE =
    "2-4 threads which handle problems from files to maps at the same time, some of them share the graph and the minima of one problem; built with the detector of "
    "data races, and with OpenMP; non-trivial: at least two different problems, one of which needs more than the best node of every pixel";
namespace {
struct Expected
{
    Problem p;
    std::vector<double> candidates;
    double threshold = 0;
    Nodes closure;
    std::string texts[2];
};
/* Everything what is done about a problem; returns what is wrong. */
std::string handle(const Expected& e, const DisparityGraph* shared_graph, const LowestPenalties* shared_lowest, std::vector<ul>& map)
{
    const Problem& p = e.p;
    Image images[2];
    for (int i = 0; i < 2; ++i)
    {
        std::istringstream in(e.texts[i]);
        sp::image::PGM_IO io;
        in >> io;
        if (!in || !io.get_image()) return "an image is not read";
        images[i] = *io.get_image();
        if (images[i].data != (i ? p.R : p.L)) return "another image is read";
    }
    std::optional<DisparityGraph> own_graph;
    std::optional<LowestPenalties> own_lowest;
    if (!shared_graph)
    {
        own_graph.emplace(images[0], images[1], p.D, p.c, p.s);
        shared_graph = &*own_graph;
    }
    if (!shared_lowest)
    {
        own_lowest.emplace(shared_graph);
        shared_lowest = &*own_lowest;
    }
    auto candidates = fetch_available_penalties(shared_lowest);
    if (std::vector<double>(candidates.begin(), candidates.end()) != e.candidates) return "candidates " + list(candidates) + " instead of " + list(e.candidates);
    double threshold = calculate_minimal_consistent_threshold(shared_lowest, shared_graph, candidates);
    if (threshold != e.threshold) return str("threshold ", threshold, " instead of ", e.threshold);
    ConstraintGraph csp{shared_graph, shared_lowest, threshold};
    if (!solve_csp(&csp)) return "not solved";
    Nodes left = nodes(p, csp);
    if (!(left == e.closure)) return "left " + left.text() + " instead of " + e.closure.text();
    if (!find_labeling(&csp)) return "no labeling";
    Image result = build_disparity_map(&csp);
    model::Csp m{p, threshold};
    if (result.data.size() != p.pixels()) return "another size of the map";
    for (ul i = 0; i < p.pixels(); ++i)
        if (result.data[i] >= p.levels(i % p.W) || !e.closure.at(i % p.W, i / p.W, result.data[i])) return "wrong map " + list(result.data);
    map.assign(result.data.begin(), result.data.end());
    if (!m.consistent(map)) return "inconsistent map " + list(map);
    std::ostringstream out;
    out << sp::image::PGM_IO{std::make_shared<Image>(result)};
    sp::image::Image back{0, 0, 0, {}};
    if (pgm::parse(out.str(), back) != pgm::Verdict::Good || back.data != result.data) return "another map is written: " + pgm::quoted(out.str());
    return "";
}
}
void property(Case& c)
{
    std::vector<std::shared_ptr<Expected>> problems(c.range(1, 3));
    bool greedy = true;
    for (auto& e : problems)
    {
        e = std::make_shared<Expected>();
        model::Options o;
        o.nodes_limit = 60;
        o.max_width = 8;
        o.max_height = 8;
        o.reparametrization = false;
        o.large_intensity = false;
        e->p = c.chance(1, 4) ? hard::generate(c) : model::generate(c, o);
        auto set = e->p.candidates();
        e->candidates.assign(set.begin(), set.end());
        e->threshold = e->candidates[model::minimal_candidate(e->p, e->candidates)];
        model::Csp m{e->p, e->threshold};
        e->closure = m.closure(m.initial());
        greedy = greedy && cases::greedy(e->p, m, e->closure).any();
        for (int i = 0; i < 2; ++i) e->texts[i] = pgm::layout(c, pgm::tokens(i ? right_image(e->p) : left_image(e->p)));
    }
    const ul threads = c.range(2, 4), repeats = c.range(1, 3);
    std::vector<ul> plan(threads);
    for (auto& v : plan) v = c.draw(problems.size() - 1);
    const bool share = c.chance(1, 2), share_minima = c.chance(1, 2);
    c.describe([problems, plan, repeats, share, share_minima] {
        std::string text;
        for (auto& e : problems) text += e->p.text() + "; ";
        return text + str("problems of threads ", list(plan), " repeated ", repeats, share ? "; graphs are shared" : "", share && share_minima ? " with minima" : "");
    });
    std::vector<std::unique_ptr<DisparityGraph>> graphs;
    std::vector<std::unique_ptr<LowestPenalties>> minima;
    for (auto& e : problems)
    {
        graphs.push_back(std::make_unique<DisparityGraph>(graph(e->p)));
        minima.push_back(std::make_unique<LowestPenalties>(graphs.back().get()));
    }
    std::atomic<ul> ready{0};
    std::vector<std::string> wrong(threads);
    std::vector<std::vector<ul>> maps(threads);
    std::vector<std::thread> running;
    for (ul t = 0; t < threads; ++t)
        running.emplace_back([&, t] {
            try
            {
                ++ready;
                while (ready < threads) std::this_thread::yield();
                for (ul r = 0; r < repeats && wrong[t].empty(); ++r)
                {
                    std::vector<ul> map;
                    wrong[t] = handle(*problems[plan[t]], share ? graphs[plan[t]].get() : nullptr,
                                      share && share_minima ? minima[plan[t]].get() : nullptr, map);
                    if (r > 0 && map != maps[t] && wrong[t].empty()) wrong[t] = "another map is found: " + list(map) + " and " + list(maps[t]);
                    maps[t] = map;
                }
            }
            catch (const std::exception& e) { wrong[t] = str("exception: ", e.what()); }
        });
    for (auto& t : running) t.join();
    for (ul t = 0; t < threads; ++t)
    {
        REQUIRE(wrong[t].empty(), "thread ", t, ": ", wrong[t]);
        for (ul u = 0; u < t; ++u)
            if (plan[u] == plan[t]) REQUIRE(maps[u] == maps[t], "threads ", u, " and ", t, " find different maps ", list(maps[u]), " and ", list(maps[t]));
    }
    bool different = std::set<ul>(plan.begin(), plan.end()).size() > 1;
    c.label(different ? "different problems" : "one problem");
    c.label_if(share, "shared graphs");
    c.nontrivial(different && (!greedy || std::any_of(problems.begin(), problems.end(), [](auto& e) { return e->threshold > 0; })));
}
}

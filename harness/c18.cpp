#include "cli.hpp"
#include "hard.hpp"
using namespace cli;
using model::Problem;
using model::ul;
namespace pbt {
const char* const PROPERTY_ID = "C18";
const char* const PROPERTY_RULE =
    "pairs of valid images written to files in random layouts, random weights and levels (given or omitted) in random forms of options, solved by the program built "
    "with sanitizers and again (other layout, forms, CPU technology) by it, by the program built with OpenMP, or by the one built by another compiler for release; the map is judged by the bottleneck optimum of the model; "
    "non-trivial: the optimal threshold is neither the least nor the greatest candidate";
namespace {
std::string layout_of(Case& c, ul w, ul h, ul max, const std::vector<ul>& data)
{
    sp::image::Image image{w, h, max, data};
    return pgm::layout(c, pgm::tokens(image));
}
}
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 150;
    o.long_rarity = 700;
    o.reparametrization = false;
    Problem size;
    const bool wide = c.chance(1, 20);
    if (wide)
    {
        // More than a few dozens of levels; the default number of them is the width.
        size.W = c.range(17, 36);
        size.H = 1;
        size.D = c.chance(2, 3) ? size.W : c.range(17, size.W);
        c.label("> 16 levels");
    }
    auto p = std::make_shared<Problem>(!wide && c.chance(1, 8) ? hard::generate(c) : model::generate(c, o, wide ? &size : nullptr));
    p->max_value = std::min<ul>(p->max_value, 65536);
    for (auto* image : {&p->L, &p->R})
        for (auto& v : *image) v = std::min(v, p->max_value);
    if (p->max_value <= 256 && c.chance(1, 10))
    {
        // Weights which are not exact in single precision.
        p->c = 16777216.0 + static_cast<double>(c.draw(2));
        p->s = 16777216.0 + static_cast<double>(c.draw(2));
        c.label("weights of many digits");
    }
    // Weights as people write them, where arithmetic is rounded.
    const bool rounded = c.chance(1, 6);
    if (rounded)
    {
        static const std::vector<double> decimals{0.1, 0.2, 0.3, 0.7, 1.1, 1.0 / 3, 3.14159, 0.01, 99.9, 1e-9, 1e-7 / 3, 123456.789, 1e20 / 3};
        p->c = c.pick(decimals);
        p->s = c.chance(1, 2) ? c.pick(decimals) : p->c * c.pick(std::vector<double>{1, 3, 0.1, 7});
        c.label("decimal weights");
    }
    bool with_levels = !(p->D == p->W) || c.chance(1, 2);
    bool with_c = p->c != 1 || c.chance(1, 2), with_s = p->s != 1 || c.chance(1, 2);
    c.label_if(!with_levels, "levels omitted");
    c.label_if(!with_c || !with_s, "a weight omitted");
    std::vector<std::string> names{"left.pgm", "the right.pgm", "map.pgm", "left2.pgm", "right2.pgm", "map2.pgm"};
    if (c.chance(1, 4))
    {
        // Names which some programs or shells treat in a special way.
        static const std::vector<std::string> odd{"a=b.pgm", "-left.pgm", "--map", "#1.pgm", "no extension", "two\nlines.pgm", "it's \"quoted\".pgm", "\xd0\xbc\xd0\xb0\xd0\xbf\xd0\xb0.pgm",
                                                  "$HOME;*.pgm", "back\\slash.png", " ", "%s%n.pgm", "\xff\xfe", std::string(200, 'n'), "1", "@file", "0.5,", ".hidden"};
        for (size_t i = 0; i < names.size(); ++i)
            if (c.chance(1, 2)) names[i] = str(c.pick(odd), c.draw(1) ? "" : ".", i);
        for (size_t i = 0; i < names.size(); ++i)
            for (size_t k = 0; k < i; ++k)
                if (names[i] == names[k]) names[i] += "'";
        c.label("odd names");
    }
    RemoveScratch cleanup{scratch(), names};
    auto log = std::make_shared<std::string>();
    c.describe([p, log] { return p->text() + " " + *log; });

    auto set = p->candidates();
    std::vector<double> all(set.begin(), set.end());
    size_t low = model::minimal_candidate(*p, all);
    const double optimum = all[low];
    c.nontrivial(low > 0 && low + 1 < all.size());
    c.label(low == 0 ? "zero threshold" : low + 1 == all.size() ? "the greatest candidate" : "intermediate threshold");

    auto arguments = [&](const std::string& left, const std::string& right, const std::string& map, const std::string& technology) {
        std::vector<Args> options{option(c, 'l', "left-image", left), option(c, 'r', "right-image", right), option(c, 'o', "output-image", map)};
        if (with_levels) options.push_back(option(c, 'd', "disparity-levels", std::string(c.chance(1, 8) ? "0" : "") + std::to_string(p->D)));
        if (with_c) options.push_back(option(c, 'c', "cleanness", number(c, p->c)));
        if (with_s) options.push_back(option(c, 's', "smoothness", number(c, p->s)));
        if (!technology.empty()) options.push_back(option(c, 'p', "parallel", technology));
        Args result = join(c, options);
        *log += "| " + quoted(result) + " ";
        return result;
    };
    static const std::vector<std::string> technologies{"", "", "cpu", "CPU", "omp", "OMP", "openmp", "OpenMP"};
    static const std::string program = variable("PBT_PROGRAM"), program_omp = variable("PBT_PROGRAM_OMP"), program_release = variable("PBT_PROGRAM_RELEASE");

    write_file(names[0], layout_of(c, p->W, p->H, p->max_value, p->L));
    write_file(names[1], layout_of(c, p->W, p->H, p->max_value, p->R));
    std::string target = names[2];
    switch (c.draw(5))
    {
        case 0: write_file(names[2], std::string(20000, '7')); c.label("output exists"); break;
        case 1: target = names[c.draw(1)]; c.label("output replaces an input"); break;
        default: break;
    }
    auto first = run(program, arguments(c.chance(1, 4) ? scratch() + "/" + names[0] : names[0], names[1], target, c.pick(technologies)));
    REQUIRE(!first.broken(), "the program is broken: ", first.text());
    REQUIRE(first.code == 0, "the program failed: ", first.text());
    auto text = read_file(target);
    REQUIRE(text, "no output file");
    sp::image::Image map{0, 0, 0, {}};
    REQUIRE(pgm::parse(*text, map) == pgm::Verdict::Good, "the output is not a plain PGM image: ", pgm::quoted(*text));
    REQUIRE(map.width == p->W && map.height == p->H, "size of the map: ", map.width, "x", map.height);
    REQUIRE(map.max_value == p->D, "maximal value of the map: ", map.max_value);
    for (ul i = 0; i < p->pixels(); ++i)
        REQUIRE(map.data[i] < p->levels(i % p->W), "disparity ", map.data[i], " of x=", i % p->W, " y=", i / p->W, " in ", list(map.data));
    double worst = 0;
    for (ul y = 0; y < p->H; ++y)
        for (ul x = 0; x < p->W; ++x)
        {
            ul d = map.data[y * p->W + x];
            worst = std::max(worst, p->node(x, y, d) - p->lowest_node(x, y));
            for (ul n : {0ul, 2ul})
            {
                ul nx, ny;
                if (!p->neighbor(x, y, n, nx, ny)) continue;
                ul nd = map.data[ny * p->W + nx];
                REQUIRE(p->allowed(n, d, nd), "x=", x, " y=", y, " and the neighbour ", n, " have no edge between disparities in ", list(map.data));
                worst = std::max(worst, p->edge(x, y, n, d, nd) - p->lowest_edge(x, y, n));
            }
        }
    REQUIRE(rounded ? std::abs(worst - optimum) <= 1e-9 * optimum : worst == optimum, "the greatest excess of the map is ", worst, ", the least possible is ", optimum, ": ", list(map.data));

    // The same problem given in another way.
    ul repeats = c.range(1, 2);
    for (ul k = 0; k < repeats; ++k)
    {
        for (size_t i : {3, 4, 5}) unlink((scratch() + "/" + names[i]).c_str());
        write_file(names[3], layout_of(c, p->W, p->H, p->max_value, p->L));
        write_file(names[4], layout_of(c, p->W, p->H, p->max_value, p->R));
        const ul build = c.draw(4);
        const bool omp = build < 2, release = build == 2;
        Limits limits;
        limits.threads = omp ? static_cast<int>(c.range(1, 4)) : 0;
        limits.thread_limit = omp && c.chance(1, 4) ? static_cast<int>(c.range(1, 2)) : 0;
        limits.adjusted = omp && c.chance(1, 4);
        c.label_if(limits.thread_limit > 0 && limits.thread_limit < limits.threads, "less threads are given than asked for");
        c.label(omp ? "repeated with OpenMP" : release ? "repeated with another compiler and optimisation" : "repeated");
        // Images may come from pipes, the map may go to the standard output.
        const bool piped = c.chance(1, 6), to_stdout = c.chance(1, 8);
        std::vector<Feeder> feeders(2);
        for (size_t i = 0; i < 2 && piped; ++i) feeders[i].start(names[3 + i]);
        c.label_if(piped, "images from pipes");
        c.label_if(to_stdout, "map to the standard output");
        auto second = run(omp ? program_omp : release ? program_release : program, arguments(names[3], names[4], to_stdout ? "/dev/stdout" : names[5], to_stdout ? "" : c.pick(technologies)), limits);
        REQUIRE(!second.broken() && second.code == 0, "the repeated run failed: ", second.text());
        auto other = to_stdout ? std::optional<std::string>{second.out} : read_file(names[5]);
        REQUIRE(other == text, "another map: ", pgm::quoted(other.value_or("none")), " and ", pgm::quoted(*text));
    }
}
}

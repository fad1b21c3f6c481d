/*
 * Memory which runs out, and memory which is not released: the whole program inside of the harness (lib/main.cpp with main() renamed),
 * and single steps of the library.
 */
#include "memory.hpp"
#include "cli.hpp"
#include "hard.hpp"

#include <iostream>
#include <set>

int repo_main(int argc, char* argv[]);

namespace pbt {
const char* const PROPERTY_ID = "C25";
const char* const PROPERTY_RULE =
    "launches of the program (valid ones and ones with missing or malformed images) and single steps of the library, in which the k-th allocation, all starting "
    "from it, or all larger ones than a limit fail; the same work is repeated to count blocks and descriptors which stay in use; "
    "non-trivial: an allocation failed after the images were opened, or inside of a step of the library";
namespace {
using namespace bridge;
using namespace cli;
using memory::control;
using sp::graph::constraint::solve_csp;
using sp::image::PGM_IO;

/* Keeps what is written without allocations. */
struct Sink : std::streambuf
{
    char text[4000];
    size_t size = 0;
    int_type overflow(int_type ch) override
    {
        if (size < sizeof text) text[size++] = static_cast<char>(ch);
        return traits_type::not_eof(ch);
    }
    std::string str() const { return {text, size}; }
};
Sink out_sink, err_sink;

std::string output_path;
struct FileState { bool exists; off_t size; struct timespec changed; };
FileState file_state()
{
    struct stat s{};
    if (stat(output_path.c_str(), &s) != 0) return {false, 0, {}};
    return {true, s.st_size, s.st_mtim};
}
FileState before, at_failure;
unsigned long failed_at;
void remember_output()
{
    at_failure = file_state();
    failed_at = control().requests;
}
bool same_state(const FileState& a, const FileState& b)
{
    return a.exists == b.exists && a.size == b.size && a.changed.tv_sec == b.changed.tv_sec && a.changed.tv_nsec == b.changed.tv_nsec;
}

/* Which allocations fail. */
struct Fault
{
    unsigned long first = memory::NEVER, last = memory::NEVER, largest = memory::NEVER;
    std::string text() const
    {
        return largest != memory::NEVER ? str("requests larger than ", largest) : first == memory::NEVER ? "none" : first == last ? str("request ", first) : str("requests ", first, " to ", last);
    }
};
void arm(const Fault& fault)
{
    auto& m = control();
    m.requests = m.failures = 0;
    m.first = fault.first;
    m.last = fault.last;
    m.largest = fault.largest;
    m.armed = true;
}
void disarm() { control().armed = false; }
Fault generate_fault(Case& c, unsigned long requests)
{
    Fault f;
    switch (c.weighted({5, 2, 1, 1}))
    {
        case 0: f.first = f.last = c.draw(requests - 1); break;
        case 1: f.first = c.draw(requests - 1); break;
        case 2: f.first = c.draw(requests - 1); f.last = f.first + c.draw(10); break;
        default: f.largest = c.pick(std::vector<unsigned long>{8, 16, 31, 40, 64, 100, 256, 600, 1500, 5000, 8191}); break;
    }
    return f;
}

struct Run { int code; bool thrown; std::string out, err; unsigned long requests, failures; std::string text() const { return str("exit code ", code, ", stdout ", pgm::quoted(out), ", stderr ", pgm::quoted(err)); } };
Run launch(const Args& args, const Fault& fault)
{
    Args copy = args;
    std::string name = "stereo_parallel";
    std::vector<char*> argv{name.data()};
    for (auto& a : copy) argv.push_back(a.data());
    argv.push_back(nullptr);
    out_sink.size = err_sink.size = 0;
    auto* old_out = std::cout.rdbuf(&out_sink);
    auto* old_err = std::cerr.rdbuf(&err_sink);
    std::cout.clear();
    std::cerr.clear();
    Run result{};
    control().on_failure = remember_output;
    arm(fault);
    try { result.code = repo_main(static_cast<int>(argv.size()) - 1, argv.data()); }
    catch (...) { result.thrown = true; }
    disarm();
    std::cout.rdbuf(old_out);
    std::cerr.rdbuf(old_err);
    result.out = out_sink.str();
    result.err = err_sink.str();
    result.requests = control().requests;
    result.failures = control().failures;
    return result;
}
/* Blocks and descriptors which stay in use after every repetition. */
template <class Work> void require_released(const std::string& what, Work work)
{
    work();
    long blocks[4];
    int files[4];
    for (int i = 0; i < 4; ++i)
    {
        blocks[i] = control().live;
        files[i] = memory::descriptors();
        if (i < 3) work();
    }
    REQUIRE(!(blocks[1] > blocks[0] && blocks[2] > blocks[1] && blocks[3] > blocks[2]), what, ": blocks in use after repetitions: ", blocks[0], " ", blocks[1], " ", blocks[2], " ", blocks[3]);
    REQUIRE(files[3] - files[0] < 3, what, ": descriptors in use after repetitions: ", files[0], " ", files[3]);
}

/* Requests of memory needed to write an image of this size in the most wasteful way. */
unsigned long text_requests(const Problem& p) { return p.pixels() * 2; }

void whole_program(Case& c, std::string& log)
{
    model::Options o;
    o.nodes_limit = 60;
    o.max_width = 10;
    o.max_height = 8;
    o.reparametrization = false;
    Problem p = c.chance(1, 10) ? hard::generate(c) : model::generate(c, o);
    p.max_value = std::min<ul>(p.max_value, 65536);
    for (auto* image : {&p.L, &p.R})
        for (auto& v : *image) v = std::min(v, p.max_value);
    RemoveScratch cleanup{scratch(), {"left.pgm", "right.pgm", "map.pgm"}};
    auto path = [](const char* name) { return scratch() + "/" + name; };
    write_file("left.pgm", pgm::layout(c, pgm::tokens(left_image(p))));
    write_file("right.pgm", pgm::layout(c, pgm::tokens(right_image(p))));
    std::vector<Args> options{option(c, 'l', "left-image", path("left.pgm")), option(c, 'r', "right-image", path("right.pgm")), option(c, 'o', "output-image", path("map.pgm"))};
    if (p.D != p.W || c.chance(1, 2)) options.push_back(option(c, 'd', "disparity-levels", std::to_string(p.D)));
    if (p.c != 1 || c.chance(1, 2)) options.push_back(option(c, 'c', "cleanness", number(c, p.c)));
    if (p.s != 1 || c.chance(1, 2)) options.push_back(option(c, 's', "smoothness", number(c, p.s)));
    if (c.chance(1, 3)) options.push_back(option(c, 'p', "parallel", c.pick(std::vector<std::string>{"cpu", "omp", "OpenMP"})));
    const ul broken = c.chance(1, 6) ? c.range(1, 4) : 0;
    switch (broken)
    {
        case 1: unlink(path("left.pgm").c_str()); break;
        case 2: write_file("right.pgm", "P2\n3 3\n5\n1 2 3 4 x"); break;
        case 3: write_file("left.pgm", pgm::layout(c, pgm::tokens(sp::image::Image{p.W, p.H, 0, p.L}))); break;
        case 4: options[2] = option(c, 'o', "output-image", path("missing/map.pgm")); break;
        default: break;
    }
    const Args args = join(c, options);
    log = p.text() + " | " + quoted(args);
    output_path = path("map.pgm");
    const std::string old(c.chance(1, 2) ? 3000 : 0, '7');
    auto prepare = [&] { old.empty() ? static_cast<void>(unlink(output_path.c_str())) : write_file("map.pgm", old); };
    prepare();
    auto reference = launch(args, {});
    REQUIRE(!reference.thrown && (reference.code == 0) == (broken == 0), "without faults: ", reference.text());
    auto map = read_file("map.pgm");
    c.label(broken ? "bad launch" : "valid launch");
    // The work before images are opened, which is mostly of the library of options.
    Args unreadable = args;
    for (auto& a : unreadable)
        for (size_t at; (at = a.find("left.pgm")) != std::string::npos;) a.replace(at, 8, "none.pgm");
    const unsigned long options_end = launch(unreadable, {}).requests;
    // The output may get lost by what fails while it is written: far more requests than the writing takes here.
    const unsigned long writing = 40 + text_requests(p);
    if (c.chance(1, 4))
    {
        c.label("leaks of launches");
        require_released("the program", [&] { launch(args, {}); });
    }
    for (ul rounds = c.range(3, 12); rounds > 0; --rounds)
    {
        const Fault fault = generate_fault(c, reference.requests);
        log += " | fails: " + fault.text();
        prepare();
        before = file_state();
        at_failure = before;
        auto r = launch(args, fault);
        auto text = read_file("map.pgm");
        const bool untouched = old.empty() ? !text : text == old;
        REQUIRE(!r.thrown, "an exception leaves main(); fails: ", fault.text());
        if (r.failures == 0)
        {
            REQUIRE(r.code == reference.code && text == (broken ? (old.empty() ? std::optional<std::string>{} : old) : map), "nothing failed, but: ", r.text(), "; fails: ", fault.text());
            c.label("nothing failed");
            continue;
        }
        if (r.code == 0)
        {
            REQUIRE(!broken && text == map, "success is reported with another map: ", text ? pgm::quoted(*text) : "no file", " instead of ", pgm::quoted(map.value_or("")), "; fails: ", fault.text());
            c.label("success in spite of the fault");
            continue;
        }
        const bool late = fault.first != memory::NEVER && fault.first > options_end;
        c.nontrivial(late);
        REQUIRE(r.err.find_first_not_of(" \t\r\n") != std::string::npos, "no message: ", r.text(), "; fails: ", fault.text());
        if (same_state(before, at_failure)) REQUIRE(untouched, "the output is changed after the fault: ", text ? pgm::quoted(*text) : "removed", "; fails: ", fault.text());
        else
        {
            c.label("fails when the output is open");
            REQUIRE(reference.requests < failed_at + writing, "the output is lost by a failure of request ", failed_at, " of ", reference.requests, ", long before writing; fails: ", fault.text());
        }
        c.label("the fault is reported");
        if (late && c.chance(1, 12))
        {
            c.label("leaks of failures");
            require_released(str("failure (", fault.text(), ")"), [&] { launch(args, fault); });
        }
    }
}

/* One step of the library; it returns a text of its result and may throw. */
struct Step
{
    const char* name;
    std::function<std::string(const Fault&)> work;
    std::function<void()> after_fault;
};
void library(Case& c, std::string& log)
{
    model::Options o;
    o.nodes_limit = 80;
    o.max_width = 10;
    o.max_height = 8;
    const Problem p = c.chance(1, 10) ? hard::generate(c) : model::generate(c, o);
    log = p.text();
    const Image left = left_image(p), right = right_image(p);
    const DisparityGraph g = graph(p);
    const LowestPenalties lowest{&g};
    const auto candidates = sp::labeling::finder::fetch_available_penalties(&lowest);
    const double threshold = sp::labeling::finder::calculate_minimal_consistent_threshold(&lowest, &g, candidates);
    const ConstraintGraph constraints{&g, &lowest, threshold};
    ConstraintGraph solved = constraints;
    REQUIRE(solve_csp(&solved), "no solution");
    ConstraintGraph labeled = solved;
    REQUIRE(sp::labeling::finder::find_labeling(&labeled) == &labeled, "no labeling");
    auto image_text = [](const Image& i) { return pgm::describe(i); };
    const Nodes initial_nodes = nodes(p, constraints), solved_nodes = nodes(p, solved);
    ConstraintGraph work = constraints;
    std::string text = pgm::layout(c, pgm::tokens(pgm::generate_image(c, 60)));
    const bool good = !c.chance(1, 4);
    if (!good) text += " x";
    const Image kept{2, 1, 5, {3, 4}};
    PGM_IO io;
    auto held = std::make_shared<Image>(kept);
    io.set_image(held);
    std::istringstream in;
    Sink sink;
    std::ostream out(&sink);
    auto to_write = std::make_shared<Image>(Image{std::min<ul>(p.W, 30), 2, 9, std::vector<ul>(2 * std::min<ul>(p.W, 30), 7)});
    // Only the code under test works between arm() and disarm().
    const std::vector<Step> steps{
        {"read", [&](const Fault& f) {
            in.clear();
            in.str(text);
            io.set_image(held);
            arm(f);
            in >> io;
            disarm();
            if (in.fail()) { REQUIRE(io.get_image() == held && pgm::same(*held, kept), "the held image is changed by a failure"); return std::string("failure"); }
            return image_text(*io.get_image()); },
         [&] { REQUIRE(io.get_image() == held && pgm::same(*held, kept), "the held image is changed by a failure"); }},
        {"write", [&](const Fault& f) {
            sink.size = 0;
            out.clear();
            PGM_IO writer{to_write};
            arm(f);
            out << writer;
            disarm();
            return out ? sink.str() : std::string("failure"); }, nullptr},
        {"graph", [&](const Fault& f) {
            arm(f);
            DisparityGraph made{left, right, p.D, p.c, p.s};
            disarm();
            return str(image_text(made.left), image_text(made.right), made.disparity_levels, " ", made.reparametrization.size()); }, nullptr},
        {"minima", [&](const Fault& f) { arm(f); LowestPenalties made{&g}; disarm(); return str(list(made.pixels), list(made.neighborhoods)); }, nullptr},
        {"candidates", [&](const Fault& f) { arm(f); auto made = sp::labeling::finder::fetch_available_penalties(&lowest); disarm(); return list(made); }, nullptr},
        {"threshold", [&](const Fault& f) {
            arm(f);
            const double found = sp::labeling::finder::calculate_minimal_consistent_threshold(&lowest, &g, candidates);
            disarm();
            return str(found); }, nullptr},
        {"constraints", [&](const Fault& f) { arm(f); ConstraintGraph made{&g, &lowest, threshold}; disarm(); return nodes(p, made).text(); }, nullptr},
        {"solution", [&](const Fault& f) { work = constraints; arm(f); const bool found = solve_csp(&work); disarm(); return str(found, nodes(p, work).text()); },
         [&] {
             const Nodes left_nodes = nodes(p, work);
             REQUIRE(left_nodes.subset_of(initial_nodes) && solved_nodes.subset_of(left_nodes), "wrong nodes are removed before the fault: ", left_nodes.text());
             REQUIRE(solve_csp(&work) && nodes(p, work) == solved_nodes, "the solution after the fault: ", nodes(p, work).text(), " instead of ", solved_nodes.text());
         }},
        {"labeling", [&](const Fault& f) {
            work = solved;
            arm(f);
            auto* found = sp::labeling::finder::find_labeling(&work);
            disarm();
            REQUIRE(found == &work, "no labeling");
            return nodes(p, work).text(); },
         [&] { REQUIRE(nodes(p, work).subset_of(solved_nodes), "a node was not available: ", nodes(p, work).text()); }},
        {"map", [&](const Fault& f) { arm(f); auto made = sp::labeling::finder::build_disparity_map(&labeled); disarm(); return image_text(made); }, nullptr},
        {"rejected graph", [&](const Fault& f) {
            arm(f);
            try { DisparityGraph made{left, right, p.W + 1, p.c, p.s}; }
            catch (const std::invalid_argument&) { disarm(); return std::string("rejected"); }
            disarm();
            return std::string("accepted"); }, nullptr},
    };
    for (ul rounds = c.range(2, 8); rounds > 0; --rounds)
    {
        const Step& step = c.pick(steps);
        control().on_failure = nullptr;
        step.work({});
        const std::string expected = step.work({});
        const Fault fault = generate_fault(c, std::max(1ul, control().requests));
        log += str(" | ", step.name, ", fails: ", fault.text());
        bool thrown = false;
        std::string actual;
        auto attempt = [&] {
            thrown = false;
            try { actual = step.work(fault); }
            catch (const std::bad_alloc&) { thrown = true; }
            catch (...) { disarm(); throw; }
            disarm();
        };
        attempt();
        const bool failed = control().failures > 0;
        c.label(str(step.name, !failed ? ": nothing failed" : thrown ? ": the fault is reported" : ": success in spite of the fault"));
        REQUIRE(failed || !thrown, step.name, ": out of memory without a reason");
        if (thrown)
        {
            c.nontrivial();
            if (step.after_fault) step.after_fault();
        }
        else REQUIRE(actual == expected || (failed && actual == "failure"), step.name, ": ", actual, " instead of ", expected, "; fails: ", fault.text());
        REQUIRE(step.work({}) == expected, step.name, " after the fault gives another result");
        if (c.chance(1, 6)) require_released(str(step.name, ", fails: ", fault.text()), attempt);
    }
}
}
void property(Case& c)
{
    memory::watch();
    auto log = std::make_shared<std::string>();
    c.describe([log] { return *log; });
    if (c.chance(1, 2)) library(c, *log);
    else whole_program(c, *log);
}
}

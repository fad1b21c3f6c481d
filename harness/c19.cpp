#include "cli.hpp"
using namespace cli;
using model::ul;
namespace pbt {
const char* const PROPERTY_ID = "C19";
const char* const PROPERTY_RULE =
    "a valid launch with one or two injected faults (files, images, options, numbers, output path, file size limit hit at a random byte of the output), or a request for help; "
    "non-trivial: exactly one fault, everything else is valid";
namespace {
struct Launch
{
    std::string left_text, right_text;
    bool write_left = true, write_right = true;
    std::string left = "left.pgm", right = "right.pgm", output = "map.pgm";
    std::optional<std::string> levels, cleanness, smoothness, parallel;
    bool give_left = true, give_right = true, give_output = true;
    std::vector<Args> more;
    Args last;
    long file_size = -1;
    bool writing = false;           // the failure may come while the output is being written
};
/* What no reading of a number accepts as a whole. */
std::string spoil(Case& c, std::string number)
{
    return number.insert(c.draw(number.size()), 1, c.pick(std::vector<char>{'g', ',', ';', '_', '#', '/', ':', 'z', '\'', '"', '%'}));
}
}
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 60;
    o.max_width = 12;
    o.max_height = 8;
    o.reparametrization = false;
    auto p = std::make_shared<model::Problem>(model::generate(c, o));
    p->max_value = std::min<ul>(p->max_value, 65536);
    for (auto* image : {&p->L, &p->R})
        for (auto& v : *image) v = std::min(v, p->max_value);
    sp::image::Image left{p->W, p->H, p->max_value, p->L}, right{p->W, p->H, p->max_value, p->R};
    auto log = std::make_shared<std::string>();
    c.describe([p, log] { return p->text() + " " + *log; });
    Launch launch;
    if (c.chance(1, 2)) launch.levels = std::to_string(p->D);
    if (c.chance(1, 2)) launch.cleanness = number(c, p->c + 1);
    if (c.chance(1, 2)) launch.smoothness = number(c, p->s + 1);
    if (c.chance(1, 4)) launch.parallel = c.pick(std::vector<std::string>{"cpu", "OMP", "openmp"});
    auto left_tokens = pgm::tokens(left), right_tokens = pgm::tokens(right);

    ul faults = c.weighted({1, 12, 3});     // none: help is asked
    bool help = faults == 0, repeated = false;
    bool malformed[2] = {false, false};
    std::string description;
    for (ul i = 0; i < faults; ++i)
    {
        bool on_left = c.chance(1, 2);
        auto& tokens = on_left ? left_tokens : right_tokens;
        std::string kind;
        switch (c.draw(17))
        {
            case 0:
                kind = "missing image";
                (on_left ? launch.left : launch.right) = c.pick(std::vector<std::string>{"missing.pgm", "no/such/file.pgm", "left.pgm/x", "", "/dev/null", ".", "LEFT.PGM"});
                break;
            case 1:
                kind = "required option is missing";
                switch (c.draw(2))
                {
                    case 0: launch.give_output = false; break;
                    case 1: launch.give_left = false; break;
                    default: launch.give_right = false; break;
                }
                break;
            case 2:
                kind = "malformed image";
                // The second change might repair the first one.
                if (tokens.size() < 4 || malformed[on_left]) { tokens = {"x"}; break; }
                malformed[on_left] = true;
                switch (c.draw(6))
                {
                    case 0: tokens[0] = c.pick(std::vector<std::string>{"P5", "P3", "p2", "P22", "2"}); break;
                    case 1: tokens[c.range(1, tokens.size() - 1)] = c.pick(std::vector<std::string>{"-1", "x", "1.5", "18446744073709551616", "1e1", "0x1", "+1"}); break;
                    case 2: tokens.resize(c.draw(tokens.size() - 1)); break;
                    case 3: tokens.push_back(c.pick(std::vector<std::string>{"0", "x", "1"})); break;
                    case 4: tokens[3] = "65537"; break;
                    case 5: tokens[1] = c.pick(std::vector<std::string>{"4294967296", "9223372036854775808", "18446744073709551615"}); break;
                    default: tokens[c.range(1, 2)] += "0"; break;
                }
                break;
            case 3:
                kind = "intensity above the maximal value";
                if (tokens.size() > 4) tokens[4 + c.draw(tokens.size() - 5)] = std::to_string(p->max_value + c.range(1, 3));
                else tokens.push_back("x");
                break;
            case 4:
                kind = "images do not match";
                // Only one image ever changes, so the second fault cannot make them equal again.
                switch (i == 0 ? c.draw(2) : 0)
                {
                    case 0: right.width += c.range(1, 2); break;
                    case 1: right.height += c.range(1, 2); break;
                    default: right.max_value = right.max_value == 65536 ? 65535 : right.max_value + 1; break;
                }
                right.data.assign(right.width * right.height, 0);
                right_tokens = pgm::tokens(right);
                break;
            case 5:
                kind = "zero size or maximal value";
                for (auto* t : {&left_tokens, &right_tokens})
                {
                    *t = {"P2", std::to_string(p->W), std::to_string(p->H), std::to_string(p->max_value)};
                }
                {
                    ul which = c.range(1, 3);
                    left_tokens[which] = right_tokens[which] = "0";
                    if (which == 3)
                        for (ul k = 0; k < p->pixels(); ++k) { left_tokens.push_back("0"); right_tokens.push_back("0"); }
                }
                break;
            case 6:
                kind = "unknown option";
                launch.more.push_back(c.pick(std::vector<Args>{{"--unknown"}, {"--unknown=1"}, {"-x"}, {"-x", "1"}, {"--left-images=left.pgm"}, {"-q5"}, {"--threshold", "3"}, {"--width=3"}}));
                break;
            case 7:
            {
                kind = "repeated option";
                std::string levels = launch.levels.value_or("2");
                switch (c.draw(6))
                {
                    case 0: launch.more.push_back(option(c, 'l', "left-image", "left.pgm")); break;
                    case 1: launch.more.push_back(option(c, 'r', "right-image", "right.pgm")); break;
                    case 2: launch.more.push_back(option(c, 'o', "output-image", "map.pgm")); break;
                    case 3: launch.levels = levels; launch.more.push_back(option(c, 'd', "disparity-levels", levels)); break;
                    case 4: launch.cleanness = "1"; launch.more.push_back(option(c, 'c', "cleanness", "1")); break;
                    case 5: launch.smoothness = "1"; launch.more.push_back(option(c, 's', "smoothness", "1")); break;
                    default: launch.parallel = "cpu"; launch.more.push_back(option(c, 'p', "parallel", "cpu")); break;
                }
                repeated = true;
                break;
            }
            case 8:
                kind = "invalid technology";
                if (c.chance(1, 2)) launch.parallel = c.pick(std::vector<std::string>{"gpu", "", "c", "open", "opencv", "1", "-", "tbb", "cp u", "cl", "OpenCL", "cuda"});
                else
                {
                    // No known name becomes another known one.
                    std::string name = c.pick(std::vector<std::string>{"cpu", "openmp", "omp", "CPU", "OpenMP"});
                    const ul place = c.draw(name.size());
                    if (place < name.size() && c.chance(1, 3)) name.erase(place, 1);
                    else name.insert(place, 1, c.pick(std::vector<char>{'x', '0', '1', ' ', '-', '_', 's', 'u', 'X', '.'}));
                    launch.parallel = name;
                }
                break;
            case 9:
                kind = "levels out of range";
                launch.levels = c.pick(std::vector<std::string>{"0", "1", std::to_string(p->W + 1), std::to_string(p->W + 2), std::to_string(p->W * 10), "4294967298",
                                                                "18446744073709551615", "18446744073709551618", "99999999999999999999999", "-1", "-2", "00"});
                break;
            case 10:
                kind = "levels are not a number";
                launch.levels = c.pick(std::vector<std::string>{"", "x", "2x", "2.5", "2.0", "1e0", "0x2", "two", "2,", "2 3", "--", "nan"});
                if (c.chance(1, 3)) launch.levels = spoil(c, std::to_string(p->D));
                break;
            case 11:
                kind = "negative weight";
                (c.chance(1, 2) ? launch.cleanness : launch.smoothness) = c.pick(std::vector<std::string>{"-1", "-0.5", "-0.001", "-1e-3", "-100", "-1e10"});
                break;
            case 12:
                kind = "both weights are zero";
                launch.cleanness = c.pick(std::vector<std::string>{"0", "0.0", "0e5", "00"});
                launch.smoothness = c.pick(std::vector<std::string>{"0", "0.0", ".0"});
                break;
            case 13:
                kind = "weight is not a number";
                (c.chance(1, 2) ? launch.cleanness : launch.smoothness) = c.chance(1, 3) ? spoil(c, number(c, p->c + 1)) : c.pick(std::vector<std::string>{"", "x", "1x", "1,5", "1.5.2", "nan", "NaN", "inf", "-inf", "infinity", "1e999", "--1", "1 2", "one", "1-", "e", "."});
                break;
            case 14:
                kind = "output cannot be opened";
                launch.output = c.pick(std::vector<std::string>{"no/such/map.pgm", ".", "folder", "left.pgm/map.pgm", "", "/proc/no-such-file", "folder/"});
                break;
            case 15:
                kind = "output device is full";
                launch.output = "/dev/full";
                break;
            case 16:
                kind = "file size limit";
                launch.file_size = 0;       // chosen below
                launch.writing = true;
                break;
            default:
                kind = "option without a value";
                launch.last = c.pick(std::vector<Args>{{"-l"}, {"--output-image"}, {"-d"}, {"--smoothness"}, {"-p"}, {"--parallel"}, {"-r"}, {"--right-image"}, {"-o"}, {"-c"}});
                break;
        }
        description += (i ? " + " : "") + kind;
        c.label(kind);
        c.nontrivial(faults == 1);
    }
    // The repeated option may be the one which is missing.
    if (repeated && (!launch.give_left || !launch.give_right || !launch.give_output)) launch.more.push_back({"--unknown"});
    c.label_if(faults == 2, "two faults");
    write_file("left.pgm", pgm::layout(c, left_tokens));
    write_file("right.pgm", pgm::layout(c, right_tokens));
    RemoveScratch cleanup{scratch(), {"left.pgm", "right.pgm", "map.pgm", "reference.pgm", "folder"}};
    if (mkdir((scratch() + "/folder").c_str(), 0700) != 0 && errno != EEXIST) harness_error("mkdir");
    static const std::string plain_program = variable("PBT_PROGRAM"), omp_program = variable("PBT_PROGRAM_OMP"), release_program = variable("PBT_PROGRAM_RELEASE");
    // Sanitizers stay on: the program with OpenMP only varies the build.
    const ul build = c.draw(7);
    const std::string& program = build == 0 ? omp_program : build == 1 ? release_program : plain_program;
    // The output may replace an input, which has to survive a failure.
    if (launch.output == "map.pgm" && !launch.writing && c.chance(1, 8))
    {
        launch.output = c.chance(1, 2) ? "left.pgm" : "right.pgm";
        c.label("output replaces an input");
    }
    const std::optional<std::string> given[2] = {read_file("left.pgm"), read_file("right.pgm")};

    bool output_exists = c.chance(1, 2);
    const std::string old = "old contents\n";
    if (launch.writing && faults == 1)
    {
        // The limit is below the size of the complete output.
        Args reference{"-l", "left.pgm", "-r", "right.pgm", "-o", "reference.pgm"};
        if (launch.levels) reference.insert(reference.end(), {"-d", *launch.levels});
        if (launch.cleanness) reference.insert(reference.end(), {"-c", *launch.cleanness});
        if (launch.smoothness) reference.insert(reference.end(), {"-s", *launch.smoothness});
        auto finished = run(program, reference);
        REQUIRE(!finished.broken() && finished.code == 0, "the valid launch failed: ", quoted(reference), " ", finished.text());
        auto text = read_file("reference.pgm");
        REQUIRE(text && !text->empty(), "no output of the valid launch");
        launch.file_size = static_cast<long>(c.draw(text->size() - 1));
        description += str(" ", launch.file_size, " of ", text->size(), " bytes");
    }
    if (output_exists) write_file("map.pgm", old);

    std::vector<Args> options;
    if (launch.give_left) options.push_back(option(c, 'l', "left-image", launch.left));
    if (launch.give_right) options.push_back(option(c, 'r', "right-image", launch.right));
    if (launch.give_output) options.push_back(option(c, 'o', "output-image", launch.output));
    if (launch.levels) options.push_back(option(c, 'd', "disparity-levels", *launch.levels));
    if (launch.cleanness) options.push_back(option(c, 'c', "cleanness", *launch.cleanness));
    if (launch.smoothness) options.push_back(option(c, 's', "smoothness", *launch.smoothness));
    if (launch.parallel) options.push_back(option(c, 'p', "parallel", *launch.parallel));
    for (auto& m : launch.more) options.push_back(m);
    Args arguments;
    if (help)
    {
        ul given = c.draw(options.size());
        options.resize(given);
        if (given > 0 || c.chance(1, 2)) options.push_back({c.chance(1, 2) ? "--help" : "-h"});
        c.label(options.empty() ? "no parameters" : "help");
        description = options.empty() ? "no parameters" : "help";
    }
    arguments = join(c, options);
    arguments.insert(arguments.end(), launch.last.begin(), launch.last.end());
    *log = description + " | " + quoted(arguments) + (output_exists ? " | output exists" : "");
    Limits limits;
    limits.file_size = launch.file_size;
    auto finished = run(program, arguments, limits);
    REQUIRE(!finished.broken(), "the program is broken: ", finished.text());
    auto after = read_file("map.pgm");
    for (size_t i = 0; i < 2; ++i)
        if (!launch.writing || faults > 1) REQUIRE(read_file(i ? "right.pgm" : "left.pgm") == given[i], "the ", i ? "right" : "left", " image is changed");
    bool untouched = output_exists ? after == old : !after;
    if (help)
    {
        for (const char* name : {"help", "left-image", "right-image", "output-image", "disparity-levels", "smoothness", "cleanness", "parallel"})
            REQUIRE((finished.out + finished.err).find(str("--", name)) != std::string::npos, "the option ", name, " is not described: ", finished.text());
        REQUIRE(untouched, "the output is changed");
        if (options.empty()) REQUIRE(finished.code != 0, "missing parameters are not reported: ", finished.text());
        else REQUIRE(finished.code == 0, "the request for help failed: ", finished.text());
        return;
    }
    REQUIRE(finished.code != 0, "the failure is not reported: ", finished.text());
    REQUIRE(finished.err.find_first_not_of(" \t\r\n") != std::string::npos, "no message: ", finished.text());
    if (!launch.writing) REQUIRE(untouched, "the output is changed: ", pgm::quoted(after.value_or("removed")));
}
}

/*
 * The program built with OpenCL, and the program built with CUDA, on stand-ins of devices, see device_program.hpp.
 */
#include "device_program.hpp"
using namespace device_program;

namespace pbt {
const char* const PROPERTY_ID = "C22";
const char* const PROPERTY_RULE =
    "one or two problems in files, solved by one process of the program on CPU and on the device in random order, with random forms of options, schedules of the device "
    "and garbage in its memory; non-trivial: device threads were interleaved and the map is not constant";
void property(Case& c)
{
    auto log = std::make_shared<std::string>();
    c.describe([log] { return *log; });
    cli::RemoveScratch cleanup{cli::scratch(), {"left.pgm", "right.pgm", "map.pgm"}};
    for (ul rounds = c.range(1, 2); rounds > 0; --rounds)
    {
        const Problem p = generate(c);
        *log += p.text() + " ";
        cli::write_file("left.pgm", layout(c, p, true));
        cli::write_file("right.pgm", layout(c, p, false));
        std::vector<std::string> technologies{c.pick(CPU), c.pick(TECHNOLOGIES)};
        if (c.chance(1, 2)) std::swap(technologies[0], technologies[1]);
        if (c.chance(1, 4)) technologies.push_back(c.pick(TECHNOLOGIES));
        if (c.chance(1, 6)) technologies.insert(technologies.begin() + static_cast<long>(c.draw(technologies.size())), c.pick(UNAVAILABLE));
        std::optional<std::string> map;
        for (auto& technology : technologies)
        {
            reset(c, p);
            const bool exists = c.chance(1, 4);
            const std::string old(3000, '7');
            if (exists) cli::write_file("map.pgm", old);
            else unlink(path("map.pgm").c_str());
            auto args = arguments(c, p, "left.pgm", "right.pgm", "map.pgm", technology);
            *log += "| " + cli::quoted(args) + " " + device::state().policy.text() + " ";
            auto finished = run(args);
            auto& s = device::state();
            REQUIRE(s.failure.empty(), s.failure, "; ", finished.text());
            auto text = cli::read_file("map.pgm");
            if (std::find(UNAVAILABLE.begin(), UNAVAILABLE.end(), technology) != UNAVAILABLE.end())
            {
                c.label("a technology which is not built in");
                REQUIRE(finished.code != 0 && !finished.err.empty(), technology, " is accepted: ", finished.text());
                REQUIRE(exists ? text == old : !text, "the output is touched by a failure");
                continue;
            }
            REQUIRE(finished.code == 0, technology, " failed: ", finished.text());
            REQUIRE(text, "no output file");
            const bool device = std::find(TECHNOLOGIES.begin(), TECHNOLOGIES.end(), technology) != TECHNOLOGIES.end();
            c.label_if(device && s.launches > 0, "the device works");
            REQUIRE(device || s.launches == 0, "the device is used for ", technology);
            REQUIRE(!device || s.launches > 0, "the device is not used for ", technology);
            if (!map)
            {
                sp::image::Image image{0, 0, 0, {}};
                REQUIRE(pgm::parse(*text, image) == pgm::Verdict::Good && image.width == p.W && image.height == p.H && image.max_value == p.D,
                        "the output is not a disparity map: ", pgm::quoted(*text));
                map = text;
            }
            else REQUIRE(text == map, technology, " gives another map: ", pgm::quoted(*text), " and ", pgm::quoted(*map));
            if (device && s.switches > 0)
            {
                sp::image::Image image{0, 0, 0, {}};
                pgm::parse(*text, image);
                c.nontrivial(image.data != std::vector<ul>(p.pixels(), image.data[0]));
                c.label("interleaved");
            }
#ifdef PBT_CUDA
            REQUIRE(s.buffers.empty(), s.buffers.size(), " allocations of the device memory are not released");
#endif
        }
    }
}
}

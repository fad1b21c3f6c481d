#include "repo.hpp"
using namespace bridge;
namespace pbt {
const char* const PROPERTY_ID = "C04";
const char* const PROPERTY_RULE =
    "images of random size (0..40 by 0..40 and long strips), maximal value from 0 to 2^64-1 and random, boundary or single offending "
    "intensities; non-trivial: at least two pixels and either exactly one offending pixel or an intensity equal to the maximal value";
void property(Case& c)
{
    auto image = std::make_shared<Image>();
    const bool big = c.chance(1, 60);
    const bool huge = c.chance(1, 3000);
    if (huge)
    {
        switch (c.draw(2))
        {
            case 0: image->width = c.range(65536, 65540); image->height = c.range(1, 2); break;
            case 1: image->width = c.range(1, 2); image->height = c.range(65536, 65540); break;
            default: image->width = c.range(256, 300); image->height = c.range(256, 300); break;
        }
        c.label("more than 65535 pixels");
    }
    else if (big) { image->width = c.range(41, 200); image->height = c.range(41, 200); c.label("big"); }
    else switch (c.weighted({6, 3, 2, 1}))
    {
        case 0: image->width = c.draw(6); image->height = c.draw(6); break;
        case 1: image->width = c.draw(40); image->height = c.draw(40); break;
        case 2: image->width = c.range(1, 3); image->height = c.draw(300); break;
        default: image->width = c.draw(300); image->height = c.range(1, 3); break;
    }
    image->max_value = c.pick(std::vector<ul>{0, 1, 2, 5, 255, 256, 65535, 65536, 65537, 1ul << 31, (1ul << 32) - 1, 1ul << 32, (1ul << 32) + 3, ~0ul - 1, ~0ul});
    if (c.chance(1, 4)) image->max_value = c.draw(300);
    const ul size = image->width * image->height;
    const ul max = image->max_value;
    image->data.assign(size, 0);
    const ul base = c.pick(std::vector<ul>{0, max, max / 2});
    if (big || huge)
        for (auto& v : image->data) v = base;
    else
        for (auto& v : image->data) v = c.chance(1, 3) ? (max == 0 ? 0 : c.draw(max)) : base;
    if (c.chance(1, 4))
        for (auto& v : image->data) v = max;
    ul offending = 0;
    if (size > 0 && max < ~0ul)
    {
        switch (c.weighted({4, 4, 1}))
        {
            case 0: break;
            case 1: offending = 1; break;
            default: offending = c.range(1, 4); break;
        }
        for (ul i = 0; i < offending; ++i)
        {
            ul position = c.weighted({3, 1, 1}) == 0 ? c.draw(size - 1) : (c.chance(1, 2) ? size - 1 : 0);
            ul excess = c.chance(1, 2) ? 1 + c.draw(std::min<ul>(~0ul - max, 1ul << 40) - 1) : 1;
            image->data[position] = max + excess;
        }
    }
    bool expected = image->width > 0 && image->height > 0 && max > 0;
    ul bad = 0;
    bool touches = false;
    for (ul v : image->data)
    {
        bad += v > max;
        touches = touches || v == max;
    }
    expected = expected && bad == 0;
    c.describe([image] { return str("width=", image->width, " height=", image->height, " max=", image->max_value, " data=", image->data.size() > 1000 ? std::string("...") : list(image->data)); });
    c.nontrivial(size >= 2 && (bad == 1 || touches));
    c.label(expected ? "valid" : "invalid");
    c.label_if(bad == 1, "one offending pixel");
    Image copy = *image;
    bool actual = sp::image::image_valid(&copy);
    REQUIRE(actual == expected, "image_valid says ", actual);
    REQUIRE(copy.width == image->width && copy.height == image->height && copy.max_value == max && copy.data == image->data, "the image is modified");
}
}

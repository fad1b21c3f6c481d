#include "repo.hpp"
#include <stdexcept>
using namespace bridge;
namespace pbt {
const char* const PROPERTY_ID = "C07";
const char* const PROPERTY_RULE =
    "a valid problem with zero to three broken conditions (boundary and far values of levels, sizes, maximal values, intensities, weights); "
    "non-trivial: exactly one condition is broken, or none while the number of levels is at its boundary or a weight is zero";
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 1500;
    o.huge_rarity = 20000;
    auto p = std::make_shared<Problem>();
    model::generate_size(c, *p, o);
    model::generate_images(c, *p, o);
    model::generate_weights(c, *p, o);
    auto l = std::make_shared<Image>(left_image(*p)), r = std::make_shared<Image>(right_image(*p));
    ul D = p->D;
    double cleanness = p->c, smoothness = p->s;
    if (c.chance(1, 6)) { cleanness = 0; if (smoothness == 0) smoothness = 1; }
    else if (c.chance(1, 6)) { smoothness = 0; if (cleanness == 0) cleanness = 1; }
    if (c.chance(1, 5))
    {
        // Weights near the machine precision are correct, negative zero is zero.
        (c.chance(1, 2) ? cleanness : smoothness) = c.pick(std::vector<double>{0x1p-10, 0x1p-20, 0x1p-30, 0x1p-49, 0x1.8p-49, 0x1p-52, 0x1p-52, 0x1.8p-53, 1e-300, 1e12});
        if (c.chance(1, 2)) (c.chance(1, 2) ? cleanness : smoothness) = c.chance(1, 2) ? 0.0 : -0.0;
        // The machine precision itself is 2^-52.
        if (cleanness < 0x1p-52 && smoothness < 0x1p-52) cleanness = 0x1p-52;
        c.label("small weights");
    }
    ul breaks = c.weighted({3, 5, 1, 1});
    std::string broken;
    for (ul i = 0; i < breaks; ++i)
    {
        auto& image = c.chance(1, 2) ? r : l;
        switch (c.draw(14))
        {
            case 0: D = c.draw(1); broken += " few-levels"; break;
            case 1: D = l->width + 1 + (c.chance(1, 2) ? c.draw(3) : 0); broken += " many-levels"; break;
            case 2: D = c.pick(std::vector<ul>{~0ul, 1ul << 32, 1ul << 63}); broken += " huge-levels"; break;
            case 3: image->data.resize(image->data.size() + image->height, 0); ++image->width; broken += " width"; break;
            case 4: image->data.resize(image->data.size() + image->width, 0); ++image->height; broken += " height"; break;
            case 5: ++image->max_value; broken += " max-value"; break;
            case 6: image->max_value = 0; broken += " zero-max"; break;
            case 7: if (!image->data.empty()) image->data[c.draw(image->data.size() - 1)] = image->max_value + 1 + c.draw(3); broken += " intensity"; break;
            case 8: image->width = 0; image->data.clear(); broken += " zero-width"; break;
            case 9: image->height = 0; image->data.clear(); broken += " zero-height"; break;
            case 12:
                // Lower maximal value, intensities still fit.
                if (image->max_value > 1) --image->max_value;
                for (auto& v : image->data) v = std::min(v, image->max_value);
                broken += " lower-max";
                break;
            case 13: { ul k = c.range(1, std::max<ul>(1, image->width)); for (ul i = 0; i < image->height; ++i) image->data.resize(image->data.size() + k, 0); image->width += k; broken += " far-width"; break; }
            case 14:
                if (image->height > 1) { --image->height; image->data.resize(image->width * image->height); }
                broken += " less-rows";
                break;
            case 10: (c.chance(1, 2) ? cleanness : smoothness) = c.chance(1, 3) ? -0x1p-30 : -static_cast<double>(1 + c.draw(100)) / 16; broken += " negative"; break;
            default:
                cleanness = c.pick(std::vector<double>{0, 0, 1e-300, 0x1.8p-53});
                smoothness = c.pick(std::vector<double>{0, 0, 0x1p-60, 0x1p-54});
                broken += " zero-weights";
                break;
        }
    }
    auto valid = [](const Image& image) {
        if (image.width == 0 || image.height == 0 || image.max_value == 0) return false;
        for (ul v : image.data) if (v > image.max_value) return false;
        return true;
    };
    bool expected = valid(*l) && valid(*r) && l->width == r->width && l->height == r->height && l->max_value == r->max_value
        && D >= 2 && D <= l->width && cleanness >= 0 && smoothness >= 0 && (cleanness >= 0x1p-52 || smoothness >= 0x1p-52);
    auto show = [](const Image& i) { return str(i.width, "x", i.height, " max ", i.max_value, " ", list(i.data)); };
    c.describe([=] { return str("left ", show(*l), ", right ", show(*r), ", levels ", D, ", cleanness ", cleanness, ", smoothness ", smoothness, ", broken:", broken); });
    c.label(expected ? "acceptable" : "unacceptable");
    if (!broken.empty() && breaks == 1) c.label("only" + broken);
    c.nontrivial(breaks == 1 || (expected && (D == 2 || D == l->width || cleanness == 0 || smoothness == 0)));
    bool accepted = false;
    std::string message;
    DisparityGraph g;
    try
    {
        DisparityGraph built{*l, *r, D, cleanness, smoothness};
        accepted = true;
        g = built;
    }
    catch (const std::invalid_argument& e) { message = e.what(); }
    REQUIRE(accepted == expected, accepted ? "accepted" : "rejected: " + message);
    if (!accepted) return;
    auto same = [](const Image& a, const Image& b) { return a.width == b.width && a.height == b.height && a.max_value == b.max_value && a.data == b.data; };
    REQUIRE(same(g.left, *l), "the left image is changed");
    REQUIRE(same(g.right, *r), "the right image is changed");
    REQUIRE(g.disparity_levels == D && g.cleanness == cleanness && g.smoothness == smoothness, "parameters are changed");
    for (ul y = 0; y < l->height; ++y)
        for (ul x = 0; x < l->width; ++x)
            for (ul n = 0; n < 4; ++n)
                for (ul d = 0; d < D; ++d)
                    REQUIRE(sp::indexing::reparametrization_value_fast(&g, node(x, y, d), n) == 0, "x=", x, " y=", y, " n=", n, " d=", d);
}
}

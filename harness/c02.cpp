#include "pgm.hpp"
using namespace pgm;
namespace pbt {
const char* const PROPERTY_ID = "C02";
const char* const PROPERTY_RULE =
    "images written out chunk by chunk with random leading zeros, whitespace and comments (before the magic, glued to chunks, at the end with and "
    "without line break); one or two images are read by the same object, two layouts per image, read from streams by pieces and with random state of formatting; non-trivial: the text has a comment after the magic and at least two pixels";
void property(Case& c)
{
    auto image = std::make_shared<Image>(generate_image(c, 120, 3000));
    auto all = tokens(*image);
    for (size_t i = 1; i < all.size(); ++i)
        if (all.size() < 4000 && c.chance(1, 15)) all[i] = std::string(c.chance(1, 6) ? c.range(13, 90) : c.range(1, 12), '0') + all[i];
    auto text = std::make_shared<std::string>(layout(c, all));
    auto how = std::make_shared<std::string>();
    c.describe([image, text, how] { return describe(*image) + " text " + quoted(*text) + *how; });
    Image parsed{0, 0, 0, {}};
    REQUIRE(parse(*text, parsed) == Verdict::Good && same(parsed, *image), "model: the generated text is not well-formed");
    bool glued = false;
    for (size_t i = 1; i < text->size(); ++i) glued = glued || ((*text)[i] == '#' && !blank(static_cast<unsigned char>((*text)[i - 1])));
    bool comment = text->find('#', text->find("P2")) != std::string::npos;
    c.nontrivial(comment && image->data.size() >= 2);
    c.label_if(comment, "comments");
    c.label_if(image->width > 255 || image->height > 255, "long side > 255");
    c.label_if(image->data.size() > 65535, "more than 65535 pixels");
    c.label_if(glued, "glued comments");
    c.label_if(!blank(static_cast<unsigned char>(text->back())), "no line break at the end");
    PGM_IO io;
    if (c.chance(1, 3)) io.set_image(std::make_shared<Image>(Image{1, 1, 1, {1}}));
    Image first = *image, other = c.chance(1, 2) && image->data.size() < 4000 ? generate_image(c, 40) : first;
    // Images which are held by somebody else, and what they should be.
    std::vector<std::pair<std::shared_ptr<Image>, Image>> held;
    for (int k = 0; k < 2; ++k)
    {
        if (io.get_image()) held.push_back({io.get_image(), *io.get_image()});
        PGM_IO copy = io;
        if (k == 1)
        {
            c.label_if(!same(first, other), "another image read by the same object");
            *image = other;
            *text = layout(c, same(first, other) ? all : tokens(other));
        }
        Source source{c, *text};
        *how = source.text;
        c.label_if(!source.text.empty(), "unusual stream");
        REQUIRE(source.read(io), "not read");
        REQUIRE(io.get_image(), "no image");
        REQUIRE(same(*io.get_image(), *image), "read ", describe(*io.get_image()));
        for (auto& h : held)
            REQUIRE(same(*h.first, h.second), "the image ", describe(h.second), " which was held before is changed to ", describe(*h.first));
        REQUIRE(copy.get_image() == (held.empty() ? nullptr : held.back().first), "a copy of the object holds another image");
    }
}
}

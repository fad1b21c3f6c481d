#include "pgm.hpp"
using namespace pgm;
namespace pbt {
const char* const PROPERTY_ID = "C01";
const char* const PROPERTY_RULE =
    "valid images of 1..300 columns and 1..60 rows, rarely with sides or numbers of pixels above 255 and 65535, with maximal value 1..65536 (random, saturated, boundary intensities), sometimes absent or "
    "made invalid, written to streams with random state of formatting; non-trivial: a row longer than one text line (wrapped), or an invalid image";
void property(Case& c)
{
    auto image = std::make_shared<Image>(generate_image(c, 400, 3000));
    bool valid = true;
    bool absent = false;
    if (c.chance(1, 6))
    {
        valid = false;
        switch (c.draw(4))
        {
            case 0: image->max_value = 0; break;
            case 1: image->data[c.draw(image->data.size() - 1)] = image->max_value + 1 + c.draw(5); break;
            case 2: image->width = 0; image->data.clear(); break;
            case 3: image->height = 0; image->data.clear(); break;
            default: absent = true; break;
        }
    }
    auto text = std::make_shared<std::string>();
    auto state = std::make_shared<std::string>();
    c.describe([image, text, absent, state] { return (absent ? std::string("absent image") : describe(*image)) + " stream:" + *state + " text " + quoted(*text); });
    c.label(absent ? "absent" : valid ? "valid" : "invalid");
    c.nontrivial(!valid || image->width > 11);
    c.label_if(valid && image->width > 11, "wrapped rows");
    c.label_if(image->width > 255 || image->height > 255, "long side > 255");
    c.label_if(image->data.size() > 65535, "more than 65535 pixels");
    PGM_IO io;
    const Image original = *image;
    if (!absent) io.set_image(std::make_shared<Image>(*image));
    auto held = io.get_image();
    std::ostringstream out;
    if (c.chance(1, 3)) *state = configure(c, out);
    c.label_if(!state->empty(), "unusual state of the stream");
    out << io;
    *text = out.str();
    REQUIRE(out.good(), "the output stream is not good");
    REQUIRE(io.get_image() == held && (absent || same(*held, original)), "the image is changed by writing");
    if (!valid)
    {
        REQUIRE(text->empty(), "something is written");
        return;
    }
    size_t length = 0;
    for (char ch : *text)
    {
        if (ch == '\n') length = 0;
        else REQUIRE(++length <= 70, "a line is longer than 70 characters");
        REQUIRE(blank(static_cast<unsigned char>(ch)) || (ch >= '0' && ch <= '9') || ch == 'P', "unexpected symbol ", static_cast<int>(ch));
    }
    REQUIRE(length == 0, "the last line is not finished");
    REQUIRE(chunks(*text) == tokens(original), "the text does not consist of the numbers of the image");
    REQUIRE(text->compare(0, 3, "P2\n") == 0 || text->compare(0, 3, "P2 ") == 0, "the magic is not at the beginning");
    std::istringstream in(*text);
    PGM_IO back;
    in >> back;
    REQUIRE(!in.fail(), "the written text is not read");
    REQUIRE(back.get_image() && same(*back.get_image(), original), "read back ", back.get_image() ? describe(*back.get_image()) : "nothing");
    PGM_IO direct{std::make_shared<Image>(original)};
    std::ostringstream second;
    second << direct;
    REQUIRE(second.str() == *text, "the second writing differs");
}
}

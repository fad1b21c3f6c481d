#include "pgm.hpp"
#include <streambuf>
using namespace pgm;
namespace pbt {
const char* const PROPERTY_ID = "C03";
const char* const PROPERTY_RULE =
    "well-formed texts with one known corruption (magic, chunk, size, maximal value, truncation, trailing data, failing stream), and texts damaged at "
    "random or made of random bytes, judged by a reference parser; non-trivial: the text starts with the right magic and is malformed";
namespace {
class Failing : public std::streambuf
{
public:
    Failing(std::string text, size_t limit) : text{std::move(text)}, limit{limit} {}
protected:
    int_type underflow() override
    {
        if (position >= limit || position >= text.size()) throw std::runtime_error("device error");
        buffer = text[position++];
        setg(&buffer, &buffer, &buffer + 1);
        return traits_type::to_int_type(buffer);
    }
private:
    std::string text;
    size_t limit, position = 0;
    char buffer = 0;
};
const std::vector<std::string> JUNK{
    "-1", "+1", "-0", "1-", "12abc", "abc", "0x10", "1.5", "1e3", "1,", ",", "18446744073709551616", "18446744073709551617", "99999999999999999999999999",
    "-18446744073709551615", "340282366920938463463374607431768211456", "P2", "1_000", "\xd9\xa1", "--", "nan", "1;2"};
}
void property(Case& c)
{
    Image image = generate_image(c, 60);
    auto all = tokens(image);
    auto text = std::make_shared<std::string>();
    auto kind = std::make_shared<std::string>();
    c.describe([text, kind] { return *kind + " text " + quoted(*text); });
    bool failing_stream = false;
    size_t limit = 0;
    Verdict verdict = Verdict::Bad;
    Image parsed{0, 0, 0, {}};
    const std::vector<ul> huge{1ul << 16, 1ul << 31, 1ul << 32, 1ul << 33, 1ul << 60, 1ul << 63, (1ul << 63) + 1, ~0ul, ~0ul - 1, 1000000007, 6148914691236517206ul};
    switch (c.draw(11))
    {
        case 0:
            *kind = "magic";
            all[0] = c.pick(std::vector<std::string>{"P1", "P3", "P5", "P6", "p2", "P", "P22", "2", "P2x", "xP2", "P02", "\xef\xbb\xbfP2", "P2P2", "P-2"});
            *text = layout(c, all);
            break;
        case 1:
            *kind = "junk chunk";
            all[c.range(1, all.size() - 1)] = c.pick(JUNK);
            *text = layout(c, all);
            break;
        case 2:
            *kind = "big maximal value";
            all[3] = c.pick(std::vector<std::string>{"65537", "65538", "70000", "100000", "4294967296", "4294967297", "4295032832", "18446744073709551615", "00065537"});
            *text = layout(c, all);
            break;
        case 3:
        {
            *kind = "truncated";
            size_t keep = c.draw(all.size() - 1);
            all.resize(keep);
            *text = keep == 0 ? separator(c, false, 6, true) : layout(c, all);
            break;
        }
        case 4:
            *kind = "greater size";
            if (c.chance(1, 2)) all[1] = std::to_string(image.width + c.range(1, 3));
            else all[2] = std::to_string(image.height + c.range(1, 3));
            *text = layout(c, all);
            break;
        case 5:
        {
            *kind = "huge size";
            ul w = c.pick(huge), h = c.chance(1, 2) ? c.pick(huge) : image.height;
            bool wrapped = c.chance(1, 3);
            if (wrapped)
            {
                // The product of sides modulo 2^64 is the number of intensities given.
                w = 2 * c.range(1, 40) + 1;
                ul inverse = w;
                for (int i = 0; i < 6; ++i) inverse *= 2 - w * inverse;
                ul given = all.size() - 4;
                if (given > 0 && given % w == 0)
                {
                    all.resize(all.size() - 1);
                    --given;
                }
                h = given * inverse;
                if (given == 0) h = c.pick(huge);
                c.label("wrapped size");
            }
            if (c.chance(1, 2)) std::swap(w, h);
            all[1] = std::to_string(w);
            all[2] = std::to_string(h);
            if (!wrapped && c.chance(1, 2)) all.resize(4 + c.draw(all.size() - 4));
            *text = layout(c, all);
            break;
        }
        case 6:
            *kind = "trailing data";
            for (ul i = c.range(1, 3); i > 0; --i) all.push_back(c.chance(1, 2) ? c.pick(JUNK) : std::to_string(c.draw(image.max_value)));
            *text = layout(c, all);
            break;
        case 7:
            *kind = "failing stream";
            *text = layout(c, all);
            limit = c.draw(text->size());
            failing_stream = true;
            // The device fails where the text is not complete for sure.
            if (parse(text->substr(0, limit), parsed) != Verdict::Bad) verdict = Verdict::Unspecified;
            break;
        case 8:
        case 9:
        {
            *kind = "random damage";
            *text = layout(c, all);
            static const std::string alphabet = std::string(" \n\t#P20123456789-+.eE\r\v\f,x") + '\0' + '\xff' + '\x80' + '\x1a';
            for (ul i = c.range(1, 4); i > 0; --i)
            {
                if (text->empty()) break;
                size_t at = c.draw(text->size() - 1);
                char ch = alphabet[c.draw(alphabet.size() - 1)];
                switch (c.draw(3))
                {
                    case 0: (*text)[at] = ch; break;
                    case 1: text->erase(at, 1 + c.draw(3)); break;
                    case 2: text->insert(at, 1, ch); break;
                    default: text->resize(at); break;
                }
            }
            break;
        }
        case 10:
        {
            *kind = "random bytes";
            static const std::string alphabet = " \n\t#P20123456789-";
            if (c.chance(1, 2)) *text = "P2 ";
            for (ul i = c.draw(60); i > 0; --i) *text += c.chance(1, 10) ? static_cast<char>(c.draw(255)) : alphabet[c.draw(alphabet.size() - 1)];
            break;
        }
        default:
            *kind = "two corruptions";
            all[c.draw(all.size() - 1)] = c.pick(JUNK);
            all[c.draw(all.size() - 1)] = std::to_string(c.pick(huge));
            *text = layout(c, all);
    }
    bool known = *kind != "random damage" && *kind != "random bytes" && *kind != "two corruptions";
    if (!failing_stream)
    {
        verdict = parse(*text, parsed);
        if (known) REQUIRE(verdict == Verdict::Bad || (*kind == "junk chunk"), "model: the corrupted text is not malformed");
    }
    auto first = chunks(*text);
    c.nontrivial(verdict == Verdict::Bad && !first.empty() && first[0] == "P2");
    c.label(*kind);
    c.label_if(verdict == Verdict::Unspecified, "unspecified (only safety is checked)");
    c.label_if(verdict == Verdict::Good, "still well-formed");
    PGM_IO io;
    const Image before{2, 1, 3, {3, 1}};
    bool holds = c.chance(2, 3);
    if (holds) io.set_image(std::make_shared<Image>(before));
    auto held = io.get_image();
    bool failed;
    if (failing_stream)
    {
        Failing buffer{*text, limit};
        std::istream in(&buffer);
        in >> io;
        failed = in.fail();
    }
    else
    {
        Source source{c, *text};
        *kind += source.text;
        failed = !source.read(io);
    }
    if (verdict == Verdict::Bad) REQUIRE(failed, "malformed text is accepted");
    if (verdict == Verdict::Good)
    {
        REQUIRE(!failed, "well-formed text is rejected");
        REQUIRE(io.get_image() && same(*io.get_image(), parsed), "read ", io.get_image() ? describe(*io.get_image()) : "nothing");
    }
    if (failed)
    {
        REQUIRE(io.get_image() == held, "the held image is replaced");
        REQUIRE(!holds || same(*held, before), "the held image is changed");
    }
    else
    {
        REQUIRE(io.get_image(), "success without an image");
        const Image& got = *io.get_image();
        REQUIRE(static_cast<unsigned __int128>(got.width) * got.height == got.data.size(), "the number of intensities is ", got.data.size(), " for ", got.width, "x", got.height);
    }
}
}

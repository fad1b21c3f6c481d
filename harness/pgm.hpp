/* Generators and the reference parser of plain PGM, shared by C01-C03. */
#pragma once
#include "repo.hpp"
#include <pgm_io.hpp>

#include <cctype>
#include <locale>
#include <memory>
#include <sstream>

namespace pgm
{

using model::ul;
using pbt::Case;
using sp::image::Image;
using sp::image::PGM_IO;

inline bool blank(unsigned char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }

/* Chunks of a text according to the documentation: separated by whitespace and comments. */
inline std::vector<std::string> chunks(const std::string& text)
{
    std::vector<std::string> result;
    std::string chunk;
    for (size_t i = 0; i < text.size(); ++i)
    {
        unsigned char ch = static_cast<unsigned char>(text[i]);
        if (ch == '#' || blank(ch))
        {
            if (!chunk.empty()) result.push_back(chunk);
            chunk.clear();
            if (ch == '#')
                while (i < text.size() && text[i] != '\n') ++i;
        }
        else chunk += static_cast<char>(ch);
    }
    if (!chunk.empty()) result.push_back(chunk);
    return result;
}

enum class Verdict { Good, Bad, Unspecified };

inline bool number(const std::string& chunk, ul& value)
{
    value = 0;
    if (chunk.empty()) return false;
    for (char ch : chunk)
    {
        if (ch < '0' || ch > '9') return false;
        ul digit = static_cast<ul>(ch - '0');
        if (value > (~0ul - digit) / 10) return false;
        value = value * 10 + digit;
    }
    return true;
}

inline Verdict parse(const std::string& text, Image& image)
{
    // A carriage return inside of a comment is an end of line for some readers.
    bool comment = false, unusual = false;
    for (char ch : text)
    {
        if (ch == '#') comment = true;
        else if (ch == '\n') comment = false;
        else if (ch == '\r' && comment) unusual = true;
    }
    if (unusual) return Verdict::Unspecified;
    auto all = chunks(text);
    image = Image{0, 0, 0, {}};
    if (all.empty() || all[0] != "P2") return Verdict::Bad;
    std::vector<ul> numbers;
    bool malformed = false;
    ul value = 0;
    for (size_t i = 1; i < 4; ++i)
    {
        if (i >= all.size() || !number(all[i], value)) return Verdict::Bad;
        numbers.push_back(value);
    }
    image.width = numbers[0];
    image.height = numbers[1];
    image.max_value = numbers[2];
    if (image.max_value > 65536) return Verdict::Bad;
    for (size_t i = 4; i < all.size(); ++i)
    {
        if (!number(all[i], value)) { malformed = true; break; }
        image.data.push_back(value);
    }
    unsigned __int128 size = static_cast<unsigned __int128>(image.width) * image.height;
    if (size == 0 || image.max_value == 0) return size == 0 && all.size() == 4 ? Verdict::Unspecified : size == 0 ? Verdict::Unspecified : (malformed || image.data.size() != size) ? Verdict::Bad : Verdict::Unspecified;
    if (malformed || image.data.size() != size) return Verdict::Bad;
    for (ul v : image.data)
        if (v > image.max_value) return Verdict::Unspecified;
    return Verdict::Good;
}

inline std::string quoted(const std::string& text) { return pbt::json_string(text.size() > 1200 ? text.substr(0, 1200) + "..." : text); }

inline std::string describe(const Image& i) { return pbt::str(i.width, "x", i.height, " max ", i.max_value, " ", pbt::list(i.data)); }
inline bool same(const Image& a, const Image& b) { return a.width == b.width && a.height == b.height && a.max_value == b.max_value && a.data == b.data; }

inline Image generate_image(Case& c, ul area = 400, ul huge_rarity = 0)
{
    Image image{1, 1, 1, {}};
    if (huge_rarity && c.chance(1, huge_rarity))
    {
        // Sides or numbers of pixels which do not fit one or two bytes.
        switch (c.draw(3))
        {
            case 0: image.width = c.range(1, 2); image.height = c.range(256, 300); break;
            case 1: image.width = c.range(256, 270); image.height = c.range(256, 270); break;
            case 2: image.width = 1; image.height = c.range(65536, 65540); break;
            default: image.width = c.range(65536, 65540); image.height = 1; break;
        }
        image.max_value = c.pick(std::vector<ul>{1, 9, 255, 65536});
        image.data.resize(image.width * image.height);
        ul state = c.draw(1000);
        for (auto& v : image.data)
        {
            state = state * 6364136223846793005ul + 1442695040888963407ul;
            v = (state >> 33) % (image.max_value + 1);
        }
        return image;
    }
    if (c.chance(1, 150) && area >= 100)
    {
        image.width = c.range(20, 120);
        image.height = c.range(20, 70);
    }
    else switch (c.weighted({6, 4, 2, 1}))
    {
        case 0: image.width = c.range(1, 5); image.height = c.range(1, 4); break;
        case 1: image.width = c.range(1, 40); image.height = c.range(1, 5); break;
        case 2: image.width = c.range(1, 3); image.height = c.range(1, 60); break;
        default: image.width = c.range(1, 300); image.height = c.range(1, 2); break;
    }
    while (image.width * image.height > area && image.height < 20) image.height = 1, image.width = std::min(image.width, area);
    image.max_value = c.pick(std::vector<ul>{1, 2, 3, 5, 9, 10, 15, 99, 100, 255, 256, 999, 9999, 10000, 32768, 65535, 65536});
    if (c.chance(1, 5)) image.max_value = c.range(1, 65536);
    image.data.resize(image.width * image.height);
    ul style = c.draw(3);
    for (auto& v : image.data)
        v = style == 0 ? c.draw(image.max_value) : style == 1 ? image.max_value : style == 2 ? (c.chance(1, 2) ? image.max_value : 0) : c.draw(std::min<ul>(image.max_value, 12));
    return image;
}

/* A possibly empty piece of whitespace and comments; never joins chunks if `required`. */
inline std::string separator(Case& c, bool required, unsigned comments, bool at_end = false)
{
    std::string result;
    ul parts = c.chance(1, 4) ? c.range(0, 4) : 1;
    for (ul i = 0; i < parts; ++i)
    {
        if (c.chance(comments, 12))
        {
            result += '#';
            static const std::string alphabet = " aP2#0123456789-+.\t\"\xc3\xa9\xff_~";
            ul length = c.chance(1, 20) ? (c.chance(1, 15) ? c.range(1000, 6000) : c.range(60, 300)) : c.draw(12);
            for (ul k = 0; k < length; ++k) result += alphabet[c.draw(alphabet.size() - 1)];
            if (!(at_end && i + 1 == parts && c.chance(1, 2))) result += '\n';
        }
        else
        {
            static const std::vector<std::string> spaces{" ", "\n", "\t", "  ", "\r\n", "\n\n", "\v", "\f", " \t \n", "\r"};
            result += c.chance(2, 3) ? " " : c.pick(spaces);
        }
    }
    if (required && result.empty()) result = " ";
    return result;
}

inline std::string layout(Case& c, const std::vector<std::string>& all, bool end = true)
{
    unsigned comments = static_cast<unsigned>(c.pick(std::vector<ul>{0, 1, 1, 4}));
    std::string text = c.chance(1, 3) ? separator(c, false, comments) : "";
    for (size_t i = 0; i < all.size(); ++i)
    {
        text += all[i];
        if (i > 1000 && i + 1000 < all.size()) text += i % 7 ? " " : "\n";
        else if (i + 1 < all.size()) text += separator(c, true, comments);
        else if (end) text += c.chance(1, 4) ? "" : separator(c, false, comments, true);
    }
    return text;
}

inline std::vector<std::string> tokens(const Image& image)
{
    std::vector<std::string> result{"P2", std::to_string(image.width), std::to_string(image.height), std::to_string(image.max_value)};
    for (ul v : image.data) result.push_back(std::to_string(v));
    return result;
}

/* Groups digits of numbers, and writes them with another point. */
struct Punctuation : std::numpunct<char>
{
    char do_thousands_sep() const override { return ','; }
    std::string do_grouping() const override { return "\1\2"; }
    char do_decimal_point() const override { return ';'; }
};
/* Gives a text by pieces, without seeking. */
struct Pieces : std::streambuf
{
    std::string text;
    size_t given = 0, piece;
    Pieces(std::string text, size_t piece) : text{std::move(text)}, piece{piece} {}
    int_type underflow() override
    {
        if (given >= text.size()) return traits_type::eof();
        const size_t now = std::min(piece, text.size() - given);
        setg(&text[given], &text[given], &text[given] + now);
        given += now;
        return traits_type::to_int_type(*gptr());
    }
};
/* What may be set for a stream before it is used, none of which has to do with plain PGM. */
inline std::string configure(Case& c, std::ios& stream)
{
    std::string result;
    auto set = [&](const char* name, auto action) { if (c.chance(1, 4)) { action(); result += std::string(" ") + name; } };
    set("hex", [&] { stream.setf(std::ios::hex, std::ios::basefield); });
    set("oct", [&] { stream.setf(std::ios::oct, std::ios::basefield); });
    set("showbase", [&] { stream.setf(std::ios::showbase); });
    set("showpos", [&] { stream.setf(std::ios::showpos); });
    set("noskipws", [&] { stream.unsetf(std::ios::skipws); });
    set("unitbuf", [&] { stream.setf(std::ios::unitbuf); });
    set("width", [&] { stream.width(static_cast<std::streamsize>(c.range(1, 12))); });
    set("fill", [&] { stream.fill(c.pick(std::vector<char>{'0', '*', '9', '\t'})); });
    set("left", [&] { stream.setf(std::ios::left, std::ios::adjustfield); });
    set("precision", [&] { stream.precision(1); });
    set("locale", [&] { stream.imbue(std::locale(std::locale::classic(), new Punctuation)); });
    set("exceptions", [&] { stream.exceptions(std::ios::failbit | std::ios::badbit); });
    return result;
}
/* A stream with the text. */
struct Source
{
    std::istringstream whole;
    Pieces pieces;
    std::istream by_pieces{&pieces};
    std::istream& in;
    std::string text;
    Source(Case& c, const std::string& content) : whole{content}, pieces{content, c.chance(1, 2) ? 1 : c.range(1, 40)}, in{c.chance(1, 3) ? by_pieces : whole}
    {
        text = &in == &by_pieces ? pbt::str(", by pieces of ", pieces.piece) : "";
        if (c.chance(1, 3)) text += configure(c, in);
    }
    /* Whether the failure is reported, by the state or, if it is asked for, by the exception of streams. */
    bool read(PGM_IO& io)
    {
        bool thrown = false;
        try { in >> io; }
        catch (const std::ios::failure&)
        {
            thrown = true;
            REQUIRE(in.exceptions() != std::ios::goodbit, "an exception is not asked for");
            REQUIRE(in.fail(), "an exception without a failure");
        }
        REQUIRE(thrown == (in.fail() && in.exceptions() != std::ios::goodbit), thrown ? "an exception" : "no exception", " of the stream, state ", in.rdstate());
        return !in.fail();
    }
};

}

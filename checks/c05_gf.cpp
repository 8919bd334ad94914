// C05: characters of GF fonts decode to the glyph they describe.
#include "gf.hpp"

typedef std::vector<std::vector<int>> Grid;
static Grid bits(unsigned w, unsigned h, u64 v) {
  Grid g(h, std::vector<int>(w, 0));
  for (unsigned y = 0; y < h; y++)
    for (unsigned x = 0; x < w; x++)
      g[y][x] = v >> (y * w + x) & 1;
  return g;
}
static void expect_glyph(Ctx &c, const Gf &f, unsigned charcode, const Img &want, const std::string &cls, const std::string &desc) {
  at_input_opts_type *o = at_input_opts_new();
  o->charcode = charcode;
  Bytes file = f.file();
  if (want.w == 0) { // blank: an empty bitmap
    c.note("%s %s", cls.c_str(), desc.c_str());
    Decoded d = decode("gf", file, o);
    c.step(2);
    c.trace();
    if (d.fatal || d.img.w || d.img.h)
      c.fail("blank:" + cls, "%s: blank character gave %ux%u (%s)", desc.c_str(), d.img.w, d.img.h, d.msg.c_str());
  } else
    expect_image(c, "gf", file, want, cls, desc, o);
  if (o->charcode != charcode)
    c.fail("gf-opts", "%s: the caller's character code changed from %u to %u", desc.c_str(), charcode, o->charcode);
  at_input_opts_free(o);
}

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C05";
  k.bounds = th ? "every glyph up to 4x4; others as quick" : "every glyph up to 12 cells (w<=4,h<=4) x 8 command styles x short/long headers; origin offsets; specials at every position; font of up to 3 characters; white runs, black runs and skips of 0..269 written in up to 32 ways; all 256 character codes; short-header boxes; margins; specials of every length kind";
  for (unsigned w = 1; w <= 4; w++)
    for (unsigned h = 1; h <= 4; h++)
      if (w * h <= (th ? 16u : 12u))
        k.spaces.push_back({fmt("glyph-%ux%u", w, h), (u64)16 << (w * h), [=](u64 i, Ctx &c) {
                              Pick p(i);
                              unsigned style = (unsigned[]){0, 1, 2, 3, 4, 8, 12, 9 + 16}[p(8)];
                              GfChar ch;
                              ch.short_boc = p(2);
                              Grid g = bits(w, h, p.v);
                              ch.max_col = w;
                              ch.max_row = h - 1;
                              ch.body = gf_paint(g, style);
                              Gf f;
                              f.chars.push_back(ch);
                              expect_glyph(c, f, i & 1 ? 65 : 0, gf_trim(g), fmt("gf-glyph%s", ch.short_boc ? "-short" : ""), fmt("%ux%u style %u", w, h, style));
                            }});
  // origins: the box lies anywhere around the reference point; borders may be blank
  k.spaces.push_back({"origin", 7ull * 7 * 4 * 64, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        GfChar ch;
                        ch.min_col = (int)p(7) * 3 - 9;
                        ch.min_row = (int)p(7) * 3 - 9;
                        unsigned border = p(4);
                        Grid in = bits(3, 2, p(64));
                        Grid g(2 + 2 * border, std::vector<int>(3 + 2 * border, 0));
                        for (int y = 0; y < 2; y++)
                          for (int x = 0; x < 3; x++)
                            g[y + border][x + border] = in[y][x];
                        ch.max_col = ch.min_col + 3 + 2 * border;
                        ch.max_row = ch.min_row + 1 + 2 * border;
                        ch.body = gf_paint(g, i % 2 ? 4 : 0);
                        Gf f;
                        f.chars.push_back(ch);
                        f.long_loc = i % 3 == 0;
                        expect_glyph(c, f, 0, gf_trim(g), "gf-origin", fmt("origin %d,%d border %u", ch.min_col, ch.min_row, border));
                      }});
  // specials and no-ops before the character and after every command
  k.spaces.push_back({"specials", 7ull * 7 * 64 * 12, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned s1 = p(7), s2 = p(7);
                        Grid g = bits(3, 2, p(64));
                        unsigned pos = p(12);
                        Bytes body = gf_paint(g, 0); // one-byte commands only
                        if (pos > body.size())
                          return;
                        GfChar ch;
                        ch.max_col = 3;
                        ch.max_row = 1;
                        auto sp = [](unsigned s) { return s == 6 ? Bytes(2, (char)244) : gf_special(s); };
                        ch.before = sp(s1);
                        ch.body = body.substr(0, pos) + sp(s2) + body.substr(pos);
                        Gf f;
                        f.chars.push_back(ch);
                        expect_glyph(c, f, 0, gf_trim(g), "gf-special", fmt("special %u before, %u at %u", s1, s2, pos));
                      }});
  // fonts with several characters: selection by code, default is the smallest code
  k.spaces.push_back({"select", 6ull * 6 * 6 * 12 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        static const unsigned CODE[6] = {1, 2, 65, 128, 200, 255};
                        Gf f;
                        unsigned code[3];
                        for (int q = 0; q < 3; q++) {
                          GfChar ch;
                          ch.code = code[q] = CODE[p(6)];
                          ch.max_col = 3;
                          ch.max_row = 0;
                          ch.body = gf_paint(bits(3, 1, q + 5), 0);
                          f.chars.push_back(ch);
                        }
                        if (code[0] == code[1] || code[1] == code[2] || code[0] == code[2])
                          return;
                        unsigned sel = p(12);
                        f.long_loc = p(2);
                        unsigned want = sel < 3 ? code[sel] : sel == 3 ? 0 : (unsigned[]){77, 254, 256, 256 + code[0], 512 + code[1], 65536 + code[2], 0x80000000u + code[0], 0xffffffffu}[sel - 4];
                        if (sel > 3) {
                          at_input_opts_type *o = at_input_opts_new();
                          o->charcode = want;
                          Decoded d = decode("gf", f.file(), o);
                          c.step(2);
                          c.trace();
                          if (!d.fatal)
                            c.fail("gf-missing", "character %u is not in the font but %ux%u was returned", want, d.img.w, d.img.h);
                          at_input_opts_free(o);
                          return;
                        }
                        int which = 0;
                        for (int q = 0; q < 3; q++)
                          if (want ? code[q] == want : code[q] < code[which])
                            which = q;
                        expect_glyph(c, f, want, gf_trim(bits(3, 1, which + 5)), "gf-select", fmt("codes %u %u %u select %u", code[0], code[1], code[2], want));
                      }});
  // every character code, alone in its font
  k.spaces.push_back({"codes", 256ull * 2 * 2 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Gf f;
                        GfChar ch;
                        ch.code = p(256);
                        ch.short_boc = p(2);
                        ch.max_col = 5;
                        ch.max_row = 2;
                        Grid g = bits(5, 3, 0x52b3 + ch.code);
                        ch.body = gf_paint(g, 0);
                        f.long_loc = p(2);
                        f.chars.push_back(ch);
                        expect_glyph(c, f, p(2) ? ch.code : 0, gf_trim(g), "gf-code", fmt("character %u short %d long locator %d", ch.code, ch.short_boc, f.long_loc));
                      }});
  // every short header: columns or rows of every number that end anywhere
  k.spaces.push_back({"boxes", 2ull * 256 * 256, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        bool cols = p(2);
                        int n = p(256), max = p(256);
                        if (cols && !n)
                          return;
                        GfChar ch;
                        ch.short_boc = true;
                        ch.max_col = cols ? max : 3;
                        ch.min_col = cols ? max - n : 0;
                        ch.max_row = cols ? 1 : max;
                        ch.min_row = cols ? 0 : max - n;
                        unsigned w = ch.max_col - ch.min_col, h = ch.max_row - ch.min_row + 1;
                        Grid g(h, std::vector<int>(w, 0));
                        g[0][0] = g[h - 1][w - 1] = g[h / 2][w / 2] = g[h / 3][w - 1] = 1;
                        ch.body = gf_paint(g, max % 16);
                        Gf f;
                        f.chars.push_back(ch);
                        expect_glyph(c, f, 0, gf_trim(g), "gf-box", fmt("columns %d to %d rows %d to %d", ch.min_col, ch.max_col, ch.min_row, ch.max_row));
                      }});
  // wide blank margins, and specials of any length
  k.spaces.push_back({"margins", 6ull * 6 * 6 * 6, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        static const unsigned M[6] = {0, 1, 2, 255, 256, 300};
                        unsigned l = M[p(6)], r = M[p(6)], t = M[p(6)], b = M[p(6)];
                        Grid g(t + 2 + b, std::vector<int>(l + 3 + r, 0));
                        g[t][l] = g[t][l + 2] = g[t + 1][l + 1] = 1;
                        GfChar ch;
                        ch.max_col = g[0].size();
                        ch.max_row = g.size() - 1;
                        ch.body = gf_paint(g, 16 + 4);
                        Gf f;
                        f.chars.push_back(ch);
                        expect_glyph(c, f, 0, gf_trim(g), "gf-margin", fmt("margins left %u right %u top %u bottom %u", l, r, t, b));
                      }});
  k.spaces.push_back({"special-lengths", 4ull * 14 * 3, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned op = p(4), n = (unsigned[]){0, 1, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 70000, 200000}[p(14)], at = p(3);
                        if (op < 3 && n >> (8 * (op + 1)))
                          return; // does not fit
                        Bytes s(1, (char)(239 + op));
                        for (unsigned b = op + 1; b-- > 0;)
                          s += (char)(n >> (8 * b));
                        for (unsigned b = 0; b < n; b++)
                          s += (char)(b * 7);
                        Grid g = bits(3, 2, 45);
                        GfChar ch;
                        ch.max_col = 3;
                        ch.max_row = 1;
                        Bytes body = gf_paint(g, 0);
                        ch.before = at ? "" : s;
                        ch.body = at ? body.substr(0, at) + s + body.substr(at) : body;
                        Gf f;
                        f.chars.push_back(ch);
                        expect_glyph(c, f, 0, gf_trim(g), "gf-special-length", fmt("special %u of %u bytes at %u", op + 1, n, at));
                      }});
  // long runs and wide skips: one-, two- and three-byte operands
  k.spaces.push_back({"wide", 300ull * 4, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned n = 1 + p(300), style = (unsigned[]){0, 1, 2, 3}[p(4)];
                        if (style == 1 && n > 255)
                          return;
                        Grid g(n, std::vector<int>(n + 2, 0)); // a long bar at the top, a dot at the bottom
                        for (unsigned x = 1; x <= n; x++)
                          g[0][x] = 1;
                        g[n - 1][0] = 1;
                        GfChar ch;
                        ch.max_col = n + 2;
                        ch.max_row = n - 1;
                        ch.body = gf_paint(g, style + (n > 256 ? 16 : 0) + 8);
                        Gf f;
                        f.chars.push_back(ch);
                        expect_glyph(c, f, 0, gf_trim(g), "gf-wide", fmt("bar of %u style %u", n, style));
                      }});
  // every place to begin a row at, every length of a run and every number of rows to skip, in each way to write them
  k.spaces.push_back({"operands", 3ull * 270 * 32, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned kind = p(3), n = p(270), style = p(32);
                        Grid g(kind == 2 ? n + 3 : 3, std::vector<int>(kind == 2 ? 5 : n + 4, 0));
                        g[0][0] = g[0][2] = 1;
                        if (kind == 2) // skipped rows
                          g[n + 1][1] = g[n + 1][3] = g[n + 2][0] = 1;
                        else { // white, or black, of n pixels at the start of the second row
                          for (unsigned x = 0; x < n; x++)
                            g[1][x] = kind;
                          g[1][n] = !kind;
                          g[1][n + 2] = g[1][n + 3] = g[2][n + 1] = 1;
                        }
                        if (style / 16 == 0 && kind == 2 && n > 255)
                          return; // more than one byte is needed
                        GfChar ch;
                        ch.max_col = g[0].size();
                        ch.max_row = g.size() - 1;
                        ch.body = gf_paint(g, style);
                        Gf f;
                        f.chars.push_back(ch);
                        expect_glyph(c, f, 0, gf_trim(g), fmt("gf-operand%u", kind), fmt("kind %u of %u style %u", kind, n, style));
                      }});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }

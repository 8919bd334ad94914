// C04: PNG files decode to the picture they encode.
#include "png_enc.hpp"

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C04";
  unsigned wmax = th ? 40 : 20, hmax = th ? 20 : 9;
  k.bounds = fmt("all 15 colour type/depth combinations x interlaced or not x 6 filter choices x w<=%u,h<=%u; widths and heights to 4097; every set of 10 ancillary chunks, with and without a background option; transparency chunks; IDAT splits; every sample value", wmax, hmax);
  k.spaces.push_back({"layout", 15ull * 2 * 6 * wmax * hmax, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Png g;
                        PngKind q = PNG_KINDS[p(15)];
                        g.ctype = q.ctype;
                        g.depth = q.depth;
                        g.interlace = p(2);
                        g.filter = p(6);
                        g.w = 1 + p(wmax);
                        g.h = 1 + p(hmax);
                        png_fill(g, i % 101);
                        expect_image(c, "png", g.file(), g.reference(), fmt("png-t%u-d%u%s", g.ctype, g.depth, g.interlace ? "-adam7" : ""), fmt("type %u depth %u %ux%u filter %u interlace %d", g.ctype, g.depth, g.w, g.h, g.filter, g.interlace));
                      }});
  static const unsigned SZ[] = {41, 63, 64, 65, 100, 127, 128, 129, 141, 255, 256, 257, 300, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2049, 4097};
  k.spaces.push_back({"sizes", 15ull * 2 * 24 * 3 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Png g;
                        PngKind q = PNG_KINDS[p(15)];
                        g.ctype = q.ctype;
                        g.depth = q.depth;
                        g.interlace = p(2);
                        unsigned z = p(24);
                        g.w = z < 23 ? SZ[z] : 521;
                        g.h = (unsigned[]){1, 2, 9}[p(3)];
                        if (z == 23)
                          g.h = 258 + g.h; // large both ways
                        if (p(2))
                          std::swap(g.w, g.h);
                        png_fill(g, i % 101);
                        expect_image(c, "png", g.file(), g.reference(), fmt("png-size-t%u-d%u", g.ctype, g.depth), fmt("type %u depth %u %ux%u interlace %d", g.ctype, g.depth, g.w, g.h, g.interlace));
                      }});
  // every set of ancillary chunks, with and without a background colour in the options
  k.spaces.push_back({"ancillary", 15ull * 2 * 1024 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Png g;
                        PngKind q = PNG_KINDS[p(15)];
                        g.ctype = q.ctype;
                        g.depth = q.depth;
                        g.interlace = p(2);
                        unsigned set = p(1024);
                        bool bg = p(2);
                        g.w = 6;
                        g.h = 5;
                        png_fill(g, set);
                        unsigned n = g.ctype == 2 || g.ctype == 6 ? 3 : 1;
                        if (set & 1)
                          g.extra += Png::chunk("gAMA", set & 256 ? Bytes("\0\1\x86\xa0", 4) : Bytes("\0\0\xb1\x8f", 4));
                        else if (set & 256)
                          g.extra += Png::chunk("sRGB", Bytes("\0", 1));
                        if (set & 512)
                          g.extra += Png::chunk("cHRM", Bytes("\0\0\x7a\x26\0\0\x80\x84\0\0\xfa\0\0\0\x80\xe8\0\0\x75\x30\0\0\xea\x60\0\0\x3a\x98\0\0\x17\x70", 32));
                        if (set & 2)
                          g.extra += Png::chunk("sBIT", Bytes(g.ctype == 3 ? 3 : g.channels(), (char)(g.ctype == 3 || g.depth > 2 ? 2 : 1)));
                        if (set & 4)
                          g.extra += Png::chunk("pHYs", Bytes("\0\0\1\0\0\0\3\0\1", 9));
                        if (set & 8)
                          g.extra += Png::chunk("tIME", Bytes("\x07\xd0\1\1\0\0\0", 7));
                        if (set & 16)
                          g.extra += Png::chunk("tEXt", Bytes("Title\0x", 7));
                        if (set & 32)
                          g.extra += Png::chunk("xyZz", Bytes("private", 7));
                        if (set & 64 && g.ctype < 4) {
                          if (g.ctype == 3)
                            g.trns = Bytes(2, (char)90);
                          else
                            for (unsigned k = 0; k < n; k++) {
                              g.trns += (char)(g.s[k] >> 8);
                              g.trns += (char)g.s[k];
                            }
                        }
                        if (set & 128 && g.ctype != 3)
                          for (Bytes b; b.empty();) {
                            for (unsigned k = 0; k < n; k++)
                              b += Bytes("\0\1", 2);
                            g.extra += Png::chunk("bKGD", b);
                          }
                        std::string what = fmt("type %u depth %u interlace %d chunks %02x", g.ctype, g.depth, g.interlace, set);
                        if (!bg) {
                          expect_image(c, "png", g.file(), g.reference(), fmt("png-ancillary-t%u-d%u", g.ctype, g.depth), what);
                          return;
                        }
                        at_input_opts_type *io = at_input_opts_new();
                        io->background_color = at_color_new(200, 100, 50);
                        c.note("%s with background", what.c_str());
                        Decoded a = decode("png", g.file(), io), b = decode("png", g.file());
                        at_input_opts_free(io);
                        c.step(2);
                        c.trace();
                        if (a.fatal || !(a.img == b.img))
                          c.fail("png-background", "%s: another picture with a background colour in the options", what.c_str());
                      }});
  k.spaces.push_back({"values", 15ull * 257, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Png g;
                        PngKind q = PNG_KINDS[p(15)];
                        g.ctype = q.ctype;
                        g.depth = q.depth;
                        unsigned block = p(257);
                        u64 max = 1u << g.depth;
                        if (block >= (g.depth == 16 ? 256u : 1u))
                          return;
                        g.w = g.depth == 16 ? 256 : max;
                        g.h = 1;
                        g.filter = 0;
                        png_fill(g, 1);
                        for (unsigned x = 0; x < g.w; x++)
                          for (unsigned ch = 0; ch < g.channels(); ch++)
                            g.s[x * g.channels() + ch] = (g.depth == 16 ? (block << 8 | x) : x) ^ (ch && g.depth > 4 ? ch * 5 : 0);
                        expect_image(c, "png", g.file(), g.reference(), fmt("png-values-t%u-d%u", g.ctype, g.depth), fmt("type %u depth %u all values block %u", g.ctype, g.depth, block));
                      }});
  // transparency information does not shift or tint the pixels
  k.spaces.push_back({"trns", 15ull * 2 * 4 * 12, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Png g;
                        PngKind q = PNG_KINDS[p(15)];
                        g.ctype = q.ctype;
                        g.depth = q.depth;
                        g.interlace = p(2);
                        unsigned form = p(4);
                        g.w = 1 + p(12);
                        g.h = 3;
                        if (g.ctype >= 4)
                          return;
                        png_fill(g, i);
                        if (g.ctype == 3)
                          g.trns = Bytes(form + 1 <= g.palette.size() ? form + 1 : g.palette.size(), (char)(form * 80));
                        else if (g.ctype == 0) {
                          unsigned v = form % (1u << g.depth);
                          g.trns += (char)(v >> 8);
                          g.trns += (char)v;
                        } else
                          for (int ch = 0; ch < 3; ch++) {
                            g.trns += (char)(g.s[ch] >> 8);
                            g.trns += (char)g.s[ch];
                          }
                        expect_image(c, "png", g.file(), g.reference(), fmt("png-trns-t%u-d%u", g.ctype, g.depth), fmt("type %u depth %u %ux%u tRNS form %u", g.ctype, g.depth, g.w, g.h, form));
                      }});
  k.spaces.push_back({"stream", 15ull * 4 * 40, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Png g;
                        PngKind q = PNG_KINDS[p(15)];
                        g.ctype = q.ctype;
                        g.depth = q.depth;
                        g.level = (unsigned[]){0, 1, 6, 9}[p(4)];
                        g.split = 1 + p(40);
                        g.w = 7;
                        g.h = 6;
                        png_fill(g, i);
                        if (g.split % 4 == 1)
                          g.extra = Png::chunk("tEXt", Bytes("Comment\0hello", 13));
                        if (g.split % 4 == 2)
                          g.extra = Png::chunk("gAMA", Bytes("\0\0\xb1\x8f", 4));
                        if (g.split % 4 == 3 && g.ctype != 3)
                          g.extra = Png::chunk("bKGD", g.ctype == 2 || g.ctype == 6 ? Bytes(6, '\1') : Bytes("\0\1", 2));
                        expect_image(c, "png", g.file(), g.reference(), fmt("png-stream-t%u-d%u", g.ctype, g.depth), fmt("type %u depth %u level %u split %u", g.ctype, g.depth, g.level, g.split));
                      }});
  k.spaces.push_back({"limits", 4 * 2 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Png g;
                        unsigned d = (unsigned[]){32768, 65535, 65536, 70000}[p(4)];
                        g.w = d, g.h = 1;
                        if (p(2))
                          g.w = 1, g.h = d;
                        g.ctype = p(2) ? 2 : 0;
                        g.filter = 0;
                        png_fill(g, 5);
                        if (d <= 65535)
                          expect_image(c, "png", g.file(), g.reference(), "png-limit", fmt("%ux%u", g.w, g.h));
                        else {
                          c.note("png %ux%u", g.w, g.h);
                          Decoded r = decode("png", g.file());
                          c.step(2);
                          c.trace();
                          if (!r.fatal)
                            c.fail("png-toolarge", "%ux%u: read as %ux%u without an error", g.w, g.h, r.img.w, r.img.h);
                        }
                      }});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }

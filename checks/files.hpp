// Small valid files of every input format.
#pragma once
#include "bmp.hpp"
#include "gf.hpp"
#include "png_enc.hpp"
#include "tga.hpp"

struct Base {
  std::string name, suffix;
  Bytes file;
  size_t need;   // bytes a decoder needs for the whole picture (shorter files must be reported)
  size_t header; // region for two-byte mutations
};

inline std::vector<Base> bases() {
  std::vector<Base> v;
  auto add = [&](std::string n, const char *suf, Bytes f, size_t need, size_t header) { v.push_back({n, suf, f, need ? need : f.size(), header}); };
  add("P1", "pbm", "P1\n#c\n3 2\n1 0 1\n0 1 1\n", 21, 12);
  add("P2", "pgm", "P2 2 2 9\n1 2 3 9\n", 16, 10);
  add("P3", "ppm", "P3 1 2 255\n1 2 3\n40 50 66\n", 24, 11);
  add("P4", "pbm", Bytes("P4\n9 2\n\x55\x80\xaa\x00", 11), 11, 7);
  add("P5", "pgm", "P5\n3 2\n200\nabcdef", 17, 11);
  add("P6", "ppm", "P6 1 2 255\nabcdef", 17, 11);
  for (unsigned hd : BMP_HEADERS)
    for (unsigned bpp : {1u, 4u, 8u, 24u, 32u}) {
      if (hd == 12 && bpp == 32)
        continue;
      if (hd > 40 && bpp != 8 && bpp != 32)
        continue;
      Bmp b;
      b.header = hd;
      b.bpp = bpp;
      b.w = 3;
      b.h = 2;
      if (bpp <= 8) {
        b.palette = bmp_palette(bpp == 4, hd == 12 ? 1u << bpp : 2);
        b.clr_used = hd == 12 ? 0 : 2;
      }
      if (bpp == 32) {
        b.compr = 3;
        b.mask[0] = 0xff0000;
        b.mask[1] = 0xff00;
        b.mask[2] = 0xff;
        b.mask[3] = hd > 40 ? 0xff000000 : 0;
      }
      std::vector<unsigned> px = {0, 1, 1, 1, 0, 1};
      b.pack(px);
      Bytes f = b.file();
      unsigned used = bpp <= 8 ? (3 * bpp + 7) / 8 : 3 * bpp / 8, row = (used + 3) / 4 * 4;
      add(fmt("bmp%u-h%u", bpp, hd), "bmp", f, bpp <= 8 ? f.size() - row + used : f.size(), 14 + hd);
    }
  for (unsigned bpp : {4u, 8u}) {
    Bmp b;
    b.bpp = bpp;
    b.w = 5;
    b.h = 3;
    b.compr = bpp == 8 ? 1 : 2;
    b.palette = bmp_palette(bpp == 8, 4);
    b.clr_used = 4;
    std::vector<unsigned> g;
    bool ended;
    rle_play(bpp, 5, 3, {{RleOp::RUN, 3, 0x12}, {RleOp::EOL, 0, 0}, {RleOp::ABS, 4, 0}, {RleOp::DELTA, 0, 1}}, b.data, g, ended);
    add(fmt("bmprle%u", bpp), "bmp", b.file(), 0, 54);
  }
  {
    Bmp b; // a full palette
    b.bpp = 8;
    b.w = 3;
    b.h = 2;
    b.palette = bmp_palette(0, 256);
    b.pack({0, 1, 255, 2, 3, 4});
    b.extra = Bytes(64, 'e');
    Bytes f = b.file();
    add("bmp8-full", "bmp", f, f.size() - 64 - 1, 54);
  }
  {
    Bmp b;
    b.bpp = 24;
    b.w = 2;
    b.h = 2;
    b.topdown = true;
    b.array = true;
    b.pack({1, 2, 3, 4});
    add("bmpBA", "bmp", b.file(), 0, 30);
  }
  for (unsigned ty : {1u, 2u, 3u, 9u, 10u, 11u}) {
    Tga t;
    t.type = ty;
    t.w = 3;
    t.h = 2;
    t.bpp = t.mapped() || t.gray() ? 8 : 32;
    t.abits = t.bpp == 32 ? 8 : 0;
    t.id = 2;
    t.right_to_left = ty == 9;
    if (t.mapped()) {
      t.cmap = {0x112233, 0x445566, 0x778899};
      t.cmap_bits = ty == 9 ? 32 : 24;
    }
    t.pack({1, 1, 2, 0, 1, 2});
    add(fmt("tga%u", ty), "tga", t.file(), 0, 18);
  }
  for (auto &q : PNG_KINDS)
    if (q.depth == 8 || q.depth == 1) {
      Png g;
      g.ctype = q.ctype;
      g.depth = q.depth;
      g.w = 3;
      g.h = 2;
      g.interlace = q.ctype == 2;
      png_fill(g, 3);
      if (q.ctype == 3)
        g.palette.resize(2);
      Bytes f = g.file();
      add(fmt("png-t%u-d%u", q.ctype, q.depth), "png", f, f.size() - 12 - 4, 33); // IEND and the last CRC are not picture data
    }
  for (unsigned s = 0; s < 2; s++) {
    Gf f;
    for (unsigned n = 0; n < 2; n++) {
      GfChar c;
      c.code = 60 + n;
      c.max_col = 4;
      c.max_row = 2;
      c.short_boc = s;
      c.before = s ? gf_special(2) : "";
      c.body = gf_paint(n ? std::vector<std::vector<int>>{{0, 1, 1, 0}, {1, 0, 0, 1}, {0, 1, 0, 1}} : std::vector<std::vector<int>>{{1, 1, 1, 0}, {1, 0, 0, 0}, {0, 1, 0, 1}}, s ? 4 : 1) + (s ? "" : gf_special(1));
      f.chars.push_back(c);
    }
    f.long_loc = s;
    Bytes b = f.file();
    add(fmt("gf%u", s), "gf", b, b.find_last_not_of((char)223) + 1, 0); // the closing signature may be shorter
  }
  return v;
}

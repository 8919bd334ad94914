// Reference GF (METAFONT generic font) encoder (shared by C05 and C06).
#pragma once
#include "decode.hpp"

struct GfChar {
  unsigned code = 65;
  int min_col = 0, max_col = 1, min_row = 0, max_row = 0; // width = max_col-min_col, height = max_row-min_row+1
  bool short_boc = false;
  Bytes body;   // paint commands without eoc
  Bytes before; // specials before boc
  int advance = 7 << 16; // pixels, scaled by 2^16; a short locator holds whole pixels
};
struct Gf {
  std::vector<GfChar> chars;
  bool long_loc = false;
  unsigned design = 10 << 20, hppp = 4 << 16, vppp = 4 << 16;
  Bytes file() const {
    Bytes b;
    b += (char)247;
    b += (char)131;
    b += (char)4;
    b += "test";
    std::vector<size_t> at;
    for (auto &c : chars) {
      at.push_back(b.size());
      b += c.before;
      if (c.short_boc) {
        b += (char)68;
        b += (char)c.code;
        b += (char)(c.max_col - c.min_col);
        b += (char)c.max_col;
        b += (char)(c.max_row - c.min_row);
        b += (char)c.max_row;
      } else {
        b += (char)67;
        be32(b, c.code);
        be32(b, -1);
        be32(b, c.min_col);
        be32(b, c.max_col);
        be32(b, c.min_row);
        be32(b, c.max_row);
      }
      b += c.body;
      b += (char)69;
    }
    size_t post = b.size();
    b += (char)248;
    be32(b, post);
    be32(b, design);
    be32(b, 0x12345678);
    be32(b, hppp);
    be32(b, vppp);
    for (int i = 0; i < 4; i++)
      be32(b, 0);
    for (size_t i = 0; i < chars.size(); i++) {
      if (long_loc) {
        b += (char)245;
        b += (char)chars[i].code;
        be32(b, chars[i].advance);
        be32(b, 0);
      } else {
        b += (char)246;
        b += (char)chars[i].code;
        b += (char)(chars[i].advance >> 16);
      }
      be32(b, 1000);
      be32(b, at[i]);
    }
    b += (char)249;
    be32(b, post);
    b += (char)131;
    while (b.size() % 4 || b.size() < post + 10)
      b += (char)223;
    b += Bytes(4, (char)223);
    return b;
  }
};

// The picture is trimmed to its painted pixels; a blank character has no pixels.
inline Img gf_trim(const std::vector<std::vector<int>> &g) {
  int h = g.size(), w = h ? g[0].size() : 0, t = h, b = -1, l = w, r = -1;
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++)
      if (g[y][x]) {
        t = std::min(t, y);
        b = std::max(b, y);
        l = std::min(l, x);
        r = std::max(r, x);
      }
  Img i;
  i.np = 1;
  if (b < 0)
    return i;
  i.w = r - l + 1;
  i.h = b - t + 1;
  for (int y = t; y <= b; y++)
    for (int x = l; x <= r; x++)
      i.px += g[y][x] ? (char)255 : (char)0;
  return i;
}

inline void gf_num(Bytes &b, unsigned op1, unsigned bytes, unsigned v) {
  b += (char)(op1 + bytes - 1);
  for (unsigned k = bytes; k-- > 0;)
    b += (char)(v >> (8 * k));
}
// encodes a picture; style selects among equivalent command choices
inline Bytes gf_paint(const std::vector<std::vector<int>> &g, unsigned style) {
  Bytes b;
  int h = g.size(), w = g[0].size();
  auto paint = [&](unsigned n) {
    if (style % 4 == 0 && n <= 63)
      b += (char)n;
    else
      gf_num(b, 64, std::max(n > 255 ? 2u : 1u, style % 4), n);
  };
  int row = 0; // row the pen is on
  bool started = false;
  for (int y = 0; y < h; y++) {
    bool any = false;
    for (int x = 0; x < w; x++)
      any = any || g[y][x];
    if (!any)
      continue;
    int x = 0;
    if (y != row || started) { // move down from row to y
      int down = y - row;
      int first = 0;
      while (!g[y][first])
        first++;
      if (down == 1 && style & 4 && first <= 164) {
        b += (char)(74 + first); // new_row: starts black
        x = first;
        int e = x;
        while (e < w && g[y][e])
          e++;
        paint(e - x);
        x = e;
        goto rest;
      }
      if (down == 1 && !(style & 8))
        b += (char)70;
      else
        gf_num(b, 71, 1 + (style >> 4) % 3, down - 1);
    }
    paint(0 + [&] {
      int n = 0;
      while (x + n < w && !g[y][x + n])
        n++;
      return n;
    }());
    while (x < w && !g[y][x])
      x++;
    {
      int e = x;
      while (e < w && g[y][e])
        e++;
      paint(e - x);
      x = e;
    }
  rest:
    while (x < w) {
      int e = x;
      while (e < w && !g[y][e])
        e++;
      if (e == w)
        break;
      paint(e - x);
      x = e;
      while (e < w && g[y][e])
        e++;
      paint(e - x);
      x = e;
    }
    started = true;
    row = y;
  }
  return b;
}
static const char *const GF_SPECIALS[6] = {"", "\xef\x03" "abc", "\xf0\x00\x02" "xy", "\xf1\x00\x00\x01" "z", "\xf2\x00\x00\x00\x04" "four", "\xf3\x00\x01\x00\x00"};
static const unsigned GF_SPECIAL_LEN[6] = {0, 5, 5, 5, 9, 5};
inline Bytes gf_special(unsigned k) { return Bytes(GF_SPECIALS[k], GF_SPECIAL_LEN[k]); }

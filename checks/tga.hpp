// Reference TGA encoder (shared by C03 and C06).
#pragma once
#include "decode.hpp"

struct Tga {
  unsigned type = 2, w = 1, h = 1, bpp = 24, id = 0, abits = 0;
  bool right_to_left = false, top_down = false, footer = false;
  unsigned cmap_first = 0, cmap_bits = 24, xo = 0, yo = 0;
  std::vector<unsigned> cmap; // 0xAARRGGBB
  Bytes data;

  bool mapped() const { return type == 1 || type == 9; }
  bool gray() const { return type == 3 || type == 11; }
  bool rle() const { return type >= 9; }
  Bytes file() const {
    Bytes b;
    b += (char)id;
    b += (char)mapped();
    b += (char)type;
    le16(b, mapped() ? cmap_first : 0);
    le16(b, mapped() ? cmap.size() : 0);
    b += (char)(mapped() ? cmap_bits : 0);
    le16(b, xo);
    le16(b, yo);
    le16(b, w);
    le16(b, h);
    b += (char)bpp;
    b += (char)(abits | (right_to_left ? 0x10 : 0) | (top_down ? 0x20 : 0));
    b += Bytes(id, 'I');
    if (mapped())
      for (unsigned c : cmap)
        for (unsigned q = 0; q < cmap_bits / 8; q++)
          b += (char)(c >> (8 * q));
    b += data;
    if (footer) {
      b += Bytes(8, '\0');
      b += Bytes("TRUEVISION-XFILE.\0", 18);
    }
    return b;
  }
  // pixels in file order from pixels in picture order
  std::vector<unsigned> order(const std::vector<unsigned> &v) const {
    std::vector<unsigned> o;
    for (unsigned r = 0; r < h; r++)
      for (unsigned c = 0; c < w; c++)
        o.push_back(v[(top_down ? r : h - 1 - r) * w + (right_to_left ? w - 1 - c : c)]);
    return o;
  }
  Bytes px(unsigned v) const {
    Bytes b;
    for (unsigned q = 0; q < bpp / 8; q++)
      b += (char)(v >> (8 * q));
    return b;
  }
  void pack(const std::vector<unsigned> &v) {
    data.clear();
    std::vector<unsigned> o = order(v);
    if (!rle()) {
      for (unsigned x : o)
        data += px(x);
      return;
    }
    for (size_t i = 0; i < o.size();) { // greedy packets across rows
      size_t n = 1;
      while (i + n < o.size() && o[i + n] == o[i] && n < 128)
        n++;
      if (n > 1) {
        data += (char)(0x80 | (n - 1));
        data += px(o[i]);
        i += n;
      } else {
        size_t m = 1;
        while (i + m < o.size() && m < 128 && !(i + m + 1 < o.size() && o[i + m] == o[i + m + 1]))
          m++;
        data += (char)(m - 1);
        for (size_t k = 0; k < m; k++)
          data += px(o[i + k]);
        i += m;
      }
    }
  }
  Img reference(const std::vector<unsigned> &v) const {
    Img i;
    i.w = w;
    i.h = h;
    i.np = 3;
    for (unsigned x : v) {
      unsigned c;
      if (mapped())
        c = x >= cmap_first && x < cmap_first + cmap.size() ? cmap[x - cmap_first] : 0;
      else if (gray())
        c = (x & 255) * 0x10101;
      else
        c = x;
      i.px += (char)(c >> 16);
      i.px += (char)(c >> 8);
      i.px += (char)c;
    }
    return i;
  }
};

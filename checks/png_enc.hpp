// Reference PNG encoder (shared by C04 and C06): own filtering and interlacing, zlib for the stream.
#pragma once
#include "decode.hpp"
#include <zlib.h>

struct Png {
  unsigned w = 1, h = 1, depth = 8, ctype = 2; // 0 gray 2 rgb 3 palette 4 gray+alpha 6 rgba
  bool interlace = false;
  unsigned filter = 5;  // 0..4 fixed, 5: row number modulo 5
  unsigned level = 6;   // deflate level
  unsigned split = 0;   // IDAT split size, 0: one chunk
  std::vector<unsigned> palette;
  Bytes trns;
  Bytes extra; // chunks before IDAT
  std::vector<unsigned> s; // samples, row-major, channels() per pixel, depth bits each

  unsigned channels() const { return ctype == 2 ? 3 : ctype == 4 ? 2 : ctype == 6 ? 4 : 1; }
  static Bytes chunk(const char *type, const Bytes &d) {
    Bytes b;
    be32(b, d.size());
    Bytes td = Bytes(type, 4) + d;
    b += td;
    be32(b, crc32(0, (const Bytef *)td.data(), td.size()));
    return b;
  }
  // the filtered rows of a sub-picture
  void rows(Bytes &out, unsigned x0, unsigned y0, unsigned dx, unsigned dy) const {
    unsigned bpp = depth * channels(), bytes = bpp < 8 ? 1 : bpp / 8;
    Bytes prev;
    unsigned rowno = 0;
    for (unsigned y = y0; y < h; y += dy) {
      Bytes row;
      unsigned acc = 0, n = 0;
      bool any = false;
      for (unsigned x = x0; x < w; x += dx) {
        any = true;
        for (unsigned c = 0; c < channels(); c++) {
          unsigned v = s[(y * w + x) * channels() + c];
          if (depth == 16) {
            row += (char)(v >> 8);
            row += (char)v;
          } else {
            acc = acc << depth | v;
            n += depth;
            if (n == 8) {
              row += (char)acc;
              acc = n = 0;
            }
          }
        }
      }
      if (!any)
        return; // empty pass
      if (n)
        row += (char)(acc << (8 - n));
      if (prev.empty())
        prev = Bytes(row.size(), '\0');
      unsigned f = filter < 5 ? filter : rowno % 5;
      out += (char)f;
      for (size_t i = 0; i < row.size(); i++) {
        int a = i >= bytes ? (unsigned char)row[i - bytes] : 0, b = (unsigned char)prev[i], c = i >= bytes ? (unsigned char)prev[i - bytes] : 0;
        int pr = 0;
        if (f == 1)
          pr = a;
        else if (f == 2)
          pr = b;
        else if (f == 3)
          pr = (a + b) / 2;
        else if (f == 4) {
          int p = a + b - c, pa = abs(p - a), pb = abs(p - b), pc = abs(p - c);
          pr = pa <= pb && pa <= pc ? a : pb <= pc ? b : c;
        }
        out += (char)((unsigned char)row[i] - pr);
      }
      prev = row;
      rowno++;
    }
  }
  Bytes file() const {
    Bytes b("\x89PNG\r\n\x1a\n", 8);
    Bytes ih;
    be32(ih, w);
    be32(ih, h);
    ih += (char)depth;
    ih += (char)ctype;
    ih += Bytes(2, '\0');
    ih += (char)interlace;
    b += chunk("IHDR", ih);
    if (palette.size()) {
      Bytes p;
      for (unsigned c : palette) {
        p += (char)(c >> 16);
        p += (char)(c >> 8);
        p += (char)c;
      }
      b += chunk("PLTE", p);
    }
    if (trns.size())
      b += chunk("tRNS", trns);
    b += extra;
    Bytes raw;
    if (interlace) {
      static const unsigned P[7][4] = {{0, 0, 8, 8}, {4, 0, 8, 8}, {0, 4, 4, 8}, {2, 0, 4, 4}, {0, 2, 2, 4}, {1, 0, 2, 2}, {0, 1, 1, 2}};
      for (auto &q : P)
        rows(raw, q[0], q[1], q[2], q[3]);
    } else
      rows(raw, 0, 0, 1, 1);
    uLongf zn = compressBound(raw.size());
    Bytes z(zn, '\0');
    compress2((Bytef *)&z[0], &zn, (const Bytef *)raw.data(), raw.size(), level);
    z.resize(zn);
    if (split)
      for (size_t o = 0; o < z.size(); o += split)
        b += chunk("IDAT", z.substr(o, split));
    else
      b += chunk("IDAT", z);
    return b + chunk("IEND", "");
  }
  Img reference() const {
    Img i;
    i.w = w;
    i.h = h;
    i.np = 3;
    unsigned max = (1u << depth) - 1;
    for (unsigned p = 0; p < w * h; p++) {
      const unsigned *q = &s[p * channels()];
      unsigned c[3];
      if (ctype == 3) {
        unsigned e = q[0] < palette.size() ? palette[q[0]] : 0;
        c[0] = e >> 16 & 255;
        c[1] = e >> 8 & 255;
        c[2] = e & 255;
      } else
        for (int k = 0; k < 3; k++) {
          unsigned v = q[ctype == 2 || ctype == 6 ? k : 0];
          c[k] = depth == 16 ? v >> 8 : v * 255 / max;
        }
      for (int k = 0; k < 3; k++)
        i.px += (char)c[k];
    }
    return i;
  }
};
struct PngKind {
  unsigned ctype, depth;
};
static const PngKind PNG_KINDS[15] = {{0, 1}, {0, 2}, {0, 4}, {0, 8}, {0, 16}, {2, 8}, {2, 16}, {3, 1}, {3, 2}, {3, 4}, {3, 8}, {4, 8}, {4, 16}, {6, 8}, {6, 16}};
inline void png_fill(Png &p, unsigned salt) {
  p.s.clear();
  u64 mod = 1ull << p.depth;
  for (unsigned i = 0; i < p.w * p.h * p.channels(); i++)
    p.s.push_back((unsigned)(((u64)i * 2654435761u + salt * 977 + i * i * 31) >> 3) % mod);
  if (p.ctype == 3) {
    p.palette.clear();
    for (unsigned i = 0; i < (1u << p.depth); i++)
      p.palette.push_back((i * 0x7b31c5 + 0x20ff10) & 0xffffff);
  }
}

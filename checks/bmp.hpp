// Reference BMP encoder (shared by C02 and C06).
#pragma once
#include "decode.hpp"

struct Bmp {
  unsigned header = 40, bpp = 24, compr = 0, clr_used = 0, gap = 0;
  unsigned w = 1, h = 1;
  bool topdown = false, array = false;
  const char *magic = "BM";
  std::vector<unsigned> palette; // 0xRRGGBB
  unsigned mask[4] = {0, 0, 0, 0};
  Bytes data;         // encoded rows, already in file order
  std::string extra;  // bytes after the pixel data

  Bytes file() const {
    unsigned entry = header == 12 ? 3 : 4;
    unsigned pal = palette.size() * entry;
    unsigned m = header == 40 && compr == 3 ? 12 : 0;
    unsigned off = 14 + header + m + pal + gap + (array ? 14 : 0);
    Bytes b;
    if (array) {
      b += "BA";
      le32(b, 40);
      le32(b, 0);
      le16(b, 0);
      le16(b, 0);
    }
    b += magic;
    le32(b, off + data.size());
    le16(b, 0);
    le16(b, 0);
    le32(b, off);
    le32(b, header);
    if (header == 12) {
      le16(b, w);
      le16(b, h);
      le16(b, 1);
      le16(b, bpp);
    } else {
      le32(b, w);
      le32(b, topdown ? -(int)h : h);
      le16(b, 1);
      le16(b, bpp);
      le32(b, compr);
      le32(b, data.size());
      le32(b, 2835);
      le32(b, 2835);
      le32(b, clr_used);
      le32(b, 0);
      if (header > 40) {
        Bytes rest;
        for (int i = 0; i < 4; i++)
          le32(rest, mask[i]);
        rest.resize(header - 40, header == 64 ? 3 : 0);
        b += rest;
      } else if (m)
        for (int i = 0; i < 3; i++)
          le32(b, mask[i]);
    }
    for (unsigned c : palette) {
      b += (char)c;
      b += (char)(c >> 8);
      b += (char)(c >> 16);
      if (entry == 4)
        b += (char)0x5a; // reserved byte, no meaning
    }
    b += Bytes(gap, (char)0x77);
    return b + data + extra;
  }
  // pixel values (bpp bits each), row-major from the top
  void pack(const std::vector<unsigned> &v) {
    data.clear();
    for (unsigned k = 0; k < h; k++) {
      unsigned r = topdown ? k : h - 1 - k;
      Bytes row;
      if (bpp <= 8) {
        unsigned acc = 0, n = 0;
        for (unsigned c = 0; c < w; c++) {
          acc = acc << bpp | v[r * w + c];
          n += bpp;
          if (n == 8) {
            row += (char)acc;
            acc = n = 0;
          }
        }
        if (n)
          row += (char)(acc << (8 - n));
      } else
        for (unsigned c = 0; c < w; c++)
          for (unsigned q = 0; q < bpp / 8; q++)
            row += (char)(v[r * w + c] >> (8 * q));
      while (row.size() % 4)
        row += (char)0xee;
      data += row;
    }
  }
  unsigned scale(unsigned px, unsigned m) const {
    if (!m)
      return 0;
    unsigned sh = __builtin_ctz(m);
    u64 x = (px & m) >> sh, mx = m >> sh;
    return (unsigned)((2 * 255 * x + mx) / (2 * mx));
  }
  Img reference(const std::vector<unsigned> &v) const {
    Img i;
    i.w = w;
    i.h = h;
    i.np = 3;
    unsigned m[3] = {mask[0], mask[1], mask[2]};
    if (compr != 3) {
      unsigned d16[3] = {0x7c00, 0x3e0, 0x1f}, d32[3] = {0xff0000, 0xff00, 0xff};
      memcpy(m, bpp == 16 ? d16 : d32, sizeof m);
    }
    for (unsigned x : v) {
      unsigned c;
      if (bpp <= 8)
        c = x < palette.size() ? palette[x] : 0;
      else
        c = scale(x, m[0]) << 16 | scale(x, m[1]) << 8 | scale(x, m[2]);
      i.px += (char)(c >> 16);
      i.px += (char)(c >> 8);
      i.px += (char)c;
    }
    return i;
  }
};

static const unsigned BMP_HEADERS[] = {12, 40, 56, 64, 108, 124};

inline std::vector<unsigned> bmp_palette(unsigned kind, unsigned n) {
  std::vector<unsigned> p;
  for (unsigned i = 0; i < n; i++)
    switch (kind) {
    case 0: // colours
      p.push_back((i * 0x3b6d19 + 0x1f30a7) & 0xffffff);
      break;
    case 1: // gray ramp
      p.push_back((n > 1 ? i * 255 / (n - 1) : 0) * 0x10101);
      break;
    case 2: // reversed gray ramp
      p.push_back((n > 1 ? 255 - i * 255 / (n - 1) : 0) * 0x10101);
      break;
    case 4: // two channels alike
    case 5:
    case 6: {
      unsigned a = (i * 91 + 40) & 255, b = (i * 53 + 7) & 255;
      p.push_back(kind == 4 ? a << 16 | b << 8 | a : kind == 5 ? a << 16 | a << 8 | b : b << 16 | a << 8 | a);
      break;
    }
    default: // gray but for the last entry
      p.push_back(i + 1 == n ? 0x0000ff : ((i * 91 + 40) & 255) * 0x10101);
    }
  return p;
}

// ---- RLE opcode sequences ----
struct RleOp {
  enum { RUN, ABS, EOL, EOB, DELTA } kind;
  unsigned a, b; // RUN: count, value; ABS: count, seed; DELTA: dx, dy
};
inline std::vector<RleOp> rle_alphabet(unsigned bpp, unsigned w) {
  std::vector<RleOp> o;
  for (unsigned n : {1u, 2u, 3u, w})
    for (unsigned v : {0x12u, 0xf3u})
      o.push_back({RleOp::RUN, n, v});
  for (unsigned n : {3u, 4u, 5u})
    o.push_back({RleOp::ABS, n, 0});
  o.push_back({RleOp::EOL, 0, 0});
  o.push_back({RleOp::EOB, 0, 0});
  o.push_back({RleOp::DELTA, 1, 0});
  o.push_back({RleOp::DELTA, 0, 1});
  o.push_back({RleOp::DELTA, 2, 1});
  return o;
}
// appends the stream and plays it on the reference grid; false if the stream leaves the picture
inline bool rle_play(unsigned bpp, unsigned w, unsigned h, const std::vector<RleOp> &ops, Bytes &out, std::vector<unsigned> &grid, bool &ended) {
  int x = 0, y = (int)h - 1;
  grid.assign(w * h, 0);
  bool ok = true;
  ended = false;
  unsigned seed = 1;
  auto put = [&](unsigned v) {
    if (y < 0 || x >= (int)w)
      ok = false;
    else
      grid[y * w + x] = v;
    x++;
  };
  for (auto &o : ops) {
    if (ended)
      break;
    switch (o.kind) {
    case RleOp::RUN:
      out += (char)o.a;
      out += (char)o.b;
      for (unsigned k = 0; k < o.a; k++)
        put(bpp == 8 ? o.b : (k & 1 ? o.b & 15 : o.b >> 4));
      break;
    case RleOp::ABS: {
      out += (char)0;
      out += (char)o.a;
      std::vector<unsigned> v;
      for (unsigned k = 0; k < o.a; k++)
        v.push_back((seed += 7) & (bpp == 8 ? 255 : 15));
      Bytes raw;
      if (bpp == 8)
        for (unsigned q : v)
          raw += (char)q;
      else
        for (unsigned k = 0; k < o.a; k += 2)
          raw += (char)(v[k] << 4 | (k + 1 < o.a ? v[k + 1] : 0));
      if (raw.size() & 1)
        raw += (char)0;
      out += raw;
      for (unsigned q : v)
        put(q);
      break;
    }
    case RleOp::EOL:
      out += Bytes(2, '\0');
      x = 0;
      y--;
      break;
    case RleOp::EOB:
      out += Bytes("\0\1", 2);
      ended = true;
      break;
    case RleOp::DELTA:
      out += Bytes("\0\2", 2);
      out += (char)o.a;
      out += (char)o.b;
      x += o.a;
      y -= o.b;
      if (x > (int)w || y < 0)
        ok = false;
      break;
    }
  }
  if (!ended) { // every stream is terminated
    out += Bytes("\0\1", 2);
    ended = true;
  }
  return ok;
}

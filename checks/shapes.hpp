// Pictures: grids of cells, polygons, ellipses.
#pragma once
#include "trace.hpp"

// cell (x,y) of a w x h grid has digit v of the base-k number bits; columns and rows have the given sizes
inline Img grid(unsigned w, unsigned h, u64 bits, unsigned base, const unsigned *cw, const unsigned *rh) {
  static const unsigned char G[4] = {255, 0, 128, 60};
  Img i;
  i.np = 1;
  i.w = i.h = 0;
  for (unsigned x = 0; x < w; x++)
    i.w += cw[x];
  for (unsigned y = 0; y < h; y++)
    i.h += rh[y];
  for (unsigned y = 0; y < h; y++) {
    Bytes row;
    for (unsigned x = 0; x < w; x++, bits /= base)
      row += Bytes(cw[x], (char)G[bits % base]);
    for (unsigned k = 0; k < rh[y]; k++)
      i.px += row;
  }
  return i;
}
inline Img scaled(unsigned w, unsigned h, u64 bits, unsigned k, unsigned base = 2) {
  unsigned s[8] = {k, k, k, k, k, k, k, k};
  return grid(w, h, bits, base, s, s);
}
// filled polygon with the given vertices, by the even-odd rule at pixel centres
inline Img poly(unsigned w, unsigned h, const std::vector<Pt> &v) {
  Img i;
  i.w = w;
  i.h = h;
  i.np = 1;
  for (unsigned y = 0; y < h; y++)
    for (unsigned x = 0; x < w; x++)
      i.px += (char)(winding(v, x + .5, y + .5) ? 0 : 255);
  return i;
}
inline Img disc(unsigned w, unsigned h, double cx, double cy, double rx, double ry) {
  Img i;
  i.w = w;
  i.h = h;
  i.np = 1;
  for (unsigned y = 0; y < h; y++)
    for (unsigned x = 0; x < w; x++) {
      double dx = (x + .5 - cx) / rx, dy = (y + .5 - cy) / ry;
      i.px += (char)(dx * dx + dy * dy < 1 ? 0 : 255);
    }
  return i;
}

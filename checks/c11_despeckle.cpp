// C11: despeckling against a reference model on plain connected components.
#include "trace.hpp"

// values pairwise at distinct distances, so that the most similar neighbour is always unique
static const int AL[5] = {0, 10 * 0x10101, 25 * 0x10101, 65 * 0x10101, 0xffffff};

// squared distance of two 0xrrggbb colours
static long dist(int a, int b) {
  long s = 0;
  for (int k = 0; k < 24; k += 8)
    s += (long)((a >> k & 255) - (b >> k & 255)) * ((a >> k & 255) - (b >> k & 255));
  return s;
}
static std::vector<int> reference(std::vector<int> g, int w, int h, int level, double tight, double noise, bool *tie = nullptr) {
  int most = (int)(log((double)w * h) / log(2.0) - 0.5);
  if (level > most)
    level = most;
  double adapt = level ? (noise * (1 + tight * level) - 1) / level : 0;
  for (int it = 0; it < level; it++) {
    long lim = 1l << it;
    int maxdiff = (int)(noise * 255.0 / (1 + adapt * it));
    std::vector<char> done((size_t)w * h, 0);
    for (int s = 0; s < w * h; s++) {
      if (done[s])
        continue;
      std::vector<int> blob{s};
      std::vector<char> in((size_t)w * h, 0);
      in[s] = 1;
      int best = -1;
      for (size_t q = 0; q < blob.size(); q++) {
        int x = blob[q] % w, y = blob[q] / w;
        static const int D[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
        for (auto &d : D) {
          int xx = x + d[0], yy = y + d[1], b = yy * w + xx;
          if (xx < 0 || yy < 0 || xx >= w || yy >= h || in[b])
            continue;
          if (g[b] == g[s]) {
            in[b] = 1;
            blob.push_back(b);
          } else if (best < 0 || dist(g[b], g[s]) < dist(best, g[s]))
            best = g[b];
          else if (tie && g[b] != best && dist(g[b], g[s]) == dist(best, g[s]))
            *tie = true;
        }
      }
      bool merge = (long)blob.size() < lim && best >= 0 && dist(best, g[s]) <= 3l * maxdiff * maxdiff;
      for (int b : blob) {
        done[b] = 1;
        if (merge)
          g[b] = best;
      }
    }
  }
  return g;
}

static void one(Ctx &c, unsigned w, unsigned h, const std::vector<int> &g, unsigned np, int level, float tight, float noise, const std::string &cls) {
  Img im;
  im.w = w;
  im.h = h;
  im.np = np;
  for (int v : g) {
    if (np == 3)
      im.px += {(char)(v >> 16), (char)(v >> 8)};
    im.px += (char)v;
  }
  c.note("%s level %d tightness %g noise %g", im.str().c_str(), level, tight, noise);
  Opts o;
  exact(o); // the fastest way to trace
  o->despeckle_level = level;
  o->despeckle_tightness = tight;
  o->noise_removal = noise;
  at_bitmap *b = to_bitmap(im);
  Msgs m;
  at_splines_type *s = at_splines_new(b, o.o, Msgs::cb, &m);
  std::set<int> cols;
  for (auto &l : grab(s).shapes)
    cols.insert(l.color.r << 16 | l.color.g << 8 | l.color.b);
  bool null = !s;
  if (s)
    at_splines_free(s);
  Img got = from_bitmap(b);
  at_bitmap_free(b);
  c.step(g.size());
  c.trace();
  if (null || m.fatal || got.w != w || got.h != h || got.np != np) {
    c.fail("error:" + cls, "%s: %s", im.str().c_str(), m.last.c_str());
    return;
  }
  bool tie = false;
  std::vector<int> want = reference(g, w, h, level, tight, noise, &tie);
  if (tie)
    return; // which of two equally similar neighbours is taken is not specified
  Img rgb = as_rgb(got);
  for (size_t k = 0; k < want.size(); k++) {
    int v = (unsigned char)rgb.px[k * 3] << 16 | (unsigned char)rgb.px[k * 3 + 1] << 8 | (unsigned char)rgb.px[k * 3 + 2];
    if (v != want[k]) {
      c.fail("pixel:" + cls, "%s level %d tightness %g noise %g: pixel %zu is %06x, expected %06x: %s", im.str().c_str(), level, tight, noise, k, v, want[k], got.str().c_str());
      return;
    }
  }
  if (cols != std::set<int>(want.begin(), want.end()))
    c.fail("shapes:" + cls, "%s: %zu colours traced", im.str().c_str(), cols.size());
  c.state(got.hash());
  if (got.px != im.px)
    c.nontrivial(got.hash());
}

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C11";
  k.bounds = fmt("every picture of up to %u pixels in 3 values and up to %u in 2 values (4x6: every pattern of 2x2 and single cells), levels 0..5 and 20, tightness 0/2/8, noise removal 0.5/0.99/1, gray and RGB; areas of 7 to 513 pixels", th ? 12 : 9, th ? 20 : 16);
  static const float TI[3] = {2, 0, 8}, NO[3] = {.99f, 1, .5f};
  auto grid = [&](unsigned nv, unsigned w, unsigned h, unsigned cfg) {
    u64 n = 1;
    for (unsigned q = 0; q < w * h; q++)
      n *= nv;
    k.spaces.push_back({fmt("v%u-%ux%u", nv, w, h), n * cfg, [=](u64 i, Ctx &c) {
                          Pick p(i);
                          unsigned f = p(cfg);
                          std::vector<int> g;
                          for (unsigned q = 0; q < w * h; q++)
                            g.push_back(AL[p(nv)]);
                          // configurations: level 1..3 and 20, then the other settings
                          int level = cfg == 1 ? 3 : cfg == 2 ? 2 + f : f < 4 ? (f == 3 ? 20 : 1 + f) : 3;
                          float t = f < 4 ? 2 : TI[(f - 4) % 3], no = f < 4 ? .99f : NO[(f - 4) / 3 % 3];
                          one(c, w, h, g, (i / 7) % 2 ? 3 : 1, level, t, no, fmt("v%u", nv));
                        }});
  };
  for (unsigned w = 1; w <= 20; w++)
    for (unsigned h = 1; w * h <= 20; h++) {
      unsigned n = w * h;
      if (n <= (th ? 12 : 9))
        grid(3, w, h, n <= 8 || th ? 13 : 4);
      if (n > 9 && n <= (th ? 20 : 16) && (n < 13 || (w > 2 && h > 2)))
        grid(2, w, h, th ? 13 : n <= 12 ? 13 : 2);
      if (!th && n == 12 && w == 4 && h == 3)
        grid(3, w, h, 1);
    }
  // larger pictures: level 4 and 5 remove blobs of up to 7 and 15 pixels; a blob of every size,
  // shape by boustrophedon order, in three surroundings
  k.spaces.push_back({"blobs", 24ull * 3 * 5 * 6 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned size = 1 + p(24), sur = p(3), val = p(5), level = 1 + p(6), np = p(2) ? 3 : 1;
                        const int w = 8, h = 8;
                        std::vector<int> g;
                        for (int q = 0; q < w * h; q++)
                          g.push_back(sur == 0 ? AL[1] : sur == 1 ? AL[q % w < 4 ? 1 : 3] : AL[q / w < 4 ? 2 : 4]);
                        for (unsigned s = 0; s < size; s++) {
                          int y = s / 5, x = y % 2 ? 4 - s % 5 : s % 5;
                          g[(y + 1) * w + x + 1] = AL[val];
                        }
                        one(c, w, h, g, np, level, 2, .99f, "blobs");
                      }});
  // one or two large areas with as many pixels as a round removes, one less or one more
  k.spaces.push_back({"areas", 7ull * 3 * 4 * 2 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned e = 3 + p(7), size = (1u << e) + p(3) - 1, level = e - 1 + p(4), two = p(2), np = p(2) ? 3 : 1;
                        const int w = 40, h = 33;
                        std::vector<int> g(w * h, AL[1]);
                        for (unsigned s = 0; s < size; s++) {
                          int y = s / 23, x = y % 2 ? 22 - s % 23 : s % 23;
                          g[(y + 2) * w + x + 3] = AL[0];
                        }
                        if (two) // a second one beside it, of half the size
                          for (unsigned s = 0; s < size / 2; s++)
                            g[(s / 10 + 1) * w + 28 + s % 10] = AL[2];
                        one(c, w, h, g, np, level, 8, 1, "areas");
                      }});
  // every pattern of 12 double cells: blobs of 2, 4, 6 ... pixels
  k.spaces.push_back({"cells", 4096ull * 3 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned bits = p(4096), level = 3 + p(3), lay = p(2);
                        std::vector<int> g(48);
                        unsigned w = lay ? 8 : 6, h = lay ? 6 : 8;
                        for (unsigned q = 0; q < 48; q++) {
                          unsigned x = q % w, y = q / w, cell = (y / 2) * (w / 2) + x / 2;
                          g[q] = AL[bits >> cell & 1 ? (y + x) % 5 == 0 ? 2 : 1 : 0];
                        }
                        one(c, w, h, g, 1, level, 2, .99f, "cells");
                      }});
  // colours: a pixel between two areas, all combinations of a cube of colours
  k.spaces.push_back({"colors", 64ull * 64 * 64, [=](u64 i, Ctx &c) {
                        static const int S[4] = {0, 31, 85, 170};
                        Pick p(i);
                        int v[3];
                        for (int &x : v) {
                          int r = p(4), g = p(4), b = p(4);
                          x = S[r] << 16 | (S[g] + 1) << 8 | (S[b] + 3);
                        }
                        if (v[1] >= v[2])
                          return;
                        std::vector<int> g{v[1], v[1], v[1], v[1], v[0], v[2], v[2], v[2], v[2]};
                        one(c, 3, 3, g, 3, 2, i % 2 ? 2 : 8, .99f, "colors");
                      }});
  // long pictures
  k.spaces.push_back({"strips", 5ull * 2 * 2, [=](u64 i, Ctx &c) {
                        static const unsigned LEN[5] = {255, 300, 32767, 32768, 40000};
                        Pick p(i);
                        unsigned L = LEN[p(5)], dir = p(2), np = p(2) ? 3 : 1;
                        Img im;
                        im.w = dir ? L : 1;
                        im.h = dir ? 1 : L;
                        im.np = np;
                        im.px = std::string((size_t)L * np, (char)200);
                        for (unsigned a : {0u, 7u, 8u, L / 2, L - 1})
                          for (unsigned z = 0; z < np; z++)
                            im.px[a * np + z] = 190;
                        Opts o;
                        o->despeckle_level = 2;
                        o.bg(200, 200, 200);
                        at_bitmap *b = to_bitmap(im);
                        at_splines_type *s = at_splines_new(b, o.o, nullptr, nullptr);
                        if (s)
                          at_splines_free(s);
                        Img got = from_bitmap(b);
                        at_bitmap_free(b);
                        c.trace();
                        c.state(i);
                        for (unsigned z = 0; z < np; z++)
                          for (unsigned a : {7u, 8u})
                            im.px[a * np + z] = 190; // two pixels wide: stays
                        for (unsigned a : {0u, L / 2, L - 1})
                          for (unsigned z = 0; z < np; z++)
                            im.px[a * np + z] = (char)200;
                        if (got.px != im.px)
                          c.fail("strips", "%ux%ux%u: speckles remain", im.w, im.h, np);
                      },
                      60});
  // one winding line that fills the picture: nothing to remove, but a long way to go
  k.spaces.push_back({"winding", 4ull * 2 * 2 * 2, [=](u64 i, Ctx &c) {
                        static const unsigned N[4] = {30, 100, 300, 700};
                        Pick p(i);
                        unsigned n = N[p(4)], dir = p(2), np = p(2) ? 3 : 1, dot = p(2);
                        Img im;
                        im.w = im.h = n;
                        im.np = np;
                        im.px = std::string((size_t)n * n * np, (char)200);
                        auto set = [&](unsigned x, unsigned y, int v) {
                          for (unsigned z = 0; z < np; z++)
                            im.px[((size_t)(dir ? x : y) * n + (dir ? y : x)) * np + z] = (char)v;
                        };
                        for (unsigned x = 0; x < n; x += 2) {
                          for (unsigned y = 0; y < n; y++)
                            set(x, y, 190);
                          if (x + 2 < n)
                            set(x + 1, (x / 2) % 2 ? 0 : n - 1, 190);
                        }
                        Img want = im;
                        if (dot)
                          set(8, n / 2, 150);
                        Opts o;
                        o->despeckle_level = 3;
                        o.bg(190, 190, 190);
                        at_bitmap *b = to_bitmap(im);
                        // the tracing itself is of no interest here
                        at_splines_type *s = at_splines_new_full(b, o.o, nullptr, nullptr, nullptr, nullptr, [](void *) -> bool { return true; }, nullptr);
                        if (s)
                          at_splines_free(s);
                        Img got = from_bitmap(b);
                        at_bitmap_free(b);
                        c.trace();
                        c.state(i);
                        if (got.px != want.px)
                          c.fail("winding", "%ux%ux%u direction %u: changed", n, n, np, dir);
                      },
                      60});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }

// C28: tracing sees colours only as equal or different: renaming them renames the shapes.
#include "shapes.hpp"

typedef std::vector<unsigned> Pal; // label -> 0xrrggbb
// label pictures: one digit per pixel
struct Lab {
  unsigned w, h;
  std::vector<unsigned char> v;
};
static Lab labels(unsigned w, unsigned h, u64 code, unsigned base, unsigned k) {
  Lab l;
  l.w = w * k;
  l.h = h * k;
  std::vector<unsigned char> d(w * h);
  for (auto &x : d) {
    x = code % base;
    code /= base;
  }
  for (unsigned y = 0; y < l.h; y++)
    for (unsigned x = 0; x < l.w; x++)
      l.v.push_back(d[y / k * w + x / k]);
  return l;
}
static Img colour(const Lab &l, const Pal &p, unsigned np) {
  Img i;
  i.w = l.w;
  i.h = l.h;
  i.np = np;
  for (auto v : l.v) {
    i.px += (char)(p[v] >> 16);
    if (np == 3) {
      i.px += (char)(p[v] >> 8);
      i.px += (char)p[v];
    }
  }
  return i;
}
// the traced shapes with labels instead of colours
static std::string text(const Img &im, const Pal &p, int bg, bool centre, Ctx &c) {
  Opts o;
  o->centerline = centre;
  if (bg >= 0)
    o.bg(p[bg] >> 16, p[bg] >> 8 & 255, p[bg] & 255);
  Msgs m;
  Traced t = trace_img(im, o, m);
  c.step();
  if (t.null)
    return "error " + m.last;
  std::string s;
  for (auto &l : t.shapes) {
    unsigned rgb = l.color.r << 16 | l.color.g << 8 | l.color.b;
    int n = -1;
    for (size_t k = 0; k < p.size(); k++)
      if (p[k] == rgb)
        n = k;
    s += fmt("label %d %d%d:", n, l.clockwise, l.open);
    for (auto &q : l.s) {
      s += fmt(" %d", q.degree);
      for (int k = 0; k < 4; k++)
        if (q.degree == 3 || k == 0 || k == 3)
          s += fmt("(%.6g,%.6g,%.6g)", q.v[k].x, q.v[k].y, q.v[k].z);
    }
    s += "\n";
  }
  return s;
}
static const std::vector<Pal> PALS = {
    {0xffffff, 0x000000, 0x808080},                               // gray ones first
    {0x000000, 0xffffff, 0x7f7f7f}, {0xfefefe, 0xffffff, 0xfdfdfd}, {0x010101, 0x000000, 0x020202}, {0x808080, 0x7f7f7f, 0x000000},
    {0xff0000, 0x00ff00, 0x0000ff}, {0x0000ff, 0xff0000, 0x00ff00}, {0xfffffe, 0xffffff, 0xfffeff}, {0x000001, 0x000000, 0x000100}, {0x010000, 0x000001, 0x000100},
    {0x123456, 0x563412, 0x341256}, {0xff00ff, 0x00ff00, 0xffffff}, {0x000000, 0x0000ff, 0xff0000}, {0xfeffff, 0xffffff, 0x000000},
};
static const unsigned GRAY = 5;

static void judge(Ctx &c, const Lab &l, int bg, bool centre, const char *cls) {
  if (centre && bg < 0)
    return; // thinning then takes white for the background
  Img base = colour(l, PALS[0], 3);
  std::string d = base.str() + fmt(" background %d%s", bg, centre ? " centerline" : "");
  c.note("%s", d.c_str());
  std::string want = text(base, PALS[0], bg, centre, c);
  c.state(mc::hash_str(want));
  for (size_t p = 0; p < PALS.size(); p++)
    for (unsigned np : {1u, 3u}) {
      if ((np == 1 && (p >= GRAY || centre)) || (np == 3 && p == 0))
        continue;
      std::string got = text(colour(l, PALS[p], np), PALS[p], bg, centre, c);
      c.trace();
      if (got != want)
        c.fail(fmt("%s:%s", cls, np == 1 ? "gray" : "rename"), "%s: with colours %06x %06x %06x in %u planes: %s instead of %s", d.c_str(), PALS[p][0], PALS[p][1], PALS[p][2], np, got.substr(0, 300).c_str(), want.substr(0, 300).c_str());
    }
}
static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C28";
  k.bounds = fmt("%zu sets of colours in one and three planes x background none or each label x every two-colour picture of 4x%u, every three-colour picture to 3x3, and every 3x3 two-colour and 3x2 three-colour picture enlarged 4 times; centerlines of the same", PALS.size(), th ? 4 : 3);
  unsigned rows = th ? 4 : 3;
  k.spaces.push_back({"two", (1ull << 4 * rows) * 3, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int bg = (int)p(3) - 1;
                        judge(c, labels(4, rows, p(1ull << 4 * rows), 2, 1), bg, false, "two");
                      }});
  k.spaces.push_back({"three", 19683 * 4, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int bg = (int)p(4) - 1;
                        judge(c, labels(3, 3, p(19683), 3, 1), bg, false, "three");
                      }});
  for (unsigned centre : {0u, 1u}) {
    k.spaces.push_back({fmt("big2-%u", centre), 512 * 3, [=](u64 i, Ctx &c) {
                          Pick p(i);
                          int bg = (int)p(3) - 1;
                          judge(c, labels(3, 3, p(512), 2, 4), bg, centre, "big");
                        }});
    k.spaces.push_back({fmt("big3-%u", centre), 729 * 4, [=](u64 i, Ctx &c) {
                          Pick p(i);
                          int bg = (int)p(4) - 1;
                          judge(c, labels(3, 2, p(729), 3, 4), bg, centre, "big");
                        }});
  }
  k.spaces.push_back({"thin", 19683 * 4, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int bg = (int)p(4) - 1;
                        judge(c, labels(3, 3, p(19683), 3, 1), bg, true, "thin");
                      }});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }

// C06: damaged, truncated and unreadable input files.
#include "files.hpp"
#include <set>

struct Out {
  bool fatal, warn;
  Img img;
  bool null;
  long leak;
};
static Out once(const char *suffix, const std::string &path, int fill) {
  mc::heap_fill(fill);
  long live = mc::heap_live();
  Out o;
  {
    Msgs m;
    at_bitmap *b = read_raw(suffix, path, m);
    o.fatal = m.fatal;
    o.warn = m.warning;
    o.null = !b;
    if (b) {
      o.img = from_bitmap(b);
      at_bitmap_free(b);
    }
  }
  mc::heap_fill(-1);
  o.leak = mc::heap_live() - live - (o.img.px.capacity() > 15 ? 1 : 0);
  return o;
}

// the outcome every file must have; expect_report: the damage must not go unnoticed
static void judge(Ctx &c, const char *suffix, const std::string &path, const std::string &cls, const std::string &desc, bool expect_report, bool expect_fatal = false) {
  c.note("%s %s", cls.c_str(), desc.c_str());
  static std::set<std::string> warm; // leak accounting starts after the first uses in this process
  if (warm.insert(suffix).second)
    for (int n = 0; n < 2; n++)
      once(suffix, path, 1);
  Out a = once(suffix, path, 0x11), b = once(suffix, path, 0xee);
  c.step(4);
  c.trace();
  c.state(mc::mix(a.img.hash(), a.fatal * 2 + a.warn));
  if (a.fatal != b.fatal || a.warn != b.warn || !(a.img == b.img))
    c.fail("uninitialised:" + cls, "%s: result depends on uninitialised memory: %s / %s", desc.c_str(), a.img.str().c_str(), b.img.str().c_str());
  if (a.null)
    c.fail("null:" + cls, "%s: no bitmap object returned", desc.c_str());
  if (!a.fatal && !a.warn && expect_report)
    c.fail("unreported:" + cls, "%s: read without any message as %s", desc.c_str(), a.img.str().c_str());
  if (!a.fatal && expect_fatal)
    c.fail("notfatal:" + cls, "%s: read without an error as %s", desc.c_str(), a.img.str().c_str());
  if (!a.fatal && !a.img.px.size() && strcmp(suffix, "gf"))
    c.fail("empty:" + cls, "%s: neither an error nor a picture", desc.c_str());
  if (b.leak)
    c.fail("leak:" + cls, "%s: %ld heap blocks remain after freeing the bitmap", desc.c_str(), b.leak);
  if (a.fatal)
    c.counter("reported_fatal");
  else
    c.counter("decoded");
}

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C06";
  auto B = std::make_shared<std::vector<Base>>(bases());
  k.bounds = fmt("%zu small valid files of all formats: every truncation, every single-byte substitution, every pair of header bytes from %s values%s; every two BMP or TGA header fields x 18 values each; every file of at most 2 bytes; missing, empty, directory and unreadable paths for every handler", B->size(), th ? "6" : "3", th ? "" : " (adjacent distance <= 6)");
  for (size_t n = 0; n < B->size(); n++) {
    const Base &b = B->at(n);
    k.spaces.push_back({"trunc-" + b.name, b.file.size(), [=](u64 i, Ctx &c) {
                          const Base &b = B->at(n);
                          MemFile f(b.file.substr(0, i));
                          judge(c, b.suffix.c_str(), f.path, "trunc-" + b.suffix, fmt("%s cut to %llu of %zu bytes", b.name.c_str(), (unsigned long long)i, b.file.size()), i < b.need);
                        }});
    k.spaces.push_back({"byte-" + b.name, b.file.size() * 256, [=](u64 i, Ctx &c) {
                          const Base &b = B->at(n);
                          Bytes d = b.file;
                          d[i / 256] = (char)(i % 256);
                          MemFile f(d);
                          judge(c, b.suffix.c_str(), f.path, "byte-" + b.suffix, fmt("%s byte %llu = %llu", b.name.c_str(), (unsigned long long)i / 256, (unsigned long long)i % 256), false);
                        }});
    if (b.header) {
      static const unsigned V[6] = {0, 0xff, 1, 0x7f, 0x80, 2};
      unsigned nv = th ? 6 : 3, dist = th ? b.header : std::min<size_t>(6, b.header);
      k.spaces.push_back({"pair-" + b.name, (u64)b.header * dist * nv * nv, [=](u64 i, Ctx &c) {
                            const Base &b = B->at(n);
                            Pick p(i);
                            unsigned a = p(b.header), e = a + 1 + p(dist), va = V[p(nv)], vb = V[p(nv)];
                            if (e >= b.header || e >= b.file.size())
                              return;
                            Bytes d = b.file;
                            d[a] = va;
                            d[e] = vb;
                            MemFile f(d);
                            judge(c, b.suffix.c_str(), f.path, "pair-" + b.suffix, fmt("%s bytes %u,%u = %u,%u", b.name.c_str(), a, e, va, vb), false);
                          }});
    }
    if (b.suffix == "png") // the same with a repaired header checksum
      k.spaces.push_back({"ihdr-" + b.name, 13 * 256, [=](u64 i, Ctx &c) {
                            const Base &b = B->at(n);
                            Bytes d = b.file;
                            d[16 + i / 256] = (char)(i % 256);
                            Bytes ch = Png::chunk("IHDR", d.substr(16, 13));
                            d = d.substr(0, 8) + ch + d.substr(8 + ch.size());
                            MemFile f(d);
                            judge(c, "png", f.path, "ihdr-png", fmt("%s header byte %llu = %llu", b.name.c_str(), (unsigned long long)i / 256, (unsigned long long)i % 256), false);
                          }});
  }
  // every two fields of a header with telling values
  struct Field {
    unsigned at, n;
  };
  for (size_t n = 0; n < B->size(); n++) {
    const Base &b = B->at(n);
    std::vector<Field> fs;
    if (b.suffix == "tga")
      fs = {{0, 1}, {1, 1}, {2, 1}, {3, 2}, {5, 2}, {7, 1}, {12, 2}, {14, 2}, {16, 1}, {17, 1}};
    else if (b.suffix == "bmp" && b.name != "bmpBA") {
      if (b.file[14] == 12)
        fs = {{10, 4}, {14, 4}, {18, 2}, {20, 2}, {22, 2}, {24, 2}};
      else
        fs = {{10, 4}, {14, 4}, {18, 4}, {22, 4}, {26, 2}, {28, 2}, {30, 4}, {46, 4}};
      if (b.header > 54)
        for (unsigned q = 0; q < 4; q++)
          fs.push_back({54 + 4 * q, 4});
    } else
      continue;
    u64 nf = fs.size(), nv = 18;
    k.spaces.push_back({"fields-" + b.name, nf * nf * nv * nv, [=](u64 i, Ctx &c) {
                          const Base &b = B->at(n);
                          Pick p(i);
                          unsigned f[2] = {(unsigned)p(nf), (unsigned)p(nf)}, v[2] = {(unsigned)p(nv), (unsigned)p(nv)};
                          if (f[0] >= f[1])
                            return;
                          Bytes d = b.file;
                          auto get = [&](unsigned at, unsigned n) {
                            unsigned x = 0;
                            for (unsigned q = n; q-- > 0;)
                              x = x << 8 | (unsigned char)d[at + q];
                            return x;
                          };
                          unsigned val[2];
                          for (int q = 0; q < 2; q++) {
                            unsigned own = get(fs[f[q]].at, fs[f[q]].n);
                            val[q] = (unsigned[]){0, 1, 2, 3, 24, 32, 255, 256, 257, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, own + 1, own + 4}[v[q]];
                          }
                          for (int q = 0; q < 2; q++)
                            for (unsigned s = 0; s < fs[f[q]].n; s++)
                              d[fs[f[q]].at + s] = (char)(val[q] >> (8 * s));
                          bool tga = b.suffix == "tga", old = !tga && b.file[14] == 12;
                          double w = tga ? get(12, 2) : old ? get(18, 2) : get(18, 4), h = tga ? get(14, 2) : old ? get(20, 2) : fabs((double)(int)get(22, 4));
                          if (w * h > 300000 && w < 65536 && h < 65536)
                            return; // a large picture, nothing to decide
                          MemFile m(d);
                          judge(c, b.suffix.c_str(), m.path, "fields-" + b.suffix, fmt("%s fields at %u,%u = %u,%u", b.name.c_str(), fs[f[0]].at, fs[f[1]].at, val[0], val[1]), false);
                        }});
  }
  static const char *SUF[] = {"pnm", "bmp", "png", "gf", "tga", "pbm", "pgm", "ppm"};
  k.spaces.push_back({"tiny", 5ull * 65793, [=](u64 i, Ctx &c) { // every file of 0, 1 and 2 bytes
                        Pick p(i);
                        const char *s = SUF[p(5)];
                        unsigned v = p(65793);
                        Bytes d;
                        if (v > 256) {
                          v -= 257;
                          d += (char)(v >> 8);
                          d += (char)v;
                        } else if (v)
                          d += (char)(v - 1);
                        MemFile f(d);
                        judge(c, s, f.path, std::string("tiny-") + s, "file " + hex(d), true, true);
                      }});
  // anymap headers: every sequence of tokens
  static const char *TOK[] = {"P1", "P2", "P3", "P4", "P5", "P6", "P7", "0", "1", "2", "255", "256", "65535", "65536", "-1", "#x\n", "x", "99999999999"};
  unsigned nt = 18, dep = th ? 5 : 4;
  u64 cnt = 2;
  for (unsigned d = 0; d < dep; d++)
    cnt *= nt;
  k.spaces.push_back({"pnm-tokens", cnt, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Bytes d;
                        bool nl = p(2);
                        unsigned big = 0;
                        for (unsigned q = 0; q < dep; q++) {
                          unsigned t = p(nt);
                          d += std::string(q ? " " : "") + TOK[t];
                          big += t >= 10 && t <= 13;
                        }
                        if (big > 1)
                          return; // two large numbers ask for megabytes to gigabytes, nothing to decide
                        if (nl)
                          d += "\n";
                        MemFile f(d);
                        judge(c, "pnm", f.path, "tokens-pnm", "file '" + d + "'", false);
                      }});
  // long header tokens
  k.spaces.push_back({"pnm-long", 4ull * 1100, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned pos = p(4), n = p(1100);
                        std::string t[4] = {"P2", "1", "1", "9"};
                        t[pos] = (pos ? "" : "P") + std::string(n, pos ? '0' : 'x') + (pos ? t[pos] : "");
                        MemFile f(t[0] + " " + t[1] + " " + t[2] + " " + t[3] + "\n5\n");
                        judge(c, "pnm", f.path, "long-pnm", fmt("token %u of %u characters", pos, n), false);
                      }});
  // paths that cannot be read
  k.spaces.push_back({"paths", 8 * 4, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        const char *s = SUF[p(8)];
                        const char *path[] = {"/nonexistent/file.x", "", "/dev/null", "/proc"};
                        unsigned w = p(4);
                        judge(c, s, path[w], std::string("path-") + s, fmt("%s reader on '%s'", s, path[w]), true, true);
                      }});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }

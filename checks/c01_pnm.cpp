// C01: PBM/PGM/PPM files decode to the picture they encode.
#include "decode.hpp"

static const char *SUF[4] = {"pnm", "pbm", "pgm", "ppm"};

struct Layout { // how the header and the ASCII body are laid out
  std::string sep[4];       // after magic, width, height, maxval
  std::string body_sep = " ";
  std::string tail = "\n";  // end of an ASCII body
  std::string pre_body;     // before the first ASCII sample
};

// v: samples 0..maxval (np per pixel) or bits (1 = black) for type 1 and 4
static Bytes encode(int type, unsigned w, unsigned h, unsigned maxval, const std::vector<unsigned> &v, const Layout &l) {
  Bytes b = fmt("P%d", type);
  bool bits = type == 1 || type == 4;
  b += l.sep[0] + fmt("%u", w) + l.sep[1] + fmt("%u", h) + l.sep[2];
  if (!bits)
    b += fmt("%u", maxval) + l.sep[3];
  if (type <= 3) {
    b += l.pre_body;
    for (size_t i = 0; i < v.size(); i++)
      b += (i ? l.body_sep : "") + fmt("%u", v[i]);
    b += l.tail;
  } else if (type == 4) {
    for (unsigned r = 0; r < h; r++)
      for (unsigned o = 0; o < (w + 7) / 8; o++) {
        unsigned byte = 0;
        for (unsigned k = 0; k < 8; k++) {
          unsigned c = o * 8 + k;
          byte = byte << 1 | (c < w ? v[r * w + c] : (r + o) & 1); // padding bits carry no meaning
        }
        b += (char)byte;
      }
  } else
    for (unsigned x : v)
      b += (char)x;
  return b;
}

static Img reference(int type, unsigned w, unsigned h, unsigned maxval, const std::vector<unsigned> &v) {
  Img i;
  i.w = w;
  i.h = h;
  i.np = type == 3 || type == 6 ? 3 : 1;
  for (unsigned x : v)
    i.px += (type == 1 || type == 4) ? (char)(x ? 0 : 255) : (char)(255ul * x / maxval);
  return i;
}
static unsigned planes(int type) { return type == 3 || type == 6 ? 3 : 1; }

static Layout plain() {
  Layout l;
  l.sep[0] = "\n";
  l.sep[1] = " ";
  l.sep[2] = "\n";
  l.sep[3] = "\n";
  return l;
}
static std::vector<unsigned> coded(unsigned n, unsigned maxval, unsigned salt) {
  std::vector<unsigned> v;
  for (unsigned i = 0; i < n; i++)
    v.push_back((i * 37 + 11 * salt + i * i * 5 + (i >> 3)) % (maxval + 1));
  return v;
}

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C01";
  k.bounds = th ? "PBM bitmaps: every w<=17,h<=5 with w*h<=16; other spaces as in quick" : "PBM bitmaps: every w<=13,h<=4 with w*h<=12; all sample values for every maxval 1..255 (and 256,257,300,1000,1023,4095,65535 in ASCII); header layouts: 12 separators x 4 gaps, comments in each gap; image sizes 1..9x1..4 and 1..300x1..3; ASCII bodies shifted over every offset of the 4096-byte read buffer; every two-byte magic; wrong header numbers; leading zeros; pictures large both ways (257x260, 521x508); data ending right after the last sample";

  // 1. every bitmap of a small size, raw and plain, three body spacings
  unsigned maxcells = th ? 16 : 12;
  for (unsigned w = 1; w <= (th ? 17u : 13u); w++)
    for (unsigned h = 1; h <= (th ? 5u : 4u); h++)
      if (w * h <= maxcells)
        k.spaces.push_back({fmt("pbm-%ux%u", w, h), (u64)4 << (w * h), [=](u64 i, Ctx &c) {
                              Pick p(i);
                              unsigned form = p(4);
                              std::vector<unsigned> v;
                              for (unsigned n = 0; n < w * h; n++)
                                v.push_back(p(2));
                              Layout l = plain();
                              l.body_sep = form == 1 ? "" : form == 2 ? "\n" : " ";
                              int type = form == 3 ? 4 : 1;
                              expect_image(c, SUF[i % 2], encode(type, w, h, 1, v, l), reference(type, w, h, 1, v), fmt("P%d", type), fmt("P%d %ux%u form %u", type, w, h, form));
                            }});

  // 2. every sample value for every maxval, in each of the four gray/colour encodings
  std::vector<unsigned> mv;
  for (unsigned m = 1; m <= 255; m++)
    mv.push_back(m);
  for (unsigned m : {256u, 257u, 300u, 1000u, 1023u, 4095u, 65535u})
    mv.push_back(m);
  k.spaces.push_back({"values", mv.size() * 4, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int type = (int[]){2, 3, 5, 6}[p(4)];
                        unsigned m = mv[p(mv.size())];
                        if (m > 255 && type > 3)
                          return; // two-byte raw samples are not supported by the reader
                        unsigned np = planes(type);
                        std::vector<unsigned> v;
                        for (unsigned x = 0; x <= m; x++)
                          for (unsigned q = 0; q < np; q++)
                            v.push_back((x + q) % (m + 1));
                        for (size_t o = 0; o < v.size(); o += 600) { // keep the rows short
                          std::vector<unsigned> part(v.begin() + o, v.begin() + std::min(v.size(), o + 600));
                          expect_image(c, SUF[2 + (np == 3)], encode(type, part.size() / np, 1, m, part, plain()), reference(type, part.size() / np, 1, m, part), fmt("P%d-maxval", type), fmt("P%d maxval %u from %zu", type, m, o));
                        }
                      }});

  // 3. header layouts: separators in each gap, comments in each gap
  static const char *SEP[] = {"\n", " ", "\t", "\r\n", "  ", "\n#c\n", " # 7 7 7\n", "\n#a\n#b 1\n\n", "\v", "\f", "#x 5 y\n", "\n# a # 8 # 9 9\n"};
  k.spaces.push_back({"header", 6ull * 20736 * 3, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int type = 1 + p(6);
                        Layout l;
                        for (int g = 0; g < 4; g++)
                          l.sep[g] = SEP[p(12)];
                        unsigned size = p(3);
                        unsigned w = 2 + size, h = 3 - size;
                        if (h < 1)
                          h = 1;
                        bool raw = type >= 4, bits = type == 1 || type == 4;
                        if (bits && l.sep[3] != SEP[0])
                          return; // no such gap
                        // raw data start right after ONE white-space character
                        std::string &last = bits ? l.sep[2] : l.sep[3];
                        if (raw && (last.size() > 1))
                          return;
                        unsigned m = bits ? 1 : 255;
                        std::vector<unsigned> v = coded(w * h * planes(type), m, type);
                        expect_image(c, SUF[i % 4], encode(type, w, h, m, v, l), reference(type, w, h, m, v), fmt("P%d-header", type), fmt("P%d %ux%u seps", type, w, h));
                      }});

  // 4. ASCII body endings and separators
  static const char *BS[] = {" ", "\n", "\t", "  ", "\r\n", " #x 9\n", "\n\n", "#y 8 7\n", " # 6 # 5 # 4 3\n"};
  static const char *TL[] = {"\n", "", " ", "\n#end\n", "\n\n\n"};
  k.spaces.push_back({"body", 3ull * 9 * 5 * 12 * 3, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int type = 1 + p(3);
                        Layout l = plain();
                        l.body_sep = BS[p(9)];
                        l.tail = TL[p(5)];
                        unsigned w = 1 + p(4), h = 1 + p(3);
                        unsigned m = type == 1 ? 1 : (unsigned[]){255, 7, 100}[p(3)];
                        std::vector<unsigned> v = coded(w * h * planes(type), m, i & 7);
                        v.back() = m; // the last sample is never a default
                        expect_image(c, SUF[0], encode(type, w, h, m, v, l), reference(type, w, h, m, v), fmt("P%d-body", type), fmt("P%d %ux%u max %u body '%s' tail '%s'", type, w, h, m, l.body_sep.c_str(), l.tail.c_str()));
                      }});

  // 5. the body of an ASCII file crosses the reader's internal buffer at every offset
  k.spaces.push_back({"buffer", 3ull * (th ? 9000 : 4300) * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int type = 1 + p(3);
                        unsigned form = p(2);
                        unsigned pad = i / 6;
                        Layout l = plain();
                        l.pre_body = pad ? (form ? std::string(pad, ' ') : "#" + std::string(pad - 1, 'x') + "\n") : "";
                        unsigned m = type == 1 ? 1 : 255;
                        std::vector<unsigned> v = coded(6 * planes(type), m, pad);
                        l.tail = pad & 1 ? "" : "\n";
                        expect_image(c, SUF[0], encode(type, 3, 2, m, v, l), reference(type, 3, 2, m, v), fmt("P%d-buffer", type), fmt("P%d pad %u form %u", type, pad, form));
                      }});

  // a file that ends right behind the last sample, in the second or third fill of the buffer
  k.spaces.push_back({"ends", 3ull * 1500 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int type = 1 + p(3);
                        unsigned n = 1000 + p(1500);
                        Layout l = plain();
                        l.tail = p(2) ? "" : " ";
                        unsigned m = type == 1 ? 1 : 255;
                        std::vector<unsigned> v = coded(n * planes(type), m, n);
                        v.back() = 1;
                        expect_image(c, SUF[0], encode(type, n, 1, m, v, l), reference(type, n, 1, m, v), fmt("P%d-end", type), fmt("P%d of %u pixels, tail '%s'", type, n, l.tail.c_str()));
                      }});
  // pictures that are large both ways
  k.spaces.push_back({"large", 6ull * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int type = 1 + p(6);
                        unsigned w = p(2) ? 521 : 257, h = 516 + 1 - w % 512;
                        unsigned m = type == 1 || type == 4 ? 1 : 255;
                        std::vector<unsigned> v = coded(w * h * planes(type), m, w + h);
                        expect_image(c, SUF[0], encode(type, w, h, m, v, plain()), reference(type, w, h, m, v), fmt("P%d-large", type), fmt("P%d %ux%u", type, w, h));
                      }});

  // 6. sizes: every width with a position-coded picture and its complement
  unsigned wmax = th ? 1100 : 300;
  static const unsigned MORE[] = {511, 512, 513, 777, 1023, 1024, 1025, 1365, 1366, 2047, 2048, 2049, 4095, 4096, 4097, 8193, 10000};
  k.spaces.push_back({"sizes", 6ull * (wmax + 17) * 3 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int type = 1 + p(6);
                        unsigned h = 1 + p(3), inv = p(2), w = 1 + p(wmax + 17);
                        if (w > wmax)
                          w = MORE[w - wmax - 1];
                        if (inv) {
                          unsigned t = w;
                          w = h;
                          h = t;
                        }
                        bool bits = type == 1 || type == 4;
                        unsigned m = bits ? 1 : 255;
                        std::vector<unsigned> v = coded(w * h * planes(type), m, w + h);
                        expect_image(c, SUF[i % 4], encode(type, w, h, m, v, plain()), reference(type, w, h, m, v), fmt("P%d-size", type), fmt("P%d %ux%u", type, w, h));
                      }});

  // 7. dimensions at the limits of the bitmap type: decoded with the stated size or refused
  static const unsigned DIM[] = {32767, 32768, 65535, 65536, 65537, 65540, 131072 + 3};
  k.spaces.push_back({"limits", 6ull * 7 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int type = 1 + p(6);
                        unsigned d = DIM[p(7)], w = d, h = 1;
                        if (p(2))
                          w = 1, h = d;
                        bool bits = type == 1 || type == 4;
                        unsigned m = bits ? 1 : 255;
                        std::vector<unsigned> v = coded(w * h * planes(type), m, 1);
                        Bytes f = encode(type, w, h, m, v, plain());
                        if (d <= 65535)
                          expect_image(c, SUF[0], f, reference(type, w, h, m, v), fmt("P%d-limit", type), fmt("P%d %ux%u", type, w, h));
                        else {
                          c.note("P%d %ux%u", type, w, h);
                          Decoded r = decode(SUF[0], f);
                          c.step(2);
                          c.trace();
                          if (!r.fatal)
                            c.fail(fmt("P%d-toolarge", type), "P%d %ux%u: read as %ux%u without an error", type, w, h, r.img.w, r.img.h);
                        }
                      }});

  // 8. leading zeros in any number
  k.spaces.push_back({"zeros", 6ull * 5 * 3 * 4, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int type = 1 + p(6);
                        unsigned field = p(5), m = (unsigned[]){1, 255, 9}[p(3)], nz = 1 + p(4);
                        bool bits = type == 1 || type == 4;
                        if (bits)
                          m = 1;
                        std::string z(nz, '0');
                        std::vector<unsigned> v = coded(6 * planes(type), m, i & 3);
                        if (type >= 4 && field >= 3)
                          return;
                        if (bits && field >= 2)
                          return;
                        Bytes f = fmt("P%d\n", type) + (field == 0 ? z : "") + "3 " + (field == 1 ? z : "") + "2\n";
                        if (!bits)
                          f += (field == 2 ? z : "") + fmt("%u\n", m);
                        if (type > 3)
                          f += encode(type, 3, 2, m, v, plain()).substr(fmt("Px\n3 2\n").size() + (bits ? 0 : fmt("%u\n", m).size()));
                        else
                          for (unsigned x : v)
                            f += (field == 3 ? z : "") + fmt("%u\n", x);
                        expect_image(c, SUF[0], f, reference(type, 3, 2, m, v), fmt("P%d-zeros", type), fmt("P%d zeros in %u", type, field));
                      }});

  // 9. what is no anymap, or one with two-byte samples, is refused
  auto refused = [](Ctx &c, const Bytes &f, const std::string &cls, const std::string &what) {
    c.note("%s %s", cls.c_str(), hex(f, 60).c_str());
    Decoded r = decode(SUF[0], f);
    c.step(2);
    c.trace();
    if (!r.fatal)
      c.fail(cls, "%s: read as %ux%u without an error; file=%s", what.c_str(), r.img.w, r.img.h, hex(f, 60).c_str());
  };
  k.spaces.push_back({"magic", 65536ull + 6 * 256, [=](u64 i, Ctx &c) {
                        Bytes magic;
                        if (i < 65536) {
                          magic += (char)(i >> 8);
                          magic += (char)i;
                          if (magic[0] == 'P' && magic[1] >= '1' && magic[1] <= '6')
                            return;
                        } else {
                          magic = fmt("P%llu", (unsigned long long)(i - 65536) / 256 + 1) + (char)i;
                          if (isspace((unsigned char)i) || (char)i == '#' || (char)i == 0)
                            return;
                        }
                        refused(c, magic + "\n2 2\n255\n" + "1 0 1 0 0 1 1 0 1 1 0 1 0 1 1 0 0 1 1", "magic", "magic " + hex(magic));
                      }});
  static const char *BAD[] = {"x", "-3", "0", "00", "-0", "+", "-"};
  k.spaces.push_back({"numbers", 6ull * 3 * 7, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int type = 1 + p(6);
                        unsigned field = p(3);
                        std::string bad = BAD[p(7)];
                        if (field == 2 && (type == 1 || type == 4))
                          return;
                        refused(c, fmt("P%d\n", type) + (field == 0 ? bad : "3") + " " + (field == 1 ? bad : "2") + "\n" + (type == 1 || type == 4 ? "" : (field == 2 ? bad : "255") + "\n") + "1 0 1 0 0 1 1 0 1 1 0 1 0 1 1 0 0 1 1", "numbers", fmt("P%d field %u %s", type, field, bad.c_str()));
                      }});
  k.spaces.push_back({"deep", 2ull * 8, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int type = 5 + p(2);
                        unsigned m = (unsigned[]){256, 257, 511, 1000, 4095, 32767, 65534, 65535}[p(8)];
                        Bytes f = fmt("P%d\n3 2\n%u\n", type, m);
                        for (unsigned n = 0; n < 12 * planes(type); n++)
                          f += (char)n;
                        refused(c, f, "two-byte", fmt("P%d maxval %u", type, m));
                      }});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }

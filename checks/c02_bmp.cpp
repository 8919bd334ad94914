// C02: Windows and OS/2 bitmap files decode to the picture they encode.
#include "bmp.hpp"

static std::vector<unsigned> coded(unsigned n, u64 mod, unsigned salt) {
  std::vector<unsigned> v;
  for (unsigned i = 0; i < n; i++)
    v.push_back((unsigned)(((u64)i * 2654435761u + 977u * salt + (u64)i * i * 131 + (i >> 2) * 77777) % mod));
  return v;
}

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C02";
  k.bounds = th ? "as quick with w<=70, RLE streams of 5 opcodes" : "depths 1,2,4,8,16,24,32; headers of 12,40,56,64,108,124 bytes; w<=33,h<=3; 7 palette kinds; every 16-bit pixel value; 24 mask layouts; every RLE4/RLE8 stream of 4 opcodes from a 16-symbol alphabet on a 5x3 picture; every operand 0..255 of every opcode on a 262x260 picture; every 1-bit picture up to 12 cells; five file marks; 521x260 pictures of every depth";

  // 1. indexed and direct pictures over header kind, depth, size, order, palette, gap
  unsigned wmax = th ? 70 : 33;
  k.spaces.push_back({"layout", 7ull * 6 * 2 * 7 * 3 * 3 * wmax, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Bmp b;
                        b.bpp = (unsigned[]){1, 2, 4, 8, 16, 24, 32}[p(7)];
                        b.header = BMP_HEADERS[p(6)];
                        b.topdown = p(2);
                        unsigned pal = p(7);
                        unsigned use = p(3);
                        b.h = 1 + p(3);
                        b.w = 1 + p(wmax);
                        if (b.header == 12 && (b.topdown || b.bpp == 2 || b.bpp == 16 || b.bpp == 32))
                          return; // no such format
                        if (b.bpp > 8 && pal)
                          return;
                        u64 mod = 1ull << b.bpp;
                        if (b.bpp <= 8) {
                          unsigned n = 1u << b.bpp;
                          if (use == 1 && b.header > 12 && b.bpp > 1)
                            n = b.clr_used = n / 2 + 1; // fewer colours than the depth allows
                          else if (use == 2 && b.header > 12)
                            b.clr_used = n;
                          mod = n;
                          b.palette = bmp_palette(pal, n);
                        }
                        b.gap = use == 2 ? 8 : 0;
                        if (use == 1)
                          b.extra = Bytes(300, 'x'); // bytes after the picture carry no meaning
                        b.array = use == 2 && pal == 1;
                        std::vector<unsigned> v = coded(b.w * b.h, mod, i % 97);
                        b.pack(v);
                        expect_image(c, "bmp", b.file(), b.reference(v), fmt("bmp%u-h%u%s", b.bpp, b.header, b.topdown ? "-topdown" : ""),
                                     fmt("%ubpp header %u %ux%u pal %u use %u topdown %d", b.bpp, b.header, b.w, b.h, pal, use, b.topdown));
                      }});

  static const unsigned SZ[] = {41, 63, 64, 65, 100, 127, 128, 129, 141, 255, 256, 257, 300, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2049, 4097};
  k.spaces.push_back({"sizes", 7ull * 6 * 2 * 23 * 3 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Bmp b;
                        b.bpp = (unsigned[]){1, 2, 4, 8, 16, 24, 32}[p(7)];
                        b.header = BMP_HEADERS[p(6)];
                        b.topdown = p(2);
                        b.w = SZ[p(23)];
                        b.h = 1 + p(3);
                        if (p(2))
                          std::swap(b.w, b.h);
                        if (b.header == 12 && (b.topdown || b.bpp == 2 || b.bpp == 16 || b.bpp == 32))
                          return;
                        if (b.bpp <= 8)
                          b.palette = bmp_palette(i % 4, 1u << b.bpp);
                        std::vector<unsigned> v = coded(b.w * b.h, 1ull << b.bpp, i % 97);
                        b.pack(v);
                        expect_image(c, "bmp", b.file(), b.reference(v), fmt("bmp%u-size", b.bpp), fmt("%ubpp header %u %ux%u topdown %d", b.bpp, b.header, b.w, b.h, b.topdown));
                      }});

  // the marks of a single picture; pictures that are large both ways
  k.spaces.push_back({"marks", 7ull * 6 * 5 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Bmp b;
                        b.bpp = (unsigned[]){1, 2, 4, 8, 16, 24, 32}[p(7)];
                        b.header = BMP_HEADERS[p(6)];
                        b.magic = (const char *[]){"BM", "IC", "PT", "CI", "CP"}[p(5)];
                        b.array = p(2);
                        b.w = 7;
                        b.h = 5;
                        if (b.header == 12 && (b.bpp == 2 || b.bpp == 16 || b.bpp == 32))
                          return;
                        if (b.bpp <= 8)
                          b.palette = bmp_palette(0, 1u << b.bpp);
                        std::vector<unsigned> v = coded(b.w * b.h, 1ull << b.bpp, i % 97);
                        b.pack(v);
                        expect_image(c, "bmp", b.file(), b.reference(v), fmt("bmp-mark-%s", b.magic), fmt("%ubpp header %u mark %s", b.bpp, b.header, b.magic));
                      }});
  k.spaces.push_back({"large", 7ull * 6 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Bmp b;
                        b.bpp = (unsigned[]){1, 2, 4, 8, 16, 24, 32}[p(7)];
                        b.header = BMP_HEADERS[p(6)];
                        b.topdown = p(2);
                        b.w = 521;
                        b.h = 260;
                        if (b.header == 12 && (b.topdown || b.bpp == 2 || b.bpp == 16 || b.bpp == 32))
                          return;
                        if (b.bpp <= 8)
                          b.palette = bmp_palette(i % 4, 1u << b.bpp);
                        std::vector<unsigned> v = coded(b.w * b.h, 1ull << b.bpp, i % 97);
                        b.pack(v);
                        expect_image(c, "bmp", b.file(), b.reference(v), fmt("bmp%u-large", b.bpp), fmt("%ubpp header %u %ux%u topdown %d", b.bpp, b.header, b.w, b.h, b.topdown));
                      }});

  // 2. every small 1-bit picture, both palette orders
  for (unsigned w = 1; w <= 10; w++)
    for (unsigned h = 1; h <= 3; h++)
      if (w * h <= (th ? 16u : 12u))
        k.spaces.push_back({fmt("mono-%ux%u", w, h), (u64)4 << (w * h), [=](u64 i, Ctx &c) {
                              Pick p(i);
                              Bmp b;
                              b.bpp = 1;
                              b.w = w;
                              b.h = h;
                              b.palette = p(2) ? std::vector<unsigned>{0xffffff, 0} : std::vector<unsigned>{0, 0xffffff};
                              b.header = p(2) ? 12 : 40;
                              std::vector<unsigned> v;
                              for (unsigned n = 0; n < w * h; n++)
                                v.push_back(p(2));
                              b.pack(v);
                              expect_image(c, "bmp", b.file(), b.reference(v), "bmp-mono", fmt("mono %ux%u %llx", w, h, (unsigned long long)i));
                            }});

  // 3. every palette index at every depth, with colour and gray palettes
  k.spaces.push_back({"indices", 4ull * 7 * 6, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Bmp b;
                        b.bpp = (unsigned[]){1, 2, 4, 8}[p(4)];
                        unsigned pal = p(7);
                        b.header = BMP_HEADERS[p(6)];
                        if (b.header == 12 && b.bpp == 2)
                          return;
                        unsigned n = 1u << b.bpp;
                        b.palette = bmp_palette(pal, n);
                        b.w = n;
                        b.h = 2;
                        std::vector<unsigned> v;
                        for (unsigned k = 0; k < 2 * n; k++)
                          v.push_back(k < n ? k : 2 * n - 1 - k);
                        b.pack(v);
                        expect_image(c, "bmp", b.file(), b.reference(v), fmt("bmp%u-index", b.bpp), fmt("%ubpp all indices pal %u header %u", b.bpp, pal, b.header));
                      }});

  // 4. every 16-bit value with default and explicit masks; 32-bit masks of every width and position
  static const unsigned M16[][3] = {{0, 0, 0}, {0xf800, 0x7e0, 0x1f}, {0x7c00, 0x3e0, 0x1f}, {0xf00, 0xf0, 0xf}, {0x1f, 0x7e0, 0xf800}, {0xe000, 0x1f00, 0xff}};
  k.spaces.push_back({"rgb16", 6ull * 5 * 256, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Bmp b;
                        b.bpp = 16;
                        unsigned m = p(6);
                        b.header = BMP_HEADERS[1 + p(5)];
                        b.compr = m ? 3 : 0;
                        memcpy(b.mask, M16[m], sizeof M16[m]);
                        if (b.header == 64)
                          return; // OS/2 2.x has no bit fields
                        unsigned hi = p(256);
                        b.w = 256;
                        b.h = 1;
                        std::vector<unsigned> v;
                        for (unsigned x = 0; x < 256; x++)
                          v.push_back(hi << 8 | x);
                        b.pack(v);
                        expect_image(c, "bmp", b.file(), b.reference(v), fmt("bmp16-mask%u", m), fmt("16bpp masks %u header %u high byte %02x", m, b.header, hi));
                      }});
  static const unsigned M32[][4] = {{0xff0000, 0xff00, 0xff, 0}, {0xff, 0xff00, 0xff0000, 0}, {0xff0000, 0xff00, 0xff, 0xff000000}, {0xff00, 0xff0000, 0xff000000, 0xff},
                                    {0x3ff00000, 0xffc00, 0x3ff, 0}, {0xf, 0xf0, 0xf00, 0}, {1, 2, 4, 0}, {0xff0000, 0, 0xff, 0}, {0xffff0000, 0xff00, 0xff, 0}, {0xffffffff, 0xff00, 0xff, 0}};
  k.spaces.push_back({"rgb32", 10ull * 4 * 64, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Bmp b;
                        b.bpp = 32;
                        unsigned m = p(10);
                        b.header = (unsigned[]){40, 56, 108, 124}[p(4)];
                        b.compr = 3;
                        memcpy(b.mask, M32[m], sizeof M32[m]);
                        b.w = 1 + p(8);
                        b.h = 1 + p(8);
                        std::vector<unsigned> v = coded(b.w * b.h, 1ull << 32, i & 63);
                        b.pack(v);
                        expect_image(c, "bmp", b.file(), b.reference(v), fmt("bmp32-mask%u", m), fmt("32bpp masks %u header %u %ux%u", m, b.header, b.w, b.h));
                      }});

  // 5. every RLE stream of a bounded number of opcodes
  unsigned depth = th ? 5 : 4;
  for (unsigned bpp : {8u, 4u}) {
    std::vector<RleOp> A = rle_alphabet(bpp, 5);
    u64 n = 2;
    for (unsigned d = 0; d < depth; d++)
      n *= A.size();
    k.spaces.push_back({fmt("rle%u", bpp), n, [=](u64 i, Ctx &c) {
                          Pick p(i);
                          Bmp b;
                          b.bpp = bpp;
                          b.compr = bpp == 8 ? 1 : 2;
                          b.palette = bmp_palette(p(2), 1u << bpp);
                          b.w = 5;
                          b.h = 3;
                          std::vector<RleOp> ops;
                          for (unsigned d = 0; d < depth; d++)
                            ops.push_back(A[p(A.size())]);
                          std::vector<unsigned> grid;
                          bool ended;
                          bool ok = rle_play(bpp, b.w, b.h, ops, b.data, grid, ended);
                          if (!ok) { // leaves the picture: any outcome but a crash
                            c.note("rle%u leaves the picture: %s", bpp, hex(b.data).c_str());
                            Decoded d = decode("bmp", b.file());
                            c.step(2);
                            c.state(d.img.hash());
                            c.counter("rle_streams_outside_picture");
                            return;
                          }
                          expect_image(c, "bmp", b.file(), b.reference(grid), fmt("rle%u", bpp), fmt("rle%u stream %s", bpp, hex(b.data).c_str()));
                        }});
  }

  // 6. every operand of every RLE opcode, behind a short start of the row, followed by more
  k.spaces.push_back({"rle-operands", 2ull * 4 * 256 * 4 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Bmp b;
                        b.bpp = p(2) ? 8 : 4;
                        b.compr = b.bpp == 8 ? 1 : 2;
                        unsigned kind = p(4), n = p(256), before = p(4);
                        b.palette = bmp_palette(p(2), 1u << b.bpp);
                        b.w = 262;
                        b.h = kind == 3 ? 260 : 4;
                        if ((kind == 0 && n == 0) || (kind == 1 && n < 3))
                          return; // not these opcodes
                        std::vector<RleOp> ops;
                        if (before)
                          ops.push_back({RleOp::RUN, before, 0x7b});
                        ops.push_back(kind == 0 ? RleOp{RleOp::RUN, n, 0x3c} : kind == 1 ? RleOp{RleOp::ABS, n, 0} : kind == 2 ? RleOp{RleOp::DELTA, n, 0} : RleOp{RleOp::DELTA, before, n});
                        for (auto &o : std::vector<RleOp>{{RleOp::RUN, 2, 0x51}, {RleOp::EOL, 0, 0}, {RleOp::RUN, 3, 0xa4}, {RleOp::ABS, 3, 0}, {RleOp::DELTA, 200, 1}, {RleOp::RUN, 1, 0xe7}, {RleOp::EOB, 0, 0}})
                          ops.push_back(o);
                        std::vector<unsigned> grid;
                        bool ended;
                        if (rle_play(b.bpp, b.w, b.h, ops, b.data, grid, ended))
                          expect_image(c, "bmp", b.file(), b.reference(grid), fmt("rle%u-operand%u", b.bpp, kind), fmt("rle%u opcode kind %u operand %u after %u", b.bpp, kind, n, before));
                      }});

  // 7. limits
  static const unsigned DIM[] = {32767, 32768, 40000, 65535, 65536, 65537, 70000};
  k.spaces.push_back({"limits", 7ull * 2 * 3 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Bmp b;
                        unsigned d = DIM[p(7)];
                        b.w = d, b.h = 1;
                        if (p(2))
                          b.w = 1, b.h = d;
                        b.bpp = (unsigned[]){1, 8, 24}[p(3)];
                        b.header = p(2) ? 12 : 40;
                        if (b.header == 12 && d > 65535)
                          return;
                        if (b.bpp <= 8)
                          b.palette = bmp_palette(0, 1u << b.bpp);
                        std::vector<unsigned> v = coded(b.w * b.h, 1ull << b.bpp, 3);
                        b.pack(v);
                        if (d <= 65535)
                          expect_image(c, "bmp", b.file(), b.reference(v), "bmp-limit", fmt("%ubpp header %u %ux%u", b.bpp, b.header, b.w, b.h));
                        else {
                          c.note("bmp %ux%u", b.w, b.h);
                          Decoded r = decode("bmp", b.file());
                          c.step(2);
                          c.trace();
                          if (!r.fatal)
                            c.fail("bmp-toolarge", "%ubpp %ux%u: read as %ux%u without an error", b.bpp, b.w, b.h, r.img.w, r.img.h);
                        }
                      }});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }

// C03: Targa files decode to the picture they encode.
#include "tga.hpp"

static std::vector<unsigned> coded(unsigned n, unsigned salt, u64 mod) {
  std::vector<unsigned> v;
  for (unsigned i = 0; i < n; i++) // neighbouring repeats so that run packets occur
    v.push_back((unsigned)(((u64)(i / (1 + salt % 3)) * 2654435761u + 12345u * salt) % mod));
  return v;
}

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C03";
  k.bounds = "6 image types x 24/32-bit colour, 8/16-bit gray, 8-bit indices with 24/32-bit maps x 4 scan directions x id length, footer, origin, map offset; sizes w<=" + std::string(th ? "140" : "40") + ",h<=4; every run-length packetisation of " + std::string(th ? "8" : "7") + " pixels over two colours; every pixel byte and index; colour map first entry x length to 40000; large pictures";

  unsigned wmax = th ? 140 : 40;
  k.spaces.push_back({"layout", 12ull * 4 * 4 * 3 * 4 * wmax, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned kind = p(12);
                        Tga t;
                        static const unsigned TY[6] = {1, 2, 3, 9, 10, 11};
                        t.type = TY[kind % 6];
                        bool alpha = kind >= 6;
                        unsigned flip = p(4);
                        t.right_to_left = flip & 1;
                        t.top_down = flip & 2;
                        unsigned misc = p(4);
                        t.id = misc == 1 ? 1 : misc == 2 ? 200 : 0;
                        t.footer = misc == 3;
                        t.xo = misc == 2 ? 77 : 0;
                        t.yo = misc == 3 ? 300 : 0;
                        unsigned m = p(3);
                        t.h = 1 + p(4);
                        t.w = 1 + p(wmax);
                        u64 mod = 1ull << 32;
                        if (t.mapped()) {
                          t.bpp = 8;
                          t.cmap_bits = alpha ? 32 : 24;
                          t.cmap_first = m == 1 ? 3 : 0;
                          unsigned n = m == 2 ? 256 : 7;
                          for (unsigned q = 0; q < n; q++)
                            t.cmap.push_back((q * 0x53a9c1 + 0x2010ff) ^ (q % 3 ? 0xff000000 : 0));
                          mod = t.cmap_first + n;
                        } else if (t.gray()) {
                          if (m)
                            return;
                          t.bpp = alpha ? 16 : 8;
                          t.abits = alpha ? 8 : 0;
                        } else {
                          if (m == 2)
                            return;
                          t.bpp = alpha ? 32 : 24;
                          t.abits = alpha && m == 0 ? 8 : 0; // many writers leave the attribute size zero
                        }
                        std::vector<unsigned> v = coded(t.w * t.h, i % 11, mod);
                        if (!t.mapped())
                          for (auto &x : v)
                            x &= (unsigned)((1ull << t.bpp) - 1);
                        t.pack(v);
                        expect_image(c, "tga", t.file(), t.reference(v), fmt("tga%u-%u%s%s", t.type, t.mapped() ? t.cmap_bits : t.bpp, t.right_to_left ? "-rtl" : "", t.top_down ? "-top" : ""),
                                     fmt("type %u bpp %u %ux%u flip %u misc %u m %u", t.type, t.bpp, t.w, t.h, flip, misc, m));
                      }});

  static const unsigned SZ[] = {41, 63, 64, 65, 100, 127, 128, 129, 141, 255, 256, 257, 300, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2049, 4097};
  k.spaces.push_back({"sizes", 12ull * 4 * 23 * 3 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned kind = p(12), flip = p(4);
                        Tga t;
                        static const unsigned TY[6] = {1, 2, 3, 9, 10, 11};
                        t.type = TY[kind % 6];
                        t.right_to_left = flip & 1;
                        t.top_down = flip & 2;
                        t.w = SZ[p(23)];
                        t.h = 1 + p(3);
                        if (p(2))
                          std::swap(t.w, t.h);
                        u64 mod = 1ull << 32;
                        if (t.mapped()) {
                          t.bpp = 8;
                          t.cmap_bits = kind >= 6 ? 32 : 24;
                          for (unsigned q = 0; q < 200; q++)
                            t.cmap.push_back(q * 0x53a9c1 + 0x2010ff);
                          mod = 200;
                        } else if (t.gray()) {
                          t.bpp = kind >= 6 ? 16 : 8;
                          t.abits = kind >= 6 ? 8 : 0;
                        } else {
                          t.bpp = kind >= 6 ? 32 : 24;
                          t.abits = kind >= 6 ? 8 : 0;
                        }
                        std::vector<unsigned> v = coded(t.w * t.h, i % 11, mod);
                        if (!t.mapped())
                          for (auto &x : v)
                            x &= (unsigned)((1ull << t.bpp) - 1);
                        t.pack(v);
                        expect_image(c, "tga", t.file(), t.reference(v), fmt("tga%u-size", t.type), fmt("type %u bpp %u %ux%u flip %u", t.type, t.bpp, t.w, t.h, flip));
                      }});

  // colour maps of every length, beginning anywhere, also such that reach beyond what eight bits can name
  k.spaces.push_back({"maps", 2ull * 2 * 4 * 8 * 12, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Tga t;
                        t.type = p(2) ? 9 : 1;
                        t.bpp = 8;
                        t.cmap_bits = p(2) ? 32 : 24;
                        unsigned flip = p(4);
                        t.right_to_left = flip & 1;
                        t.top_down = flip & 2;
                        t.cmap_first = (unsigned[]){0, 1, 2, 100, 127, 128, 200, 255}[p(8)];
                        unsigned n = (unsigned[]){1, 2, 55, 56, 57, 128, 156, 255, 256, 257, 300, 40000}[p(12)];
                        for (unsigned q = 0; q < n; q++)
                          t.cmap.push_back(q * 0x53a9c1 + 0x2010ff);
                        unsigned e = std::min(256u, t.cmap_first + n);
                        t.w = 19;
                        t.h = 14;
                        std::vector<unsigned> v;
                        for (unsigned q = 0; q < t.w * t.h; q++)
                          v.push_back(t.cmap_first + q % (e - t.cmap_first));
                        t.pack(v);
                        expect_image(c, "tga", t.file(), t.reference(v), fmt("tga%u-map%u", t.type, t.cmap_bits), fmt("type %u map of %u colours of %u bits from %u flip %u", t.type, n, t.cmap_bits, t.cmap_first, flip));
                      }});
  // pictures that are large both ways
  k.spaces.push_back({"large", 12ull * 4, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned kind = p(12), flip = p(4);
                        Tga t;
                        static const unsigned TY[6] = {1, 2, 3, 9, 10, 11};
                        t.type = TY[kind % 6];
                        t.right_to_left = flip & 1;
                        t.top_down = flip & 2;
                        t.w = 521;
                        t.h = 260;
                        if (t.mapped()) {
                          t.bpp = 8;
                          t.cmap_bits = kind >= 6 ? 32 : 24;
                          for (unsigned q = 0; q < 256; q++)
                            t.cmap.push_back(q * 0x53a9c1 + 0x2010ff);
                        } else {
                          t.bpp = t.gray() ? (kind >= 6 ? 16 : 8) : kind >= 6 ? 32 : 24;
                          t.abits = kind >= 6 ? 8 : 0;
                        }
                        std::vector<unsigned> v = coded(t.w * t.h, i % 11, t.mapped() ? 256 : 1ull << 32);
                        if (!t.mapped())
                          for (auto &x : v)
                            x &= (unsigned)((1ull << t.bpp) - 1);
                        t.pack(v);
                        expect_image(c, "tga", t.file(), t.reference(v), fmt("tga%u-large", t.type), fmt("type %u bpp %u %ux%u flip %u", t.type, t.bpp, t.w, t.h, flip));
                      }});

  // every packetisation of a short pixel sequence: each boundary is either inside a packet or not,
  // each packet is raw, or a run if its pixels are equal
  unsigned N = th ? 8 : 7;
  k.spaces.push_back({"packets", (4ull << N << (N - 1) << N), [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Tga t;
                        static const unsigned TY[4] = {9, 10, 11, 10};
                        unsigned kind = p(4);
                        t.type = TY[kind];
                        t.bpp = kind == 0 || kind == 2 ? 8 : kind == 3 ? 32 : 24;
                        t.top_down = true;
                        t.w = N == 8 ? 4 : 7;
                        t.h = N == 8 ? 2 : 1;
                        if (kind == 0)
                          t.cmap = {0x102030, 0xf0e0d0};
                        unsigned colour = p(1u << N), cut = p(1u << (N - 1)), raw = p(1u << N);
                        std::vector<unsigned> v;
                        for (unsigned q = 0; q < N; q++)
                          v.push_back(kind == 0 ? colour >> q & 1 : (colour >> q & 1 ? 0x81c2a3 : 0x0b1c2d) & (unsigned)((1ull << t.bpp) - 1));
                        for (unsigned q = 0; q < N;) {
                          unsigned n = 1;
                          while (q + n < N && !(cut >> (q + n - 1) & 1))
                            n++;
                          bool same = true;
                          for (unsigned s = 1; s < n; s++)
                            same = same && v[q + s] == v[q];
                          bool r = raw >> q & 1;
                          if (!same && !r)
                            return; // not encodable as a run
                          for (unsigned s = 1; s < n; s++)
                            if (raw >> (q + s) & 1)
                              return; // canonical choice only
                          t.data += (char)((r ? 0 : 0x80) | (n - 1));
                          for (unsigned s = 0; s < (r ? n : 1); s++)
                            t.data += t.px(v[q + s]);
                          q += n;
                        }
                        expect_image(c, "tga", t.file(), t.reference(v), fmt("tga%u-packets", t.type), fmt("type %u packets %s", t.type, hex(t.data).c_str()));
                      }});

  // every byte value in each channel / every index
  k.spaces.push_back({"values", 12, [=](u64 i, Ctx &c) {
                        Tga t;
                        static const unsigned TY[6] = {1, 2, 3, 9, 10, 11};
                        t.type = TY[i % 6];
                        unsigned v2 = i / 6;
                        t.w = 256;
                        t.h = 3;
                        t.bpp = t.mapped() ? 8 : t.gray() ? (v2 ? 16 : 8) : v2 ? 32 : 24;
                        t.abits = t.bpp == 32 || t.bpp == 16 ? 8 : 0;
                        if (t.mapped())
                          for (unsigned q = 0; q < 256; q++)
                            t.cmap.push_back(q * 0x010305 + 0x5a);
                        std::vector<unsigned> v;
                        for (unsigned r = 0; r < 3; r++)
                          for (unsigned x = 0; x < 256; x++)
                            v.push_back(t.mapped() ? (x + r) & 255 : t.gray() ? (((x * 7 + r) & 255) | (v2 ? (x << 8) : 0)) : (x << (8 * r)) | (v2 ? (x * 3 & 255) << 24 : 0));
                        t.pack(v);
                        expect_image(c, "tga", t.file(), t.reference(v), fmt("tga%u-values", t.type), fmt("type %u bpp %u all values", t.type, t.bpp));
                      }});
  // long runs: every run length against the 128-pixel packet limit
  k.spaces.push_back({"runs", 3ull * 300, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Tga t;
                        t.type = (unsigned[]){9, 10, 11}[p(3)];
                        t.bpp = t.type == 10 ? 24 : 8;
                        if (t.mapped())
                          t.cmap = {0x123456, 0x654321};
                        unsigned n = 1 + p(300);
                        t.w = n + 1;
                        std::vector<unsigned> v(n, 1);
                        v.push_back(0);
                        t.pack(v);
                        expect_image(c, "tga", t.file(), t.reference(v), fmt("tga%u-run", t.type), fmt("type %u run of %u", t.type, n));
                      }});
  // every length of a raw packet, followed by a run, in one row or many
  k.spaces.push_back({"raws", 5ull * 128 * 3 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Tga t;
                        unsigned kind = p(5), n = 1 + p(128), rows = p(3);
                        t.top_down = p(2);
                        t.type = (unsigned[]){9, 10, 11, 10, 11}[kind];
                        t.bpp = (unsigned[]){8, 24, 8, 32, 16}[kind];
                        t.abits = kind > 2 ? 8 : 0;
                        if (t.mapped())
                          for (unsigned q = 0; q < 256; q++)
                            t.cmap.push_back(q * 0x010305 + 0x5a);
                        unsigned total = n + 128;
                        t.w = rows == 0 ? total : rows == 1 ? 1 : 2;
                        if (total % t.w)
                          total--;
                        t.h = total / t.w;
                        std::vector<unsigned> v;
                        for (unsigned q = 0; q < total; q++)
                          v.push_back((q < n ? q * 0x9e3779b1u >> 3 : 77) & (t.bpp == 32 ? ~0u : (1u << t.bpp) - 1));
                        t.data = Bytes(1, (char)(n - 1));
                        for (unsigned q = 0; q < n; q++)
                          t.data += t.px(v[q]);
                        t.data += (char)(0x80 | (total - n - 1));
                        t.data += t.px(77);
                        std::vector<unsigned> w = v; // file order is from the bottom unless told otherwise
                        if (!t.top_down)
                          for (unsigned r = 0; r < t.h; r++)
                            for (unsigned x = 0; x < t.w; x++)
                              w[r * t.w + x] = v[(t.h - 1 - r) * t.w + x];
                        expect_image(c, "tga", t.file(), t.reference(w), fmt("tga%u-raw", t.type), fmt("type %u bpp %u raw packet of %u pixels, %ux%u", t.type, t.bpp, n, t.w, t.h));
                      }});
  // two images in a row: the second is unaffected by how the first ended
  k.spaces.push_back({"pairs", 3ull * 3 * 20 * 20, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Tga t[2];
                        for (int q = 0; q < 2; q++) {
                          t[q].type = (unsigned[]){9, 10, 11}[p(3)];
                          t[q].bpp = t[q].type == 10 ? 24 : 8;
                          if (t[q].mapped())
                            t[q].cmap = {0x123456, 0x654321, 0xffeedd};
                        }
                        unsigned over = p(20);
                        t[0].w = 3;
                        t[0].data = Bytes(1, (char)(0x80 | (2 + over))) + t[0].px(2); // run longer than the picture
                        Decoded d = decode("tga", t[0].file());
                        c.step(2);
                        c.state(d.img.hash());
                        t[1].w = 1 + p(20);
                        std::vector<unsigned> v = coded(t[1].w, 4, t[1].mapped() ? 3 : 256);
                        t[1].pack(v);
                        expect_image(c, "tga", t[1].file(), t[1].reference(v), "tga-after-overlong-run", fmt("type %u after overlong run of type %u", t[1].type, t[0].type));
                      }});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }

seed('pnm-rowlen', 'C01', [('src/input-pnm.c', 'rowlen = (unsigned int)ceil((double)(info->xres) / 8.0);', 'rowlen = (info->xres + 8) / 8;')],
     'a raw bitmap whose width is a multiple of eight', 'rows of such files are read one byte too long, so all rows but the first are shifted',
     c='''int demo(void) {
  at_bitmap *b = load("pbm", "P4\\n8 2\\n\\xf0\\x0f\\x00", 10);
  CHECK(!fatal); CHECK(at_bitmap_get_width(b) == 8 && at_bitmap_get_height(b) == 2);
  CHECK(pix(b, 0, 0) == 0); CHECK(pix(b, 0, 7) == 0xffffff); CHECK(pix(b, 1, 0) == 0xffffff); CHECK(pix(b, 1, 7) == 0);
  return 0;
}
''')
seed('tga-mapoffset', 'C03', [('src/input-tga.c', 'fread(cmap + (index * pelbytes), pelbytes, length, fp)', 'fread(cmap + index, pelbytes, length, fp)')],
     'a colour-mapped Targa file whose colour map does not start at entry 0', 'the entries land at the wrong place of the map, so every pixel has a wrong colour',
     c='''int demo(void) {
  unsigned char d[] = {0, 1, 1, 2, 0, 2, 0, 24, 0, 0, 0, 0, 2, 0, 1, 0, 8, 0x20, 3, 2, 1, 6, 5, 4, 2, 3};
  at_bitmap *b = load("tga", d, sizeof d);
  CHECK(!fatal); CHECK(pix(b, 0, 0) == 0x010203); CHECK(pix(b, 0, 1) == 0x040506);
  return 0;
}
''')
seed('outline-diagonal', 'C07', [('src/pxl-outline.c', '''&& !(is_marked_edge(TOP, *row + 1, *col, marked) && is_marked_edge(LEFT, *row, *col + 1, marked)) &&''', '''&&''')],
     'pixels of one colour that touch only diagonally, around a hole, in a particular order', 'the walk around the outline takes a wrong turn at a diagonal contact that was already passed',
     c='''static int inside(at_splines_type *s, double x, double y, int gray) {
  unsigned i, k; int n = 0;
  for (i = 0; i < s->length; i++)
    for (k = 0; s->data[i].color.r == gray && k < s->data[i].length; k++) {
      at_real_coord a = s->data[i].data[k].v[0], b = s->data[i].data[k].v[3];
      if ((a.y <= y) != (b.y <= y) && a.x + (y - a.y) / (b.y - a.y) * (b.x - a.x) > x) n += b.y > a.y ? 1 : -1;
    }
  return n;
}
/* in every 3x5 picture at double size, each pixel is covered by a shape of its own colour */
int demo(void) {
  unsigned v; int r, c, bad = 0;
  for (v = 0; v < 32768; v++) {
    at_bitmap *b = at_bitmap_new(6, 10, 1);
    at_fitting_opts_type *o = at_fitting_opts_new();
    at_splines_type *s;
    for (r = 0; r < 10; r++) for (c = 0; c < 6; c++) b->bitmap[r * 6 + c] = v >> (r / 2 * 3 + c / 2) & 1 ? 0 : 255;
    o->corner_threshold = o->corner_always_threshold = 181; o->corner_surround = 1; o->filter_iterations = 0;
    s = at_splines_new(b, o, msg, NULL);
    for (r = 0; r < 10; r++) for (c = 0; c < 6; c++) if (inside(s, c + .5, 10 - r - .5, b->bitmap[r * 6 + c]) == 0) bad++;
    at_splines_free(s); at_fitting_opts_free(o); at_bitmap_free(b);
  }
  CHECK(bad == 0);
  return 0;
}
''')
BMPC = '''static unsigned char B[4096]; static int bn;
static void u16(int v) { B[bn++] = v; B[bn++] = v >> 8; }
static void u32(long v) { u16(v); u16(v >> 16); }
/* a bitmap header of 40 bytes with a palette of 16 grays of step 16 */
static void bmp(int w, int h, int bits, int comp) {
  int i; bn = 0; B[bn++] = 'B'; B[bn++] = 'M'; u32(0); u32(0); u32(54 + 64); u32(40); u32(w); u32(h); u16(1); u16(bits); u32(comp); u32(0); u32(0); u32(0); u32(16); u32(0);
  for (i = 0; i < 16; i++) u32(i * 0x100000L + i * 0x1000 + i * 0x10);
}
static void bytes(int n, const char *s) { memcpy(B + bn, s, n); bn += n; }
'''
seed('bmp-abspad', 'C02', [('src/input-bmp.c', 'if (total_bytes_read % 2)', 'if (n % 2)')],
     'a 4-bit run-length encoded bitmap with an absolute run of 4k+2 pixels', 'the padding byte of such a run is not skipped, and everything behind it is decoded from the wrong place',
     c=BMPC + '''int demo(void) {
  at_bitmap *b;
  bmp(6, 2, 4, 2); bytes(12, "\\0\\6\\x12\\x34\\x56\\0\\0\\0\\6\\x77\\0\\1");
  b = load("bmp", B, bn);
  CHECK(!fatal); CHECK(pix(b, 1, 0) == 0x101010); CHECK(pix(b, 1, 5) == 0x606060); CHECK(pix(b, 0, 0) == 0x707070); CHECK(pix(b, 0, 5) == 0x707070);
  return 0;
}
''')
seed('bmp-delta', 'C02', [('src/input-bmp.c', 'xpos += (unsigned char) row_buf[0];', 'xpos += (signed char) row_buf[0];')],
     'a run-length encoded bitmap with a jump of more than 127 pixels to the right', 'the jump goes the wrong way',
     c=BMPC + '''int demo(void) {
  at_bitmap *b;
  bmp(200, 1, 8, 1); bytes(8, "\\0\\2\\x96\\0\\3\\5\\0\\1");
  b = load("bmp", B, bn);
  CHECK(!fatal); CHECK(pix(b, 0, 150) == 0x505050); CHECK(pix(b, 0, 152) == 0x505050); CHECK(pix(b, 0, 149) != 0x505050);
  return 0;
}
''')
seed('tga-reverse', 'C03', [('src/input-tga.c', 'memcpy(buffer + j, image.bitmap + bsize - (j + pelbytes), pelbytes);', 'memcpy(buffer + j, image.bitmap + bsize - (j + 1), 1);')],
     'a colour Targa file stored from the lower right corner', 'the channels of every pixel change places, and two of three bytes stay unset',
     c='''int demo(void) {
  unsigned char d[] = {0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 1, 0, 24, 0x10, 3, 2, 1, 6, 5, 4};
  at_bitmap *b = load("tga", d, sizeof d);
  CHECK(!fatal); CHECK(pix(b, 0, 0) == 0x040506); CHECK(pix(b, 0, 1) == 0x010203);
  return 0;
}
''')
seed('png-16bit', 'C04', [('src/input-png.c', 'PNG_TRANSFORM_STRIP_16 |', 'PNG_TRANSFORM_SCALE_16 |')],
     'a PNG file with 16 bits per sample and a sample whose low byte is large', 'samples are rounded instead of keeping the high byte, so that equal high bytes come out as different colours',
     c='''#include <png.h>
int demo(void) {
  unsigned char row[6] = {0x10, 0x00, 0x10, 0xff, 0x20, 0x80}; at_bitmap *b;
  FILE *f = fopen("in.png", "wb");
  png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop i = png_create_info_struct(p);
  png_init_io(p, f); png_set_IHDR(p, i, 3, 1, 16, PNG_COLOR_TYPE_GRAY, 0, 0, 0); png_write_info(p, i); png_write_row(p, row); png_write_end(p, i); fclose(f);
  b = at_bitmap_read(at_input_get_handler_by_suffix("png"), "in.png", NULL, msg, NULL);
  CHECK(!fatal); CHECK(pix(b, 0, 0) == 0x101010); CHECK(pix(b, 0, 1) == 0x101010); CHECK(pix(b, 0, 2) == 0x202020);
  return 0;
}
''')
GFC = '''static unsigned char G[4096]; static int gn;
static void g4(long v) { G[gn++] = v >> 24; G[gn++] = v >> 16; G[gn++] = v >> 8; G[gn++] = v; }
/* a font of one character with code 65 and the given box and painting commands */
static void gf(int minm, int maxm, int minn, int maxn, int n, const char *paint) {
  int at, post; gn = 0;
  G[gn++] = 247; G[gn++] = 131; G[gn++] = 0; at = gn;
  G[gn++] = 67; g4(65); g4(-1); g4(minm); g4(maxm); g4(minn); g4(maxn); memcpy(G + gn, paint, n); gn += n; G[gn++] = 69;
  post = gn; G[gn++] = 248; g4(post); g4(10L << 20); g4(0); g4(65536); g4(65536); g4(minm); g4(maxm); g4(minn); g4(maxn);
  G[gn++] = 246; G[gn++] = 65; G[gn++] = 10; g4(0x80000); g4(at);
  G[gn++] = 249; g4(post); G[gn++] = 131; while (gn % 4) G[gn++] = 223; g4(0xdfdfdfdfL);
}
'''
seed('gf-newrow', 'C05', [('src/input-gf.c', 'NEW_ROW_0 <= c && c <= NEW_ROW_164', 'NEW_ROW_0 <= c && c < NEW_ROW_164')],
     'a character with a row that begins with exactly 164 white pixels, encoded in one byte', 'the longest one-byte row command is not understood',
     c=GFC + '''int demo(void) {
  at_bitmap *b;
  gf(0, 165, 0, 1, 4, "\\0\\1\\xee\\1");
  b = load("gf", G, gn);
  CHECK(!fatal); CHECK(at_bitmap_get_width(b) == 165 && at_bitmap_get_height(b) == 2);
  CHECK(pix(b, 0, 0) != pix(b, 0, 1)); CHECK(pix(b, 1, 164) == pix(b, 0, 0)); CHECK(pix(b, 1, 163) == pix(b, 0, 1));
  return 0;
}
''')
seed('pnm-lastrow', 'C06', [('src/input-pnm.c', 'if (rowlen != fread(buf, 1, rowlen, fd))', 'if (!fread(buf, 1, rowlen, fd))')],
     'a raw bitmap of more than eight columns cut off in the middle of a row', 'the missing part of the row is filled with what the memory held, and nothing is reported',
     c='''int demo(void) {
  load("pbm", "P4\\n16 2\\n\\xf0\\x0f\\x00", 11);
  CHECK(fatal || warned);
  return 0;
}
''')
seed('width-corner', 'C09', [('src/image-proc.c', 'd = dist.d[y + 1][x + 1] + (float)M_SQRT2 *dist.weight[y][x];', 'd = dist.d[y + 1][x + 1] + dist.weight[y][x];')],
     'a centerline trace that keeps the line width, of a slanted line', 'the diagonal step towards the lower right counts as one pixel, so lines come out too thin there',
     c='''int demo(void) {
  at_bitmap *b = at_bitmap_new(40, 40, 1); at_fitting_opts_type *o = at_fitting_opts_new(); at_splines_type *s; int r, c; unsigned i; float z = 0;
  memset(b->bitmap, 255, 1600);
  for (r = 2; r < 38; r++) for (c = 2; c < 38; c++) if (abs(r + c - 40) <= 6) b->bitmap[r * 40 + c] = 0;
  o->centerline = 1; o->preserve_width = 1; o->width_weight_factor = 1; o->background_color = at_color_new(255, 255, 255); o->filter_iterations = 0;
  s = at_splines_new(b, o, msg, NULL);
  for (i = 0; i < s->length; i++) for (c = 0; c < (int)s->data[i].length; c++) { if (s->data[i].data[c].v[0].z > z) z = s->data[i].data[c].v[0].z; if (s->data[i].data[c].v[3].z > z) z = s->data[i].data[c].v[3].z; }
  fprintf(stderr, "width %g\\n", z);
  CHECK(s->length > 0); CHECK(fabs(z - 5) < .01);
  return 0;
}
''')
seed('speckle-right', 'C11', [('src/despeckle.c', '''  if (x2 < width - 1) {
    value = &bitmap[3 * (y * width + x2 + 1)];''', '''  if (x2 < width - 2) {
    value = &bitmap[3 * (y * width + x2 + 1)];''')],
     'a speckle in an RGB picture whose most similar neighbour is to its right in the last column', 'that neighbour is not looked at',
     c='''int demo(void) {
  at_bitmap *b = at_bitmap_new(4, 4, 3); at_fitting_opts_type *o = at_fitting_opts_new(); int i;
  memset(b->bitmap, 200, 48);
  for (i = 0; i < 4; i++) memset(b->bitmap + 3 * (i * 4 + 3), 100, 3);
  memset(b->bitmap + 3 * (1 * 4 + 2), 110, 3);
  o->despeckle_level = 2;
  at_splines_new(b, o, msg, NULL);
  CHECK(pix(b, 1, 2) == 0x646464);
  return 0;
}
''')
seed('cancel-fit', 'C12', [('src/fit.c', '''    if (test_cancel && test_cancel(testcancel_data))
      goto cleanup;

    LOG("\\nFitting curve list''', '''    if (this_list > 0 && test_cancel && test_cancel(testcancel_data))
      return char_splines;

    LOG("\\nFitting curve list''')],
     'cancelling while the second or a later shape is being fitted', 'the curves prepared for fitting are not given back',
     sh='''gcc -w -o "$tmp/demo" "$here/demo.c" -I/repo/src /repo/_build/repo/libautotrace.a -lpng -lz -lm -lstdc++ || exit 2
cd "$tmp" && GLIBC_TUNABLES=glibc.malloc.tcache_count=0 timeout 60 ./demo
''', c='''#include <malloc.h>
static int left; static bool stop(void *d) { return left-- <= 0; }
int demo(void) {
  int k, i; struct mallinfo2 m0, m1;
  for (k = 0; k < 200; k++) {
    at_fitting_opts_type *o = at_fitting_opts_new(); at_bitmap *b = at_bitmap_new(8, 8, 1); at_splines_type *s;
    for (i = 0; i < 64; i++) b->bitmap[i] = i % 8 / 2 * 60;
    m0 = mallinfo2(); left = k;
    s = at_splines_new_full(b, o, msg, NULL, NULL, NULL, stop, NULL);
    m1 = mallinfo2();
    if (left < 0) { CHECK(s == NULL); CHECK(m0.uordblks == m1.uordblks); }
    else { at_splines_free(s); }
    at_bitmap_free(b); at_fitting_opts_free(o);
  }
  return 0;
}
''')
seed('progress-third', 'C13', [('src/fit.c', '((float) CURVE_LIST_ARRAY_LENGTH(curve_array) * (float) 3.0) + (float) (1.0 / 3.0)', '((float) CURVE_LIST_ARRAY_LENGTH(curve_array) * (float) 1.5) + (float) (1.0 / 3.0)')],
     'a picture of several shapes', 'the progress of fitting runs up to 1 although the clean-up that follows starts at two thirds, so it goes back',
     c='''static float last; static int back; static void prog(float p, void *d) { if (p < last || p < 0 || p > 1) back++; last = p; }
int demo(void) {
  at_fitting_opts_type *o = at_fitting_opts_new(); at_bitmap *b = at_bitmap_new(12, 4, 1); int i;
  for (i = 0; i < 48; i++) b->bitmap[i] = i % 12 / 2 * 40;
  at_splines_new_full(b, o, msg, NULL, prog, NULL, NULL, NULL);
  CHECK(back == 0); CHECK(last == 1);
  return 0;
}
''')
SHAPES = '''static char *put(const char *suffix, at_splines_type *s, size_t *n) {
  char *b = NULL; FILE *f = open_memstream(&b, n);
  at_splines_write(at_output_get_handler_by_suffix((char *)suffix), f, (char *)"out", NULL, s, msg, NULL); fclose(f);
  return b;
}
/* closed polygons: colour, hole or not, and the corners */
static at_splines_type *S(int w, int h) { at_splines_type *s = calloc(1, sizeof *s); s->width = w; s->height = h; return s; }
static void poly(at_splines_type *s, int rgb, int hole, int n, const int *xy) {
  int i; at_spline_list_type *l;
  s->data = realloc(s->data, (s->length + 1) * sizeof *s->data); l = &s->data[s->length++]; memset(l, 0, sizeof *l);
  l->data = calloc(n, sizeof *l->data); l->length = n; l->clockwise = hole; at_color_set(&l->color, rgb >> 16, rgb >> 8, rgb);
  for (i = 0; i < n; i++) {
    at_spline_type *p = &l->data[i]; int j = (i + 1) % n;
    p->degree = AT_LINEARTYPE; p->v[0].x = p->v[1].x = xy[2 * i]; p->v[0].y = p->v[1].y = xy[2 * i + 1]; p->v[3].x = p->v[2].x = xy[2 * j]; p->v[3].y = p->v[2].y = xy[2 * j + 1];
  }
}
static const int sq[] = {1, 1, 5, 1, 5, 5, 1, 5};
'''
seed('pdf-xref', 'C15', [('src/output-pdf.c', 'sprintf(temp, "%d", ury);', 'sprintf(temp, "%d", urx);')],
     'a picture whose width and height have different numbers of digits', 'all offsets behind the page size in the cross reference table of the PDF file are wrong',
     c=SHAPES + '''int demo(void) {
  int w, h; size_t n;
  for (w = 9; w <= 1000; w += 91 + (w < 100 ? 0 : 800)) for (h = 9; h <= 1000; h += 91 + (h < 100 ? 0 : 800)) {
    at_splines_type *s = S(w, h); char *t, *x; poly(s, 0x102030, 0, 4, sq);
    t = put("pdf", s, &n); x = strstr(t, "startxref\\n"); CHECK(x); CHECK(!strncmp(t + atoi(x + 10), "xref", 4));
  }
  return 0;
}
''')
seed('eps-first', 'C15', [('src/output-eps.c', 'if (this_list == 0 || !at_color_equal(&list.color, &last_color)) {', 'if (!at_color_equal(&list.color, &last_color)) {')],
     'an EPS file whose first shape is black', 'no path is begun and no colour set for the first shape, while the path is ended',
     c=SHAPES + '''int demo(void) {
  at_splines_type *s = S(10, 10); size_t n; char *t, *p; int b = 0, e = 0;
  poly(s, 0, 0, 4, sq); poly(s, 0xff0000, 0, 4, sq);
  t = put("eps", s, &n); p = strstr(t, "%%EndSetup");
  while ((p = strstr(p, "\\n*"))) { p += 2; if (*p == 'u') b++; else e++; }
  CHECK(b == 2 && e == 2);
  return 0;
}
''')
seed('mif-black', 'C16', [('src/output-mif.c', 'if (y < k)\n      k = y;', 'if (y < m)\n      k = y;')],
     'a colour with more blue than green but less than red', 'the black part of the colour is too large and the others become negative',
     c=SHAPES + '''int demo(void) {
  at_splines_type *s = S(10, 10); size_t n; char *t, *p; int c, m, y, k;
  poly(s, 0xff2080, 0, 4, sq);
  t = put("mif", s, &n); p = strstr(t, "<ColorCyan "); CHECK(p);
  CHECK(sscanf(p, "<ColorCyan %d><ColorMagenta %d><ColorYellow %d><ColorBlack %d>", &c, &m, &y, &k) == 4);
  CHECK(c == 0 && k == 0 && abs(m - 87) <= 1 && abs(y - 49) <= 1);
  return 0;
}
''')
seed('fig-close', 'C16', [('src/output-fig.c', "if ((pointx[0] != pointx[pointcount - 1]) || (pointy[0] != pointy[pointcount - 1])) {", "if ((pointx[0] != pointx[pointcount - 1]) && (pointy[0] != pointy[pointcount - 1])) {")],
     'a filled polygon in xfig output that is not closed and whose last point lies straight above, below or beside the first', 'the polygon stays open',
     c=SHAPES + '''int demo(void) {
  at_splines_type *s = S(10, 10); size_t n; char *t, *p; int x[8], y[8], i, k = 0;
  poly(s, 0xff2080, 0, 4, sq); s->data[0].length = 3;
  t = put("fig", s, &n); p = strstr(t, "\\n2 3 "); CHECK(p); p = strchr(p + 1, '\\t'); CHECK(p);
  for (i = 0; i < 8 && sscanf(p, "%d %d %n", x + i, y + i, &k) == 2; i++) p += k;
  CHECK(i == 5 && x[4] == x[0] && y[4] == y[0]);
  return 0;
}
''')
seed('emf-desc', 'C17', [('src/output-emf.c', 'recsize = sizeof(uint32_t) * 25 + (desclen * 2) + ((desclen * 2) % 4);', 'recsize = sizeof(uint32_t) * 25 + (desclen * 2) + (desclen % 4);')],
     'an output name of certain lengths', 'the size of the header and of the whole file is too large by one to three bytes',
     c='''static char *p; static size_t n;
static unsigned u32(int at) { unsigned char *q = (unsigned char *)p + at; return q[0] | q[1] << 8 | q[2] << 16 | (unsigned)q[3] << 24; }
int demo(void) {
  at_splines_type s; int l; memset(&s, 0, sizeof s); s.width = s.height = 8;
  for (l = 1; l < 9; l++) {
    char name[20]; FILE *f = open_memstream(&p, &n); memset(name, 'a', l); name[l] = 0;
    at_splines_write(at_output_get_handler_by_suffix("emf"), f, name, NULL, &s, msg, NULL); fclose(f);
    CHECK(u32(48) == n); CHECK(u32(4) % 4 == 0 && u32(4) < n);
  }
  return 0;
}
''')
PGM = '''i=0; { printf 'P2\\n12 12\\n255\\n'; for r in 0 1 2 3 4 5 6 7 8 9 10 11; do for c in 0 1 2 3 4 5 6 7 8 9 10 11; do if [ $(( (r-6)*(r-6)+(c-6)*(c-6) )) -lt 20 ]; then echo 0; else echo 255; fi; done; done; } > "$tmp/in.pgm"
'''
seed('cli-charcode', 'C19', [('src/main.c', 'fitting_opts->charcode = strtoul(optarg, 0, 0);', 'fitting_opts->charcode = strtoul(optarg, 0, 10);')],
     'a character code given in hexadecimal or octal on the command line', 'another character than the one asked for is read',
     c=GFC + '''int demo(void) { gf(0, 2, 0, 1, 2, "\\0\\2"); FILE *f = fopen("a.gf", "wb"); fwrite(G, 1, gn, f); fclose(f); return 0; }
''', sh='''gcc -w -o "$tmp/demo" "$here/demo.c" -I/repo/src /repo/_build/repo/libautotrace.a -lpng -lz -lm -lstdc++ || exit 2
cd "$tmp" && ./demo && /repo/_build/repo/autotrace -charcode 0x41 a.gf > a.eps || exit 1
/repo/_build/repo/autotrace -charcode 0x42 a.gf > b.eps 2>/dev/null && exit 1
exit 0
''')
seed('cli-oneletter', 'C20', [('src/filename.c', 'suffix - 2 - s < 0 ? NULL', 'suffix - 2 - s <= 0 ? NULL')],
     'an input file whose name has one character before the ending', 'the file is refused though it can be read',
     sh=PGM + '''cd "$tmp"; cp in.pgm a.pgm
/repo/_build/repo/autotrace -output-format svg -output-file ab.svg in.pgm || exit 2
/repo/_build/repo/autotrace -output-format svg -output-file a.svg a.pgm || exit 1
cmp a.svg ab.svg
''')
seed('cli-order', 'C19', [('src/main.c', 'fitting_opts->width_weight_factor = (float) atof(optarg);', 'fitting_opts->width_weight_factor = fitting_opts->preserve_width ? (float) atof(optarg) : fitting_opts->width_weight_factor;')],
     'the width factor given before the option that preserves widths', 'the width factor is ignored',
     sh='''cd "$tmp"
{ printf 'P2\\n60 30\\n255\\n'; for r in $(seq 0 29); do for c in $(seq 0 59); do d=$((r>14?r-14:14-r)); if [ $c -ge 4 -a $c -le 55 -a $d -le $(( (c%20)/2 + 1 )) ]; then echo 0; else echo 255; fi; done; done; } > in.pgm
/repo/_build/repo/autotrace -centerline -background-color FFFFFF -preserve-width -width-weight-factor 2 -output-file a.er in.pgm || exit 2
/repo/_build/repo/autotrace -centerline -background-color FFFFFF -width-weight-factor 2 -preserve-width -output-file b.er in.pgm || exit 2
grep -v Date a.er > a; grep -v Date b.er > b
cmp a b
''')
seed('format-path', 'C21', [('src/output.cpp', "char *dot_pos = strrchr(filename, '.');", "char *dot_pos = strchr(filename, '.');")],
     'an output name with more than one dot', 'the format is taken from behind the first dot',
     c='''int demo(void) { CHECK(at_output_get_handler("v1.2.svg") == at_output_get_handler_by_suffix("svg")); CHECK(at_output_get_handler("./a.svg")); return 0; }
''')

seed('cgm-control', 'C17', [('src/output-cgm.c', 'write16(cgm_file, (uint16_t) (ury - CONTROL2(s).y));', 'write16(cgm_file, (uint16_t) (ury - CONTROL1(s).y));')],
     'a curve whose control points lie at different heights', 'the second control point of the curve is moved up or down in CGM files',
     c=SHAPES + '''int demo(void) {
  at_splines_type *s = S(10, 10); size_t n, i; unsigned char *t; static const unsigned char want[] = {0, 1, 0, 9, 0, 2, 0, 8, 0, 4, 0, 3, 0, 5, 0, 9};
  poly(s, 0x102030, 0, 4, sq); s->data[0].data[0].degree = AT_CUBICTYPE;
  s->data[0].data[0].v[1].x = 2; s->data[0].data[0].v[1].y = 2; s->data[0].data[0].v[2].x = 4; s->data[0].data[0].v[2].y = 7;
  t = (unsigned char *)put("cgm", s, &n);
  for (i = 0; i + sizeof want <= n; i++) if (!memcmp(t + i, want, sizeof want)) return 0;
  CHECK(0);
}
''')
seed('dr2d-box', 'C17', [('src/output-dr2d.c', '    if (y2 < ey) {', '    else if (y2 < ey) {')],
     'a shape with a point that is farther right and farther down than all points before, and nothing as far down behind it', 'the bounding box of the shape in DR2D files is too small',
     c=SHAPES + '''static float be(unsigned char *p) { unsigned v = (unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; float f; memcpy(&f, &v, 4); return f; }
static float tall(int n, const int *xy) {
  at_splines_type *s = S(10, 10); size_t m, i; unsigned char *t;
  poly(s, 0x102030, 0, n, xy); t = (unsigned char *)put("dr2d", s, &m);
  for (i = 0; i + 24 <= m; i++) if (!memcmp(t + i, "BBOX", 4)) return be(t + i + 20) - be(t + i + 12);
  return 0;
}
int demo(void) {
  static const int tri[] = {1, 5, 5, 1, 5, 5};
  CHECK(tall(4, sq) > 0); CHECK(tall(3, tri) == tall(4, sq));
  return 0;
}
''')
seed('locale-all', 'C18', [('src/autotrace.c', '  setlocale(LC_NUMERIC, "C");\n', '  setlocale(LC_ALL, "C");\n')],
     'a program with a locale of its own', 'writing changes the locale of the program for good in all respects but numbers',
     c='''#include <locale.h>
int demo(void) {
  at_splines_type s; FILE *f = tmpfile(); memset(&s, 0, sizeof s); s.width = s.height = 8;
  CHECK(setlocale(LC_ALL, "C.UTF-8"));
  at_splines_write(at_output_get_handler_by_suffix("svg"), f, "x", NULL, &s, msg, NULL);
  CHECK(!strcmp(setlocale(LC_CTYPE, NULL), "C.UTF-8")); CHECK(!strcmp(setlocale(LC_NUMERIC, NULL), "C.UTF-8"));
  return 0;
}
''')
seed('luma-round', 'C22', [('src/color.c', '+ 0.5)', '+ 0.49)')],
     'a colour whose brightness lies just at one half', 'the brightness of such a colour is one too low',
     c='''int demo(void) { at_color c; at_color_set(&c, 0, 0, 50); CHECK(at_color_luminance(&c) == 6); return 0; }
''')
WRAP = '-I/repo/src/wrapper -I/repo/src/wrapper/Json -I/opt/vp/wrapper/json11 -I/opt/vp/wrapper -I/repo/src -I/repo -include stdexcept'
WLIB = '/repo/_build/libautotraceCppLib.a /repo/_build/libjson11.a /repo/_build/repo/libautotrace.a -lpng -lz -lm'
seed('fig-alternate', 'C14', [('src/output-fig.c', '    fig_colour_map[i].alternate = 0;\n', '')],
     'writing an xfig file after another one with colours that fall into the same place of the colour table', 'colours of the second file refer to numbers that stand for other colours of the first',
     c=SHAPES + '''static at_splines_type *many(int from) { at_splines_type *s = S(10, 10); int i; for (i = 0; i < 400; i++) poly(s, (from + i) * 7919 & 0xffffff, 0, 4, sq); return s; }
int demo(void) {
  size_t n, m; char *a, *b; at_splines_type *x = many(1), *y = many(5000);
  a = put("fig", y, &n); put("fig", x, &m); b = put("fig", y, &m);
  CHECK(n == m); CHECK(!memcmp(a, b, n));
  return 0;
}
''')
seed('wrap-size', 'C24', [('src/wrapper/autotraceMain.cpp', 'if (outputBufferSize < outputFileSize().value) {', 'if (outputBufferSize + 1 < outputFileSize().value) {')],
     'a result buffer that is exactly one byte too small', 'the result is cut off and reported as complete',
     files={'w.cpp': '''#define main other
#define ASSET_PATH "./"
#include "/repo/src/wrapper/autotraceMain.cpp"
#undef main
#include <cstring>
#include <vector>
int main() {
  FILE *f = fopen("test.svg", "wb"); fputs("0123456789", f); fclose(f);
  for (size_t n = 0; n < 13; n++) {
    std::vector<char> b(n + 1, 'x'); Result r = getOutputFile(reinterpret_cast<uintptr_t>(b.data()), n);
    if (r.success != (n >= 10)) return 1;
    if (r.success && memcmp(b.data(), "0123456789", 10)) return 1;
  }
  return 0;
}
'''}, sh='g++ -w -std=c++17 ' + WRAP + ' -o "$tmp/w" "$here/w.cpp" ' + WLIB + ' || exit 2\ncd "$tmp" && ./w\n')
seed('ugs-ascend', 'C25', [('src/input-gf.c', '      sym->bbox_max_row -= white_on_top;\n', '')],
     'a character with blank rows at the top of its box', 'the height of the ink above the baseline is too large in the glyph source',
     c=GFC + '''int demo(void) {
  char *t[2]; size_t n; int i;
  /* the same ink with a tight box and with two blank rows above */
  for (i = 0; i < 2; i++) {
    at_bitmap *b; at_splines_type *s; FILE *f = open_memstream(&t[i], &n);
    if (i) gf(0, 3, 0, 3, 6, "\\x47\\1\\0\\3\\x4a\\3"); else gf(0, 3, 0, 1, 4, "\\0\\3\\x4a\\3");
    b = load("gf", G, gn); CHECK(!fatal);
    s = at_splines_new(b, at_fitting_opts_new(), msg, NULL);
    at_splines_write(at_output_get_handler_by_suffix("ugs"), f, "x", NULL, s, msg, NULL); fclose(f);
  }
  CHECK(!strcmp(t[0], t[1]));
  return 0;
}
''')
seed('surround-kept', 'C26', [('src/fit.c', '        fitting_opts->corner_surround = save_corner_surround;\n', '')],
     'a small shape before a larger one', 'the larger shape is looked at over the shorter distance that suits the small one, so that it gets corners it should not have',
     c='''int demo(void) {
  at_fitting_opts_type *o = at_fitting_opts_new(); at_bitmap *b = at_bitmap_new(8, 8, 1); unsigned n;
  memset(b->bitmap, 255, 64); b->bitmap[9] = b->bitmap[10] = b->bitmap[17] = b->bitmap[18] = 0;
  o->corner_surround = n = 9; o->background_color = at_color_new(255, 255, 255);
  at_splines_new(b, o, msg, NULL);
  CHECK(o->corner_surround == n);
  return 0;
}
''')
seed('thin-blue', 'C28', [('src/thin-image.c', '((p1)[0] == (p2)[0] && (p1)[1] == (p2)[1] && (p1)[2] == (p2)[2])', '((p1)[0] == (p2)[0] && (p1)[1] == (p2)[1])')],
     'a centerline trace of colours that differ in blue only', 'such colours run into each other',
     c='''int demo(void) {
  unsigned n[2]; int v, i, r, c;
  for (v = 0; v < 2; v++) {
    at_bitmap *b = at_bitmap_new(12, 12, 3); at_fitting_opts_type *o = at_fitting_opts_new(); at_splines_type *s;
    memset(b->bitmap, 255, 432);
    for (r = 2; r < 10; r++) for (c = 2; c < 10; c++) { unsigned char *p = b->bitmap + 3 * (12 * r + c); p[0] = c < 6 || v ? 10 : 200; p[1] = 20; p[2] = c < 6 ? 30 : 200; }
    o->centerline = 1; o->background_color = at_color_new(255, 255, 255);
    s = at_splines_new(b, o, msg, NULL); n[v] = s->length;
  }
  CHECK(n[0] == n[1]);
  return 0;
}
''')
seed('hole-second', 'C07', [('src/pxl-outline.c', '      if (row != 0) {\n', '      if (row > 1) {\n')],
     'a hole that begins in the second row of the picture', 'such a hole is lost, so that the background inside of it is painted over',
     c='''int demo(void) {
  at_bitmap *b = at_bitmap_new(9, 9, 1); at_fitting_opts_type *o = at_fitting_opts_new(); at_splines_type *s; int r, c;
  for (r = 0; r < 9; r++) for (c = 0; c < 9; c++) b->bitmap[r * 9 + c] = r > 0 && r < 7 && c > 2 && c < 6 ? 255 : 0;
  o->background_color = at_color_new(255, 255, 255);
  s = at_splines_new(b, o, msg, NULL);
  CHECK(s->length == 2); CHECK(s->data[0].clockwise != s->data[1].clockwise);
  return 0;
}
''')
seed('loop-open', 'C08', [('src/fit.c', '  if (CURVE_CYCLIC(curve) == true)\n    append_point(curve, CURVE_POINT(curve, 0));', '  if (CURVE_CYCLIC(curve) == true && CURVE_LENGTH(curve) > 40)\n    append_point(curve, CURVE_POINT(curve, 0));')],
     'a small shape without corners', 'its outline is not closed',
     c='''int demo(void) {
  int n, r, c;
  for (n = 2; n < 12; n++) {
    at_bitmap *b = at_bitmap_new(40, 40, 1); at_fitting_opts_type *o = at_fitting_opts_new(); at_splines_type *s; at_spline_list_type l;
    for (r = 0; r < 40; r++) for (c = 0; c < 40; c++) b->bitmap[r * 40 + c] = (r - 20) * (r - 20) + (c - 20) * (c - 20) <= n * n ? 0 : 255;
    o->background_color = at_color_new(255, 255, 255);
    s = at_splines_new(b, o, msg, NULL); CHECK(s->length == 1); l = s->data[0];
    CHECK(l.data[0].v[0].x == l.data[l.length - 1].v[3].x && l.data[0].v[0].y == l.data[l.length - 1].v[3].y);
  }
  return 0;
}
''')
seed('quant-maxdist', 'C10', [('src/median.c', '''        tdist = (x - maxG) G_SCALE;
        max_dist += tdist * tdist;
      } else {''', '''        tdist = (x - minG) G_SCALE;
        max_dist += tdist * tdist;
      } else {''')],
     'two colours of the reduced palette that differ in green only, and a pixel between them in the same part of the colour space as the farther one', 'the nearest colour is left out of the search for some pixels, which then get another one',
     c='''int demo(void) {
  at_bitmap *b = at_bitmap_new(20, 20, 3); at_fitting_opts_type *o = at_fitting_opts_new(); int i;
  for (i = 0; i < 400; i++) { b->bitmap[3 * i] = b->bitmap[3 * i + 2] = 49; b->bitmap[3 * i + 1] = i == 190 ? 61 : i < 200 ? 33 : 81; }
  o->color_count = 2;
  at_splines_new(b, o, msg, NULL);
  CHECK(abs(b->bitmap[1] - 33) < 2); CHECK(abs(b->bitmap[3 * 399 + 1] - 81) < 2); CHECK(b->bitmap[3 * 190 + 1] == b->bitmap[3 * 399 + 1]);
  return 0;
}
''')
seed('json-width', 'C23', [('src/wrapper/FittingOptions.cpp', 'fittingOptionsJson.emplace("preserve_width", preserve_width);', 'fittingOptionsJson.emplace("preserve_width", centerline && preserve_width);')],
     'options that keep the line width without asking for centerlines', 'the setting is lost when options are written as JSON and read again',
     files={'w.cpp': '''#include "FittingOptions.h"
int main() {
  FittingOptions f; f.preserve_width = true;
  std::string e; FittingOptions g{json11::Json::parse(f.toJson().dump(), e)};
  return g.preserve_width ? 0 : 1;
}
'''}, sh='g++ -w -std=c++17 ' + WRAP + ' -o "$tmp/w" "$here/w.cpp" ' + WLIB + ' || exit 2\n"$tmp/w"\n')
seed('sharp-first', 'C26', [('src/fit.c', 'if (corner_angle <= fitting_opts->corner_always_threshold && q >= p)', 'if (corner_angle <= fitting_opts->corner_always_threshold && q > p)')],
     'a very sharp corner that is the first point of its surroundings below the threshold', 'the corner is lost and rounded off',
     c='''int demo(void) {
  int k, r, c, bad = 0; unsigned i, n = 0;
  /* a step of one row under the tip of a spike pointing up */
  for (k = 1; k < 6; k++) {
    at_bitmap *b = at_bitmap_new(40, 40, 1); at_fitting_opts_type *o = at_fitting_opts_new(); at_splines_type *s;
    for (r = 0; r < 40; r++) for (c = 0; c < 40; c++) b->bitmap[r * 40 + c] = r > 4 && r < 36 && c >= 20 && c < 20 + (r - 4 + k - 1) / k ? 0 : 255;
    o->background_color = at_color_new(255, 255, 255); o->corner_surround = 6;
    s = at_splines_new(b, o, msg, NULL); CHECK(s->length == 1);
    for (i = 0, n = 0; i < s->data[0].length; i++) if (s->data[0].data[i].v[0].y == 35) n++;
    if (!n) bad++;
    fprintf(stderr, "%d: %u\\n", k, n);
  }
  CHECK(!bad);
  return 0;
}
''')
seed('line-short', 'C27', [('src/fit.c', '    threshold = start_end_dist * (float) 0.5;\n', '    threshold = fitting_opts->line_threshold;\n')],
     'a curve that ends near its beginning, and a large line threshold', 'the whole curve becomes a tiny line',
     c='''int demo(void) {
  at_bitmap *b = at_bitmap_new(30, 30, 1); at_fitting_opts_type *o = at_fitting_opts_new(); at_splines_type *s; int r, c; unsigned i;
  for (r = 0; r < 30; r++) for (c = 0; c < 30; c++) b->bitmap[r * 30 + c] = (r - 15) * (r - 15) + (c - 15) * (c - 15) <= 49 || (r >= 4 && r < 15 && abs(c - 15) <= (r - 4) * 2 / 3) ? 0 : 255;
  o->background_color = at_color_new(255, 255, 255); o->line_threshold = 100; o->error_threshold = 100; o->line_reversion_threshold = 0;
  s = at_splines_new(b, o, msg, NULL); CHECK(s->length == 1);
  CHECK(s->data[0].length == 2); CHECK(s->data[0].data[0].degree != AT_LINEARTYPE || s->data[0].data[1].degree != AT_LINEARTYPE);
  return 0;
}
''')
seed('coord-short', 'C29', [('src/vector.c', '  v.dx = (float) (coord1.x - coord2.x);\n  v.dy = (float) (coord1.y - coord2.y);\n  v.dz = 0.0;', '  v.dx = (float) ((short)coord1.x - (short)coord2.x);\n  v.dy = (float) ((short)coord1.y - (short)coord2.y);\n  v.dz = 0.0;')],
     'a shape that crosses column 32768', 'angles are measured wrongly there, so that corners appear or vanish',
     c='''int demo(void) {
  int k, r, c; unsigned n[2];
  for (k = 0; k < 2; k++) {
    at_bitmap *b = at_bitmap_new(32800, 24, 1); at_fitting_opts_type *o = at_fitting_opts_new(); at_splines_type *s; int at = k ? 32756 : 100;
    memset(b->bitmap, 255, 32800 * 24);
    for (r = 3; r < 21; r++) for (c = 3; c < 21; c++) if ((r - 12) * (r - 12) + (c - 12) * (c - 12) < 70) b->bitmap[r * 32800 + at + c] = 0;
    o->background_color = at_color_new(255, 255, 255);
    s = at_splines_new(b, o, msg, NULL); CHECK(s->length == 1); n[k] = s->data[0].length;
  }
  fprintf(stderr, "%u %u\\n", n[0], n[1]); CHECK(n[0] == n[1]);
  return 0;
}
''')

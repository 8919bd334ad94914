// Shared by the decoder explorers: compare what the reader returns with the reference image.
#pragma once
#include "at.hpp"
using namespace at;
using mc::Ctx;
using mc::Pick;
using mc::Space;

// one complete decode compared with the reference; cls names the kind of failure
inline bool expect_image(Ctx &c, const char *suffix, const Bytes &file, const Img &want, const std::string &cls, const std::string &desc, at_input_opts_type *opts = nullptr) {
  c.note("%s %s file=%s", cls.c_str(), desc.c_str(), hex(file, 120).c_str());
  long live = mc::heap_live();
  bool ok = true;
  {
    MemFile f(file);
    Msgs m;
    at_bitmap *b = read_raw(suffix, f.path, m, opts);
    c.step(2);
    c.trace();
    if (!b || m.fatal) {
      c.fail("rejected:" + cls, "%s: valid file was not decoded (%s); file=%s", desc.c_str(), m.last.c_str(), hex(file).c_str());
      ok = false;
    } else {
      Img got = from_bitmap(b);
      Img rgb = via_get_color(b);
      c.state(got.hash());
      if (got.w != want.w || got.h != want.h) {
        c.fail("size:" + cls, "%s: got %ux%u want %ux%u; file=%s", desc.c_str(), got.w, got.h, want.w, want.h, hex(file).c_str());
        ok = false;
      } else if (!(rgb == as_rgb(want))) {
        c.fail("pixels:" + cls, "%s: got %s want %s; file=%s", desc.c_str(), rgb.str().c_str(), as_rgb(want).str().c_str(), hex(file).c_str());
        ok = false;
      } else
        c.nontrivial(mc::hash_str(file));
    }
    if (b)
      at_bitmap_free(b);
  }
  if (ok && mc::heap_live() != live)
    c.counter("decodes_that_left_heap_blocks");
  c.sample(desc + " -> " + want.str());
  return ok;
}

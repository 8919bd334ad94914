// C21: formats are found by their names, by file endings, in any case, and by nothing else; added ones included.
// USES: cli
#include "cli.hpp"
#include <map>
#include <set>
#include <sstream>
extern "C" {
#include "input.h"
#include "output.h"
}
static const std::set<std::string> IN = {"png", "tga", "bmp", "pbm", "pnm", "pgm", "ppm", "gf"};
static const std::set<std::string> OUT = {"eps", "ai", "p2e", "sk", "svg", "ugs", "fig", "emf", "mif", "er", "dxf", "epd", "pdf", "cgm", "dr2d", "pov", "plt", "ild"};
static std::vector<std::string> NAMES;
static std::string lower(std::string s) {
  for (char &c : s)
    if (c >= 'A' && c <= 'Z')
      c += 32;
  return s;
}
static void look(Ctx &c, const char *key, const std::string &s) {
  std::string b = s, l = lower(s);
  c.step(2);
  at_bitmap_reader *r = at_input_get_handler_by_suffix(&b[0]), *r0 = nullptr;
  at_spline_writer *w = at_output_get_handler_by_suffix(&b[0]), *w0 = nullptr;
  if (IN.count(l))
    r0 = at_input_get_handler_by_suffix(&std::string(l)[0]);
  if (OUT.count(l))
    w0 = at_output_get_handler_by_suffix(&std::string(l)[0]);
  if (b != s)
    c.fail(fmt("%s:changed", key), "the name '%s' was changed", hex(s).c_str());
  if ((r != nullptr) != (IN.count(l) != 0) || r != r0)
    c.fail(fmt("%s:input", key), "input format '%s' (%s): %s", s.c_str(), hex(s).c_str(), r ? "found" : "not found");
  if ((w != nullptr) != (OUT.count(l) != 0) || w != w0)
    c.fail(fmt("%s:output", key), "output format '%s' (%s): %s", s.c_str(), hex(s).c_str(), w ? "found" : "not found");
  if (r || w)
    c.nontrivial(mc::hash_str(s));
}
static void file_name(Ctx &c, const char *key, const std::string &s) {
  std::string b = s, suffix;
  size_t d = s.rfind('.');
  if (d != std::string::npos)
    suffix = lower(s.substr(d + 1));
  c.step(2);
  at_bitmap_reader *r = at_input_get_handler(&b[0]);
  at_spline_writer *w = at_output_get_handler(&b[0]);
  at_bitmap_reader *r0 = at_input_get_handler_by_suffix(&std::string(suffix)[0]);
  at_spline_writer *w0 = at_output_get_handler_by_suffix(&std::string(suffix)[0]);
  if (b != s)
    c.fail(fmt("%s:changed", key), "the name '%s' was changed", hex(s).c_str());
  if (r != r0 || (r != nullptr) != (IN.count(suffix) != 0))
    c.fail(fmt("%s:input", key), "file name '%s': %s reader", s.c_str(), r ? "wrong" : "no");
  if (w != w0 || (w != nullptr) != (OUT.count(suffix) != 0))
    c.fail(fmt("%s:output", key), "file name '%s': %s writer", s.c_str(), w ? "wrong" : "no");
  if (r || w)
    c.nontrivial(mc::hash_str(s));
}
// readers and writers of our own
struct Call {
  int who = -1;
  std::string name;
  at_input_opts_type in{};
  at_output_opts_type out{};
  void *msg_data = nullptr;
  at_msg_func msg = nullptr;
  FILE *file = nullptr;
  int box[4] = {0, 0, 0, 0};
  unsigned shapes = 0;
};
static Call last;
template <int N> static at_bitmap rd(char *name, at_input_opts_type *o, at_msg_func m, void *md, void *) {
  last = Call();
  last.who = N;
  last.name = name;
  last.in = *o;
  last.msg = m;
  last.msg_data = md;
  return at_bitmap_init(nullptr, N + 1, 2, 1);
}
template <int N> static int wr(FILE *f, char *name, int a, int b, int d, int e, at_output_opts_type *o, at_splines_type s, at_msg_func m, void *md, void *) {
  last = Call();
  last.who = N;
  last.name = name;
  last.out = *o;
  last.msg = m;
  last.msg_data = md;
  last.file = f;
  last.box[0] = a, last.box[1] = b, last.box[2] = d, last.box[3] = e;
  last.shapes = s.length;
  return 0;
}
static at_input_func RD[] = {rd<0>, rd<1>, rd<2>, rd<3>};
static at_output_func WR[] = {wr<0>, wr<1>, wr<2>, wr<3>};

static mc::Check build(bool th) {
  mc::Check k;
  autotrace_init();
  k.property = "C21";
  for (auto &s : IN)
    NAMES.push_back(s);
  for (auto &s : OUT)
    NAMES.push_back(s);
  static const char AL[] = "abcdefghijklmnopqrstuvwxyz0123456789";
  k.bounds = fmt("every name of up to %d letters and digits; every case of every name; every name with one byte changed, added or removed; file names of 14 kinds; every sequence of up to %d registrations", th ? 5 : 4, th ? 5 : 4);
  k.spaces.push_back({"short", 36 * 36 * 36 + 36 * 36 + 36 + 1, [=](u64 i, Ctx &c) {
                        std::string s;
                        u64 n = 1, l = 0;
                        while (i >= n) {
                          i -= n;
                          n *= 36;
                          l++;
                        }
                        for (; l; l--, i /= 36)
                          s += AL[i % 36];
                        c.note("names starting with %s", s.c_str());
                        look(c, "short", s);
                        if (s.size() == 3)
                          for (int a = 0; a < 36; a++) {
                            look(c, "short", s + AL[a]);
                            for (int b = 0; b < 36 && th; b++)
                              look(c, "short", s + AL[a] + AL[b]);
                          }
                        c.state(mc::hash_str(s));
                        c.trace(1);
                      }});
  k.spaces.push_back({"case", NAMES.size(), [](u64 i, Ctx &c) {
                        std::string s = NAMES[i];
                        c.note("%s", s.c_str());
                        for (unsigned m = 0; m < 1u << s.size(); m++) {
                          std::string t = s;
                          for (unsigned b = 0; b < s.size(); b++)
                            if (m >> b & 1)
                              t[b] = toupper(t[b]);
                          look(c, "case", t);
                          for (const char *pre : {"x.", ".", "a/b.", "a.b.c.", "/", "", "..", "x.pbm.", "x.svg.", "x ", "x.pbm/", "x.svg/y", "\xff.", "x.y/z."})
                            for (const char *post : {"", ".", "x", " ", "/", ".bak"})
                              file_name(c, "name", pre + t + post);
                          c.state(mc::hash_str(t));
                          c.trace(1);
                        }
                      }});
  k.spaces.push_back({"bytes", NAMES.size() * 256, [](u64 i, Ctx &c) {
                        Pick p(i);
                        std::string s = NAMES[p(NAMES.size())];
                        char b = (char)p(256);
                        c.note("%s and byte %d", s.c_str(), b & 255);
                        for (unsigned q = 0; q <= s.size(); q++) {
                          std::string t = s;
                          if (b)
                            look(c, "bytes", t.insert(q, 1, b));
                          t = s;
                          if (q < s.size() && b) {
                            t[q] = b;
                            look(c, "bytes", t);
                          }
                          t = s;
                          if (q < s.size())
                            look(c, "bytes", t.erase(q, 1));
                        }
                        look(c, "bytes", s + s);
                        c.state(mc::mix(mc::hash_str(s), b));
                        c.trace(1);
                      }});
  // registrations: the first one of a name counts; handlers once given stay good
  static const unsigned NOPS = 13;
  unsigned depth = th ? 5 : 4;
  u64 seqs = 0, pw = 1;
  for (unsigned d = 0; d < depth; d++)
    seqs += (pw *= NOPS);
  k.spaces.push_back({"register", seqs, [](u64 i, Ctx &c) {
                        u64 id = i, n = NOPS;
                        unsigned len = 1;
                        while (i >= n) {
                          i -= n;
                          n *= NOPS;
                          len++;
                        }
                        // names of this case's own, so that no other case takes part
                        std::string base = fmt("q%llu", (unsigned long long)id), nm[3] = {base + "a", base + "AB", base + "-" + std::string(300, 'z')};
                        std::map<std::string, int> ri, ro;
                        std::map<std::string, void *> pi, po;
                        std::string h;
                        for (; len; len--, i /= NOPS) {
                          unsigned op = i % NOPS;
                          h += fmt("%u ", op);
                          c.step(1);
                          if (op == 12) { // everything once more
                            autotrace_init();
                            continue;
                          }
                          bool in = op % 2, up = op / 2 % 2;
                          std::string s = nm[op / 4];
                          int f = (op / 2 + ri.size() + ro.size()) % 4;
                          std::string l = lower(s);
                          std::string given = s;
                          if (up)
                            for (char &ch : given)
                              ch = toupper(ch);
                          if (in) {
                            at_input_add_handler(given.c_str(), "mine", RD[f]);
                            ri.insert({l, f});
                          } else {
                            at_output_add_handler(given.c_str(), "mine", WR[f]);
                            ro.insert({l, f});
                          }
                          std::fill(given.begin(), given.end(), '?'); // the caller's string is the caller's
                        }
                        c.note("%s", h.c_str());
                        c.state(mc::hash_str(h));
                        c.trace(1);
                        for (auto &n : nm)
                          for (int cs = 0; cs < 2; cs++) {
                            std::string s = n, l = lower(n);
                            for (char &ch : s)
                              ch = cs ? toupper(ch) : tolower(ch);
                            std::string fn = "some.dir/file." + s;
                            at_bitmap_reader *r = at_input_get_handler(&fn[0]);
                            at_spline_writer *w = at_output_get_handler(&fn[0]);
                            if (r != at_input_get_handler_by_suffix(&s[0]) || w != at_output_get_handler_by_suffix(&s[0]))
                              c.fail("register:two", "ops %s: two handlers for '%s'", h.c_str(), s.c_str());
                            if ((r != nullptr) != (ri.count(l) != 0))
                              c.fail("register:input", "ops %s: reader for '%s' %s", h.c_str(), s.c_str(), r ? "appears" : "missing");
                            if ((w != nullptr) != (ro.count(l) != 0))
                              c.fail("register:output", "ops %s: writer for '%s' %s", h.c_str(), s.c_str(), w ? "appears" : "missing");
                            if (r && ri.count(l))
                              for (int given = 0; given < 2; given++) {
                                int tag;
                                at_input_opts_type *o = given ? at_input_opts_new() : nullptr;
                                if (o) {
                                  o->charcode = 77;
                                  o->background_color = at_color_new(1, 2, 3);
                                }
                                last = Call();
                                at_bitmap *b = at_bitmap_read(r, &fn[0], o, Msgs::cb, &tag);
                                if (last.who != ri[l] || !b || at_bitmap_get_width(b) != ri[l] + 1 || at_bitmap_get_height(b) != 2)
                                  c.fail("register:read", "ops %s: reader %d called for '%s' instead of %d", h.c_str(), last.who, s.c_str(), ri[l]);
                                else if (last.name != fn || last.msg != Msgs::cb || last.msg_data != &tag || (given ? last.in.charcode != 77 || last.in.background_color != o->background_color : last.in.charcode != 0 || last.in.background_color))
                                  c.fail("register:readargs", "ops %s: reader called with other arguments", h.c_str());
                                else
                                  c.nontrivial(mc::hash_str(h));
                                at_bitmap_free(b);
                                if (o)
                                  at_input_opts_free(o);
                              }
                            if (w && ro.count(l))
                              for (int given = 0; given < 2; given++) {
                                int tag;
                                at_splines_type sp;
                                memset(&sp, 0, sizeof sp);
                                sp.width = 7;
                                sp.height = 5;
                                sp.length = 3;
                                at_output_opts_type *o = given ? at_output_opts_new() : nullptr;
                                if (o)
                                  o->dpi = 301;
                                last = Call();
                                at_splines_write(w, stderr, given ? &fn[0] : nullptr, o, &sp, Msgs::cb, &tag);
                                if (last.who != ro[l])
                                  c.fail("register:write", "ops %s: writer %d called for '%s' instead of %d", h.c_str(), last.who, s.c_str(), ro[l]);
                                else if (last.name != (given ? fn : "") || last.msg != Msgs::cb || last.msg_data != &tag || last.file != stderr || last.box[0] || last.box[1] || last.box[2] != 7 || last.box[3] != 5 || last.shapes != 3 || last.out.dpi != (given ? 301 : 72))
                                  c.fail("register:writeargs", "ops %s: writer called with other arguments", h.c_str());
                                if (o)
                                  at_output_opts_free(o);
                              }
                          }
                        // the formats that were there before
                        for (auto &n : NAMES)
                          look(c, "register", n);
                      }});
  // the lists that are printed
  k.spaces.push_back({"list", 2, [](u64 i, Ctx &c) {
                        Ran r = run_cli({i ? "-list-output-formats" : "-list-input-formats"});
                        std::map<std::string, int> n;
                        std::istringstream is(r.out + r.err);
                        std::string l;
                        c.trace(1);
                        c.step(1);
                        c.state(mc::hash_str(r.out + r.err));
                        bool first = true;
                        while (std::getline(is, l)) {
                          std::istringstream ls(l);
                          std::string nm, rest;
                          ls >> nm;
                          std::getline(ls, rest);
                          if (first && nm == "Supported") {
                            first = false;
                            continue;
                          }
                          n[nm]++;
                          if (rest.find_first_not_of(' ') == std::string::npos)
                            c.fail("list:text", "no description for '%s'", nm.c_str());
                        }
                        if (r.exit != 0 || r.signal || r.asan)
                          c.fail("list:status", "%s", r.how().c_str());
                        for (auto &s : i ? OUT : IN)
                          if (n[s] != 1)
                            c.fail("list:missing", "format '%s' is listed %d times", s.c_str(), n[s]);
                        for (auto &s : n)
                          if (!(i ? OUT : IN).count(s.first))
                            c.fail("list:extra", "'%s' is listed but no format", s.first.c_str());
                        c.nontrivial(i + 1);
                      }});
  return k;
}
int main(int argc, char **argv) { return with_scratch(argc, argv, build); }

// C19 IOConverter, C29 command line converters.
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "io_converter.h"
#include "vector_utils.h"
#include "formats.h"
extern char **environ;

static const char *kExt[] = {"iges", "itd", "xml", "vtk"};
static const int kMax[] = {2, 3, 4, 3};
static Format Fmt(int f) { return f == 0 ? IGES() : f == 1 ? IRIT() : XML(); }

// Splines of all kinds a format can hold; every one is different, and all numbers have few decimals so that every format
// holds them exactly.
static List Alphabet(int fmt_in) {
  List r;
  for (int d = 1; d <= kMax[fmt_in]; ++d)
    for (int rat = 0; rat < 2; ++rat) {
      std::vector<int> deg;
      for (int i = 0; i < d; ++i) deg.push_back(1 + (i + d + rat) % 2);
      ref::Spline s = fmt::One(deg, 0, 3, rat, 0);
      for (size_t i = 0; i < s.cp.size(); ++i) {
        for (int c = 0; c < 3; ++c) s.cp[i][c] = d * 16 + rat * 8 + ((i * 3 + c * 5) % 7) * 0.5;
        if (rat) s.w[i] = i % 2 ? 0.5 : 2;
      }
      r.push_back(s);
    }
  return r;
}
static std::string CheckOutput(int fo, const std::string &file, const List &want) {
  Format F = Fmt(fo);
  List got;
  std::string e = F.parse(file, &got);
  if (!e.empty()) return "output is not a valid file: " + e;
  // numbers of the alphabet are exact in every format, but leave room for the rounding of homogeneous coordinates
  return Compare(got, want, 1.1e-6L, 1e-12L, F.hom, F.pad);
}
static std::vector<std::vector<int>> Scat(const List &l) {
  std::vector<std::vector<int>> r;
  for (size_t i = 0; i < l.size(); ++i) { std::vector<int> s; for (int d = 0; d < l[i].Dim(); ++d) s.push_back(1 + (i + 2 * d) % 4); r.push_back(s); }
  return r;
}
static std::string VtkText(const List &l, const std::vector<std::vector<int>> &sc, const std::string &file) {
  io::VTKWriter w;
  w.WriteFile(fmt::ToAny(l), file, sc);
  std::string t = fmt::Slurp(file);
  remove(file.c_str());
  return t;
}
// What a conversion with these positions has to write; empty = all.
static std::vector<int> Selected(const List &l, const std::vector<int> &pos, bool all, int fo) {
  std::vector<int> r;
  auto ok = [&](int i) { return i >= 0 && i < (int) l.size() && l[i].Dim() <= kMax[fo]; };
  if (all) { for (int i = 0; i < (int) l.size(); ++i) if (ok(i)) r.push_back(i); }
  else for (int p : pos) if (ok(p)) r.push_back(p);
  return r;
}
struct Want { std::vector<int> sel; List splines; std::vector<std::vector<int>> given, used; };
static Want Expect(const List &l, const std::vector<int> &pos, bool all, int fo) {
  Want w;
  w.sel = Selected(l, pos, all, fo);
  for (int i : w.sel) w.splines.push_back(l[i]);
  if (fo != 3) return w;
  // scattering: one entry per spline of the file if all are written, otherwise one per requested position
  auto sc = Scat(l);
  if (all) { w.given = sc; for (int i : w.sel) w.used.push_back(sc[i]); return w; }
  for (size_t k = 0; k < pos.size(); ++k) {
    int p = pos[k];
    std::vector<int> s;
    int dim = p >= 0 && p < (int) l.size() ? l[p].Dim() : 2;
    for (int d = 0; d < dim; ++d) s.push_back(1 + (k + 3 * d) % 4);
    w.given.push_back(s);
    for (int i : {p}) if (i >= 0 && i < (int) l.size() && l[i].Dim() <= kMax[3]) w.used.push_back(s);
  }
  return w;
}
// A repeated position gets, with the library's bookkeeping, one entry per request as well: nothing special to model.

static void Lists(int fi, int maxlen, const std::function<void(const List &, const std::string &)> &f) {
  List a = Alphabet(fi);
  int n = a.size();
  for (int len = 0; len <= maxlen; ++len) {
    std::vector<int> i(len, 0);
    while (true) {
      List l;
      for (int k : i) l.push_back(a[k]);
      // make equal kinds distinguishable by position
      for (size_t k = 0; k < l.size(); ++k) for (auto &cp : l[k].cp) cp[0] += 0.25 * k;
      f(l, S("%s%s", kExt[fi], Seq(i).c_str()));
      int d = len - 1;
      while (d >= 0 && ++i[d] == n) i[d--] = 0;
      if (d < 0) break;
    }
  }
}
static void Positions(int lo, int hi, int maxlen, const std::function<void(const std::vector<int> &)> &f) {
  for (int len = 1; len <= maxlen; ++len) {
    std::vector<int> i(len, lo);
    while (true) {
      f(i);
      int d = len - 1;
      while (d >= 0 && ++i[d] > hi) i[d--] = lo;
      if (d < 0) break;
    }
  }
}
static void OneConversion(io::IOConverter *c, const List &l, const std::vector<int> &pos, int fo, const std::string &out) {
  Want w = Expect(l, pos, pos.empty(), fo);
  G().transitions++;
  std::vector<int> got;
  try { got = c->ConvertFile(pos, w.given); } catch (const std::exception &e) { Fail("positions %s: %s", Seq(pos).c_str(), e.what()); return; }
  if (got != w.sel) { Fail("positions %s: reports %s as written, want %s", Seq(pos).c_str(), Seq(got).c_str(), Seq(w.sel).c_str()); return; }
  if (fo == 3) {
    if (fmt::Slurp(out) != VtkText(w.splines, w.used, G().scratch + "/direct.vtk")) Fail("positions %s: the VTK file is not that of the selected splines", Seq(pos).c_str());
  } else {
    std::string e = CheckOutput(fo, out, w.splines);
    if (!e.empty()) Fail("positions %s: %s", Seq(pos).c_str(), e.c_str());
  }
}
static void C19() {
  bool T = Thorough();
  for (int fi = 0; fi < 3; ++fi)
    for (int fo = 0; fo < 4; ++fo)
      Lists(fi, T ? 3 : (fi == 2 ? 2 : 3), [&](const List &l, const std::string &name) {
        if (!Begin(S("convert %s to %s", name.c_str(), kExt[fo]))) return;
        std::string in = G().scratch + "/in." + kExt[fi], out = G().scratch + "/out." + kExt[fo];
        fmt::Spit(in, Fmt(fi).emit(l, 0));
        G().states++;
        { io::IOConverter c(in.c_str(), out.c_str()); OneConversion(&c, l, {}, fo, out); }
        // repeated use of one converter: every history of two calls (and all, list, all)
        std::vector<std::vector<int>> ps{{}};
        int n = l.size();
        Positions(-1, n, T ? 3 : (n > 2 ? 1 : 2), [&](const std::vector<int> &p) { ps.push_back(p); });
        if (n == 3) { ps.push_back({2, 0}); ps.push_back({1, 1}); ps.push_back({2, 1, 0}); ps.push_back({0, 3, 2}); }
        for (auto &p : ps) { remove(out.c_str()); io::IOConverter c(in.c_str(), out.c_str()); OneConversion(&c, l, p, fo, out); }
        for (size_t a = 0; a < ps.size(); a += T ? 1 : 3) {
          io::IOConverter c(in.c_str(), out.c_str());
          OneConversion(&c, l, ps[a], fo, out);
          OneConversion(&c, l, ps[(a * 5 + 3) % ps.size()], fo, out);
          OneConversion(&c, l, {}, fo, out);
          OneConversion(&c, l, ps[a], fo, out);
        }
        G().traces++;
      });
  // in the file name only the ending decides
  static const char *good[] = {"a.%s", ".%s", "a.b.%s", "a.txt.%s", "%s.%s", "a.vtk.%s", "a.xml.%s", "a.iges.%s", "a.itd.%s", "a b.%s"};
  static const char *bad[] = {"a%s", "a.%s.bak", "a.%sx", "%s", "a.%s.", "a.%s ", "a.%s.txt", "a.%s~"};
  List l = Alphabet(0);
  for (int f = 0; f < 4; ++f) for (int inp = 0; inp < 2; ++inp) for (int g = 0; g < 2; ++g)
    for (int k = 0; k < (g ? 10 : 8); ++k) {
      char name[128];
      snprintf(name, sizeof name, g ? good[k] : bad[k], kExt[f], kExt[f]);
      if (!Begin(S("file name '%s' as %s", name, inp ? "input" : "output"))) continue;
      G().states++; G().transitions++;
      std::string in = G().scratch + "/" + (inp ? name : "in.xml"), out = G().scratch + "/" + (inp ? "out.xml" : name);
      if (inp) { if (f < 3) fmt::Spit(in, Fmt(f).emit(l, 0)); else fmt::Spit(in, "# vtk DataFile Version 3.0\n"); }
      else fmt::Spit(in, fmt::Xml(l, 0));
      bool want = g && !(inp && f == 3), thrown = false;
      std::string e;
      try {
        io::IOConverter c(in.c_str(), out.c_str());
        auto w = c.ConvertFile({}, Scat(l));
        if (w.size() != l.size()) e = "not all written";
        else if (inp || f < 3) e = CheckOutput(inp ? 2 : f, out, l);
      } catch (const std::runtime_error &x) { thrown = true; e = x.what(); }
      if (want && !e.empty()) Fail("%s", e.c_str());
      if (!want && !thrown) Fail("accepted");
      G().traces++;
      remove(in.c_str()); remove(out.c_str());
    }
  // too little scattering is refused
  for (int fi = 0; fi < 3; ++fi) for (int k = 0; k < 3; ++k) for (int all = 0; all < 2; ++all) {
    if (!Begin(S("%s to vtk with %d scattering entries, all %d", kExt[fi], k, all))) continue;
    G().states++; G().transitions++;
    List a = Alphabet(fi);
    List b{a[0], a[1], a[2]};
    std::string in = G().scratch + "/in." + kExt[fi];
    fmt::Spit(in, Fmt(fi).emit(b, 0));
    auto sc = Scat(b);
    sc.resize(k);
    bool thrown = false;
    try { io::IOConverter c(in.c_str(), (G().scratch + "/o.vtk").c_str()); c.ConvertFile(all ? std::vector<int>{} : std::vector<int>{0, 1, 2}, sc); } catch (const std::runtime_error &) { thrown = true; }
    if (!thrown) Fail("accepted");
    G().traces++;
  }
  for (int f = 0; f < 4; ++f) {
    if (!Begin(S("missing input %s", kExt[f]))) continue;
    G().states++; G().transitions++;
    std::string in = G().scratch + "/absent." + kExt[f], out = G().scratch + "/o.xml";
    remove(out.c_str());
    bool thrown = false;
    try { io::IOConverter c(in.c_str(), out.c_str()); c.ConvertFile(); } catch (const std::runtime_error &) { thrown = true; }
    if (!thrown) Fail("accepted");
    if (!access(out.c_str(), F_OK)) Fail("an output file was written");
    G().traces++;
  }
  // the selection by dimension and the casts of lists of splines
  List a = Alphabet(2);
  for (int len = 0; len <= 4; ++len) {
    std::vector<int> i(len, 0);
    while (true) {
      if (Begin(S("selection %s", Seq(i).c_str()))) {
        G().states++;
        List b;
        for (int k : i) b.push_back(a[k]);
        auto v = fmt::ToAny(b);
        for (int m = 0; m <= 5; ++m) {
          std::vector<int> want;
          for (int k = 0; k < len; ++k) if (b[k].Dim() <= m) want.push_back(k);
          G().transitions++;
          if (io::IOConverter::GetSplinePositionsOfCorrectDimension(v, m) != want) Fail("dimension up to %d", m);
        }
        G().traces++;
      }
      int d = len - 1;
      while (d >= 0 && ++i[d] == (int) a.size()) i[d--] = 0;
      if (d < 0) break;
    }
  }
  for (size_t k = 0; k < a.size() + 2; ++k) {
    if (!Begin(S("cast %d", (int) k))) continue;
    G().states++; G().transitions += 9;
    std::any v = k < a.size() ? fmt::ToAny(a[k]) : k == a.size() ? std::any() : std::any(std::string("x"));
    int dim = k < a.size() ? a[k].Dim() : 0, rat = k < a.size() && a[k].rational;
    auto tr = [&](const std::function<int()> &f) { try { return f(); } catch (const std::runtime_error &) { return -1; } };
    if (tr([&] { return util::AnyCasts::GetSplineDimension(v); }) != (dim ? dim : -1)) Fail("dimension");
    for (int d = 1; d <= 4; ++d) {
      int g = tr([&] { if (d == 1) return util::AnyCasts::GetSpline<1>(v)->GetNumberOfControlPoints(); if (d == 2) return util::AnyCasts::GetSpline<2>(v)->GetNumberOfControlPoints();
                       if (d == 3) return util::AnyCasts::GetSpline<3>(v)->GetNumberOfControlPoints(); return util::AnyCasts::GetSpline<4>(v)->GetNumberOfControlPoints(); });
      int r = tr([&] { return int(d == 1 ? util::AnyCasts::IsRational<1>(v) : d == 2 ? util::AnyCasts::IsRational<2>(v) : d == 3 ? util::AnyCasts::IsRational<3>(v) : util::AnyCasts::IsRational<4>(v)); });
      if (g != (d == dim ? (int) a[k].cp.size() : -1)) Fail("as %d-dimensional spline", d);
      if (r != (d == dim ? rat : -1)) Fail("rational as %d-dimensional", d);
    }
    G().traces++;
  }
}

// ---------------------------------------------------------------- C29
static const char *kTool[3][4] = {{nullptr, "iges_to_irit", "iges_to_xml", "iges_to_vtk"}, {"irit_to_iges", nullptr, "irit_to_xml", "irit_to_vtk"}, {"xml_to_iges", "xml_to_irit", nullptr, "xml_to_vtk"}};
static int Run(const char *tool, const std::vector<std::string> &args, std::string *out) {
  std::string exe = std::string(getenv("VERIF_TOOLS")) + "/" + tool, o = G().scratch + "/stdout", e = G().scratch + "/stderr";
  std::vector<char *> av{const_cast<char *>(tool)};
  for (auto &a : args) av.push_back(const_cast<char *>(a.c_str()));
  av.push_back(nullptr);
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  pid_t pid;
  int rc = posix_spawn(&pid, exe.c_str(), &fa, nullptr, av.data(), environ), st = 0;
  posix_spawn_file_actions_destroy(&fa);
  if (rc) { fprintf(stderr, "cannot start %s\n", exe.c_str()); exit(3); }
  waitpid(pid, &st, 0);
  if (out) *out = fmt::Slurp(o);
  std::string err = fmt::Slurp(e);
  if (err.find("Sanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos) Fail("%s: %s", tool, err.substr(0, 600).c_str());
  return st;
}
struct Log { std::string in, out; std::vector<int> pos; bool all; std::vector<std::vector<int>> sc; };
static std::string LogText(const Log &g, bool vtk, const std::vector<int> &order, int style) {
  std::string sec[4];
  sec[0] = "input:\n" + g.in;
  sec[1] = "output:\n" + g.out;
  sec[2] = "options:";
  if (g.all) sec[2] += "\nall";
  else for (int p : g.pos) sec[2] += S("\n%d", p);
  sec[3] = "scattering:";
  for (auto &s : g.sc) { sec[3] += "\n"; for (size_t i = 0; i < s.size(); ++i) sec[3] += S(i ? " %d" : "%d", s[i]); }
  std::string r = style == 2 ? "\n" : "";
  bool first = true;
  for (int o : order) {
    if (o == 3 && !vtk) continue;
    if (!first) r += style == 1 ? "\n\n\n" : style == 3 ? "\n" : "\n\n";
    r += sec[o];
    first = false;
  }
  return r + (style == 0 ? "" : "\n");
}
static void OneTool(int fi, int fo, const List &l, const std::vector<int> &pos, bool all, const std::vector<int> &order, int style) {
  Log g;
  g.in = G().scratch + "/in." + kExt[fi];
  g.out = G().scratch + "/out." + kExt[fo];
  g.pos = pos; g.all = all;
  Want w = Expect(l, pos, all, fo);
  g.sc = w.given;
  std::string log = G().scratch + "/log.txt", text = LogText(g, fo == 3, order, style);
  fmt::Spit(log, text);
  std::string expect_vtk = fo == 3 ? VtkText(w.splines, w.used, G().scratch + "/direct.vtk") : "";
  for (int again = 0; again < 2; ++again) {  // a second run with the log the first one extended does the same again
    remove(g.out.c_str());
    G().transitions++;
    int st = Run(kTool[fi][fo], {log}, nullptr);
    std::string what = S("positions %s%s order %s style %d run %d", Seq(pos).c_str(), all ? " all" : "", Seq(order).c_str(), style, again);
    if (st) { Fail("%s: exit status %d: %s", what.c_str(), st, fmt::Slurp(G().scratch + "/stderr").substr(0, 300).c_str()); return; }
    std::string e = fo == 3 ? (fmt::Slurp(g.out) == expect_vtk ? "" : "the VTK file is not that of the selected splines") : CheckOutput(fo, g.out, w.splines);
    if (!e.empty()) { Fail("%s: %s", what.c_str(), e.c_str()); return; }
    std::string now = fmt::Slurp(log);
    if (now.compare(0, text.size(), text)) { Fail("%s: the log file was changed", what.c_str()); return; }
    std::string add = now.substr(text.size()), list;
    for (size_t i = 0; i < w.sel.size(); ++i) list += S(i ? ", %d" : "%d", w.sel[i]);
    if (add.find("log:") == std::string::npos) { Fail("%s: no log entry", what.c_str()); return; }
    size_t at = add.find(" in file " + g.in);
    if (at == std::string::npos || add.find("written to " + g.out) == std::string::npos) { Fail("%s: log entry without files: %s", what.c_str(), add.c_str()); return; }
    std::string before = add.substr(0, at), tail = w.sel.empty() ? "No splines" : w.sel.size() == 1 ? " position " + list : " positions " + list;
    if (before.size() < tail.size() || before.substr(before.size() - tail.size()) != tail) { Fail("%s: log entry '%s' does not end with '%s'", what.c_str(), before.c_str(), tail.c_str()); return; }
    text = now;
  }
}
static void C29() {
  bool T = Thorough();
  for (int fi = 0; fi < 3; ++fi) for (int fo = 0; fo < 4; ++fo) {
    if (!kTool[fi][fo]) continue;
    int no = 0;
    Lists(fi, T ? 3 : 2, [&](const List &l, const std::string &name) {
      int n = l.size();
      ++no;
      std::vector<std::vector<int>> ps{{}};
      Positions(0, n, T && n < 3 ? 3 : 2, [&](const std::vector<int> &p) { ps.push_back(p); });
      int k = 0;
      for (auto &p : ps) {
        ++k;
        if (!T && fi == 2 && n == 2 && (k + no) % 4) continue;
        if (!T && fi == 1 && n == 2 && (k + no) % 2) continue;
        if (!Begin(S("%s %s positions %s", kTool[fi][fo], name.c_str(), Seq(p).c_str()))) continue;
        G().states++;
        fmt::Spit(G().scratch + "/in." + kExt[fi], Fmt(fi).emit(l, 0));
        OneTool(fi, fo, l, p, p.empty(), {0, 1, 2, 3}, 0);
        G().traces++;
      }
    });
    // every order of the sections, every layout
    List a = Alphabet(fi);
    List l{a[0], a[2], a[1], a.back()};
    std::vector<int> order{0, 1, 2, 3};
    int on = 0;
    do {
      if (fo != 3 && order[3] != 3) continue;
      ++on;
      for (int style = 0; style < 4; ++style)
        for (int v = 0; v < 5; ++v) {
          if (!T && fo == 3 && (on + style + v) % 3) continue;
          if (!Begin(S("%s sections %s layout %d selection %d", kTool[fi][fo], Seq(order).c_str(), style, v))) continue;
          G().states++;
          fmt::Spit(G().scratch + "/in." + kExt[fi], Fmt(fi).emit(l, 0));
          std::vector<int> p;
          if (v == 1) p = {2};
          if (v == 2) p = {3, 1, 0};
          if (v == 3) p = {7, 0, 3, 10};
          if (v == 4) p = {-1, 1};
          OneTool(fi, fo, l, p, v == 0, order, style);
          G().traces++;
        }
    } while (std::next_permutation(order.begin(), order.end()));
    // what cannot be done fails and leaves the log alone
    for (int v = 0; v < 6; ++v) {
      if (!Begin(S("%s refuses %d", kTool[fi][fo], v))) continue;
      G().states++; G().transitions++;
      std::string in = G().scratch + "/in." + kExt[fi], log = G().scratch + "/log.txt";
      fmt::Spit(in, Fmt(fi).emit(l, 0));
      Log g{in, G().scratch + "/out." + kExt[fo], {}, true, fo == 3 ? Scat(l) : std::vector<std::vector<int>>{}};
      if (v == 0) g.in = G().scratch + "/absent";
      if (v == 1) g.out = G().scratch + "/no/such/directory/out";
      if (v == 2) { fmt::Spit(in, Fmt(fi).emit(l, 0).substr(0, Fmt(fi).emit(l, 0).size() / 2)); }
      std::string text = LogText(g, fo == 3, {0, 1, 2, 3}, 0);
      if (v < 3) fmt::Spit(log, text);
      std::vector<std::string> args{log};
      if (v == 3) args = {};
      if (v == 4) { fmt::Spit(log, text); args = {log, log}; }
      if (v == 5) args = {G().scratch + "/absent.txt"};
      int st = Run(kTool[fi][fo], args, nullptr);
      if (v == 2 && fi == 1) { G().traces++; continue; }  // half an IRIT file is a shorter valid one (C27)
      if (!st) Fail("exit status 0");
      if (v < 5 && v != 3 && fmt::Slurp(log) != text) Fail("a failed conversion was logged");
      G().traces++;
    }
    if (fo == 3) for (int v = 0; v < 2; ++v) {
      if (!Begin(S("%s wrong scattering %d", kTool[fi][fo], v))) continue;
      G().states++; G().transitions++;
      std::string in = G().scratch + "/in." + kExt[fi], log = G().scratch + "/log.txt";
      fmt::Spit(in, Fmt(fi).emit(l, 0));
      Log g{in, G().scratch + "/out.vtk", {}, true, Scat(l)};
      if (v) g.sc[1].push_back(2); else g.sc.resize(1);
      std::string text = LogText(g, true, {0, 1, 2, 3}, 0);
      fmt::Spit(log, text);
      if (!Run(kTool[fi][fo], {log}, nullptr)) Fail("exit status 0");
      if (fmt::Slurp(log) != text) Fail("a failed conversion was logged");
      G().traces++;
    }
    for (const char *h : {"-h", "--help"}) {
      if (!Begin(S("%s %s", kTool[fi][fo], h))) continue;
      G().states++; G().transitions++;
      std::string out;
      if (Run(kTool[fi][fo], {h}, &out)) Fail("exit status");
      for (const char *s : {"input:", "output:", "options:", "scattering:", "log:"}) if (out.find(s) == std::string::npos) Fail("help does not mention %s", s);
      G().traces++;
    }
    // a log file without options reads nothing out of bounds
    if (Begin(S("%s no options", kTool[fi][fo]))) {
      G().states++; G().transitions++;
      std::string in = G().scratch + "/in." + kExt[fi], log = G().scratch + "/log.txt";
      fmt::Spit(in, Fmt(fi).emit(l, 0));
      fmt::Spit(log, "input:\n" + in + "\n\noutput:\n" + G().scratch + "/out." + kExt[fo] + "\n\noptions:\n");
      Run(kTool[fi][fo], {log}, nullptr);
      G().traces++;
    }
  }
}
int main(int argc, char **argv) {
  Init(argc, argv);
  if (Prop("C19")) C19();
  else if (Prop("C29")) C29();
  else return 3;
  return Finish();
}

// C15 XML, C16 IRIT, C17 IGES, C18 VTK, C20 number parsing, C21 string helpers, C27 damaged files, C28 failing writes.
#include <sys/resource.h>
#include <sys/stat.h>
#include "string_operations.h"
#include "formats.h"

static void RoundTrip(const Format &F, const List &l, const std::string &name) {
  if (!Begin(S("%s %s ", F.ext, name.c_str()) + fmt::Str(l))) return;
  std::string file = G().scratch + "/f." + F.ext;
  G().states++;
  // files by others are read as what they say
  for (int st = 0; st < F.styles; ++st) {
    fmt::Spit(file, F.emit(l, st));
    G().transitions++;
    std::string e;
    try { e = Compare(F.read(file.c_str()), l, 0, 1e-13L, F.hom, F.pad); } catch (const std::exception &x) { e = x.what(); }
    if (!e.empty()) Fail("reading a file of layout %d: %s", st, e.c_str());
  }
  // the writer's file says what the splines are, and is read back
  auto v = fmt::ToAny(l);
  std::string e;
  try { F.write(v, file.c_str()); } catch (const std::exception &x) { e = x.what(); }
  G().transitions += 2;
  if (!e.empty()) { Fail("writing: %s", e.c_str()); return; }
  List p;
  e = F.parse(file, &p);
  if (e.empty()) e = Compare(p, l, F.abs, F.rel, F.hom, F.pad);
  if (!e.empty()) Fail("file written: %s", e.c_str());
  std::vector<std::any> back;
  e.clear();
  try { back = F.read(file.c_str()); e = Compare(back, l, F.abs, F.rel, F.hom, F.pad); } catch (const std::exception &x) { e = x.what(); }
  if (!e.empty()) { Fail("reading back: %s", e.c_str()); return; }
  // writing again what was read changes nothing
  std::string first = fmt::Slurp(file);
  try {
    F.write(back, file.c_str());
    e = Compare(F.read(file.c_str()), l, 2 * F.abs, 2 * F.rel, F.hom, F.pad);
  } catch (const std::exception &x) { e = x.what(); }
  if (!e.empty()) Fail("second round trip: %s", e.c_str());
  // the splines written are untouched
  e = Compare(v, l, 0, 0, false, 0);
  if (!e.empty()) Fail("writing changed its input: %s", e.c_str());
  G().traces++;
}
static List Kinds(const Format &F) {
  List r;
  for (int d = 1; d <= F.maxdim; ++d)
    for (int rat = 0; rat < 2; ++rat) {
      std::vector<int> deg;
      for (int i = 0; i < d; ++i) deg.push_back(1 + (i + d + rat) % 2);
      r.push_back(fmt::One(deg, d + 2 * rat, 1 + (d + rat + 1) % F.maxpdim, rat, (d + rat) % 3));
    }
  return r;
}
// Splines whose data look like a simpler case: unit or constant weights, one weight or coordinate that differs,
// repeated interior knots, equal coordinates, zeros of both signs, very small and very large numbers, degree 0.
static List Special(const Format &F) {
  List r;
  for (int dim = 1; dim <= F.maxdim; ++dim) {
    std::vector<int> deg;
    for (int i = 0; i < dim; ++i) deg.push_back(1 + (i + dim) % 2);
    for (int pd = 1; pd <= F.maxpdim; ++pd) {
      ref::Spline b = fmt::One(deg, dim + pd, pd, true, 0), c;
      int n = b.cp.size();
      for (double w : {1.0, 2.0, 0.5}) { c = b; for (auto &x : c.w) x = w; r.push_back(c); }
      for (int i : {0, n / 2, n - 1}) { c = b; for (auto &x : c.w) x = 1; c.w[i] = 1.5; r.push_back(c); }
      c = b; for (auto &x : c.w) x = 1; c.w[n - 1] = 1.0625; r.push_back(c);
      for (int rat = 0; rat < 2; ++rat) {
        ref::Spline d = fmt::One(deg, dim + pd, pd, rat, 0);
        c = d; for (auto &p : c.cp) for (auto &x : p) x = 0; r.push_back(c);
        c = d; for (auto &p : c.cp) for (auto &x : p) x = -0.0; r.push_back(c);
        c = d; for (auto &p : c.cp) p.back() = 0; r.push_back(c);   // planar
        c = d; for (auto &p : c.cp) p.front() = 0; r.push_back(c);
        c = d; for (auto &p : c.cp) for (auto &x : p) x = 3; r.push_back(c);
        c = d; c.cp[n - 1] = c.cp[0]; r.push_back(c);   // closed
        c = d; for (auto &p : c.cp) for (auto &x : p) x = (double) (x * 1e-9L); r.push_back(c);
        c = d; for (auto &p : c.cp) for (auto &x : p) x = (double) (x * 1e11L); r.push_back(c);
        c = d; for (auto &p : c.cp) for (auto &x : p) x = (double) (x / 7 + 1e5L / 3); r.push_back(c);
        if (rat) { c = d; for (auto &x : c.w) x = (double) (x * 12345.678L); r.push_back(c); }
        for (double f : {1e-3, 1e4}) { c = d; for (auto &U : c.U) for (auto &x : U) x *= f; r.push_back(c); }
      }
    }
  }
  for (int p = 2; p <= 6; ++p) for (int m = 2; m <= p; ++m) for (int rat = 0; rat < 2; ++rat) {
    ref::Knots U(p + 1, 0.0);
    U.insert(U.end(), m, 0.5);
    if (m % 2) U.push_back(0.75);
    U.insert(U.end(), p + 1, 1.0);
    r.push_back(sl::Build({p}, {U}, 1 + m % std::min(3, F.maxpdim), rat, m));
    if (F.maxdim > 1 && p < 4) r.push_back(sl::Build({1, p}, {sl::Clamped(1, {0.25}, 2).back(), U}, 3, rat, m));
  }
  for (int rat = 0; rat < 2; ++rat) {
    r.push_back(sl::Build({0}, {{0, 0.25, 1}}, 2, rat, 1));
    // more than nine and more than ninety-nine points in a direction of a surface
    if (F.maxdim > 1) {
      ref::Knots A(2, 0.0), B(3, 0.0);
      for (int i = 1; i < 11; ++i) A.push_back(i / 16.0);
      for (int i = 1; i < 100; ++i) B.push_back(i / 128.0);
      A.insert(A.end(), 2, 1); B.insert(B.end(), 3, 1);
      r.push_back(sl::Build({1, 1}, {A, A}, 3, rat, 1));
      r.push_back(sl::Build({1, 2}, {{0, 0, 1, 1}, B}, 2, rat, 2));
      r.push_back(sl::Build({2, 1}, {B, {0, 0, 1, 1}}, 1, rat, 3));
    }
  }
  return r;
}
// One reader and one writer object for several files in succession; files that exist already are replaced.
static void Reuse(const Format &F, const std::vector<List> &seq, const std::string &name) {
  if (!Begin(S("%s one object for several files %s", F.ext, name.c_str()))) return;
  std::string dir = G().scratch;
  auto rd = F.reader();
  auto wr = F.writer();
  G().states++;
  std::string same = dir + "/same." + F.ext, e;
  for (size_t i = 0; i < seq.size(); ++i) {
    std::string own = dir + S("/own%d.", (int) i) + F.ext, ext = dir + S("/ext%d.", (int) i) + F.ext;
    fmt::Spit(ext, F.emit(seq[i], static_cast<int>(i) % F.styles));
    G().transitions += 5;
    try {
      e = Compare(rd(ext.c_str()), seq[i], 0, 1e-13L, F.hom, F.pad);
      if (!e.empty()) { Fail("file %d: %s", (int) i, e.c_str()); return; }
      wr(fmt::ToAny(seq[i]), own.c_str());
      wr(fmt::ToAny(seq[i]), same.c_str());
      for (auto &f : {own, same}) {
        e = Compare(rd(f.c_str()), seq[i], F.abs, F.rel, F.hom, F.pad);
        List p;
        if (e.empty()) e = F.parse(f, &p);
        if (e.empty()) e = Compare(p, seq[i], F.abs, F.rel, F.hom, F.pad);
        if (!e.empty()) { Fail("written file %d: %s", (int) i, e.c_str()); return; }
      }
    } catch (const std::exception &x) { Fail("file %d: %s", (int) i, x.what()); return; }
  }
  // the first files are still what they were
  for (size_t i = 0; i < seq.size(); ++i)
    try {
      e = Compare(rd((dir + S("/own%d.", (int) i) + F.ext).c_str()), seq[i], F.abs, F.rel, F.hom, F.pad);
      if (!e.empty()) Fail("file %d at the end: %s", (int) i, e.c_str());
    } catch (const std::exception &x) { Fail("file %d at the end: %s", (int) i, x.what()); }
  G().traces++;
}
static void Formats(const Format &F) {
  int no = 0;
  for (auto &s : Special(F)) RoundTrip(F, {s}, S("special #%d", no++));
  no = 0;
  for (auto &s : fmt::Pool(F.maxdim, F.maxpdim, Thorough())) RoundTrip(F, {s}, S("#%d", no++));
  RoundTrip(F, {}, "empty list");
  List k = Kinds(F);
  int n = k.size();
  for (int a = 0; a < n; ++a)
    for (int b = 0; b < n; ++b) {
      RoundTrip(F, {k[a], k[b]}, "pair");
      if (Thorough() || (a + b) % 3 == 0) for (int c = 0; c < n; ++c) RoundTrip(F, {k[a], k[b], k[c]}, "triple");
    }
  // long lists, the same spline several times
  for (int len : {9, 10, 11, 12, 26, 101}) {
    List l;
    for (int i = 0; i < len; ++i) l.push_back(k[(i * 5 + i / 7) % n]);
    RoundTrip(F, l, S("list of %d", len));
  }
  for (int a = 0; a < n; ++a) RoundTrip(F, {k[a], k[a], k[a], k[a]}, "same four times");
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
    List many;
    for (int i = 0; i < 12; ++i) many.push_back(k[(a + i) % n]);
    Reuse(F, {{k[a]}, {k[b], k[a]}, {}, {k[b]}}, S("%d %d growing", a, b));
    Reuse(F, {many, {k[b]}, {k[a], k[b]}}, S("%d %d shrinking", a, b));
  }
  // large counts: numbers wrap over many lines
  for (int m : {9, 10, 33, 99, 100, 101}) {
    for (int rat = 0; rat < 2; ++rat) {
      ref::Spline s;
      int p = 2;
      ref::Knots U(p + 1, 0.0);
      for (int i = 1; i <= m - p - 1; ++i) U.push_back(i / 128.0);
      for (int i = 0; i <= p; ++i) U.push_back(1);
      RoundTrip(F, {sl::Build({p}, {U}, 2, rat, 3)}, S("%d points", m));
    }
  }
  // dimensions the format does not have are refused
  for (int d = F.maxdim + 1; d <= 4; ++d)
    for (int rat = 0; rat < 2; ++rat) {
      if (!Begin(S("%s does not take dimension %d rational %d", F.ext, d, rat))) continue;
      G().states++; G().transitions++;
      std::string file = G().scratch + "/f." + F.ext;
      bool thrown = false;
      try { F.write(fmt::ToAny(List{fmt::One(std::vector<int>(d, 1), 0, 3, rat, 0)}), file.c_str()); } catch (const std::runtime_error &) { thrown = true; }
      if (!thrown) Fail("not refused");
      G().traces++;
    }
  for (int bad = 0; bad < 2; ++bad) {
    if (!Begin(S("%s does not take other objects %d", F.ext, bad))) continue;
    G().states++; G().transitions++;
    bool thrown = false;
    try { F.write(bad ? std::vector<std::any>{std::any(8)} : std::vector<std::any>{fmt::ToAny(k[0]), std::any()}, (G().scratch + "/f." + F.ext).c_str()); } catch (const std::runtime_error &) { thrown = true; }
    if (!thrown) Fail("not refused");
    G().traces++;
  }
}

// ---------------------------------------------------------------- C18
static void Vtk(const List &l, const std::vector<std::vector<int>> &sc, const std::string &name) {
  std::string key = "vtk " + name + " " + fmt::Str(l);
  for (auto &s : sc) key += Seq(s);
  if (!Begin(key)) return;
  G().states++; G().transitions++;
  std::string file = G().scratch + "/f.vtk";
  try { io::VTKWriter w; w.WriteFile(fmt::ToAny(l), file, sc); } catch (const std::exception &x) { Fail("writing: %s", x.what()); return; }
  std::istringstream in(fmt::Slurp(file));
  std::string line, t;
  std::getline(in, line);
  if (line.compare(0, 14, "# vtk DataFile")) Fail("first line");
  std::getline(in, line);
  in >> t;
  if (t != "ASCII") Fail("not ASCII");
  in >> t >> line;
  if (t != "DATASET" || line != "UNSTRUCTURED_GRID") Fail("dataset");
  long np = 0, wantp = 0, nc = 0, wantc = 0, ne = 0, wante = 0;
  for (size_t k = 0; k < l.size(); ++k) {
    long a = 1, b = 1;
    for (int n : sc[k]) { a *= n + 1; b *= n; }
    wantp += a; wantc += b; wante += b * ((1 << l[k].Dim()) + 1);
  }
  in >> t >> np >> line;
  if (t != "POINTS" || np != wantp || line != "double") { Fail("POINTS %ld, want %ld", np, wantp); return; }
  std::vector<std::vector<double>> pts;
  for (size_t k = 0; k < l.size(); ++k) {
    int D = l[k].Dim();
    std::vector<int> idx(D, 0);
    while (true) {
      std::vector<double> t0(D);
      for (int d = 0; d < D; ++d) {
        double a = l[k].U[d][0], b = l[k].U[d].back();
        t0[d] = idx[d] == sc[k][d] ? b : a + (b - a) * idx[d] / sc[k][d];
        if (t0[d] > b) t0[d] = b;
      }
      auto w = l[k].Eval(t0);
      R mag = 1e-9L;
      for (auto &cp : l[k].cp) for (R x : cp) mag = std::max(mag, std::fabs(x));
      for (int c = 0; c < 3; ++c) {
        double x;
        if (!(in >> x)) { Fail("points end early"); return; }
        R want = c < l[k].pdim ? w[c] : 0;
        G().checks++;
        if (!(std::fabs(x - want) <= 6e-6L * std::fabs(want) + 1e-9L * mag)) { Fail("spline %d sample %s coordinate %d is %.10g, want %.10Lg", (int) k, Seq(idx).c_str(), c, x, want); return; }
      }
      int d = 0;
      while (d < D && ++idx[d] > sc[k][d]) idx[d++] = 0;
      if (d == D) break;
    }
  }
  in >> t >> nc >> ne;
  if (t != "CELLS" || nc != wantc || ne != wante) { Fail("CELLS %ld %ld, want %ld %ld", nc, ne, wantc, wante); return; }
  long off = 0;
  static const int corner[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
  for (size_t k = 0; k < l.size(); ++k) {
    int D = l[k].Dim();
    std::vector<int> n = sc[k];
    n.resize(3, 0);
    for (int c = 0; c < std::max(1, n[2]); ++c) for (int b = 0; b < std::max(1, n[1]); ++b) for (int a = 0; a < n[0]; ++a) {
      int cnt = -1;
      in >> cnt;
      if (cnt != (1 << D)) { Fail("cell of %d points", cnt); return; }
      for (int q = 0; q < cnt; ++q) {
        long id = -1, want = off + (a + corner[q][0]) + (long) (n[0] + 1) * ((b + corner[q][1]) + (long) (n[1] + 1) * (c + corner[q][2]));
        in >> id;
        G().checks++;
        if (id != want) { Fail("spline %d cell %d %d %d corner %d is point %ld, want %ld", (int) k, a, b, c, q, id, want); return; }
      }
    }
    long p = 1;
    for (int x : sc[k]) p *= x + 1;
    off += p;
  }
  in >> t >> nc;
  if (t != "CELL_TYPES" || nc != wantc) { Fail("CELL_TYPES"); return; }
  for (size_t k = 0; k < l.size(); ++k) {
    long b = 1;
    for (int x : sc[k]) b *= x;
    for (long i = 0; i < b; ++i) { int ty = -1; in >> ty; if (ty != (l[k].Dim() == 1 ? 3 : l[k].Dim() == 2 ? 9 : 12)) { Fail("cell type %d", ty); return; } }
  }
  if (in >> t) Fail("text after the cell types");
  G().traces++;
}
static void C18() {
  bool T = Thorough();
  int no = 0;
  auto pool = fmt::Pool(3, 4, T);
  for (auto &s : pool) {
    int D = s.Dim();
    ++no;
    if (!T && D == 1 && no % 2) continue;
    if (!T && D > 1 && no % 5) continue;
    int m = D == 1 ? 5 : 3;
    std::vector<int> sc(D, 1);
    while (true) {
      if (D < 3 || T || (sc[0] + 2 * sc[1] + sc[2] + no) % 4 == 0) Vtk({s}, {sc}, S("#%d", no));
      int d = 0;
      while (d < D && ++sc[d] > m) sc[d++] = 1;
      if (d == D) break;
    }
  }
  // several splines in one file
  Format F = IRIT();
  List k = Kinds(F);
  for (size_t a = 0; a < k.size(); ++a) for (size_t b = 0; b < k.size(); ++b)
    for (int v = 0; v < 3; ++v) {
      List l{k[a], k[b]};
      if (v) l.push_back(k[(a + b + v) % k.size()]);
      std::vector<std::vector<int>> sc;
      for (size_t i = 0; i < l.size(); ++i) { std::vector<int> s; for (int d = 0; d < l[i].Dim(); ++d) s.push_back(1 + (i + 2 * d + v + a) % 3); sc.push_back(s); }
      Vtk(l, sc, S("list%d", v));
    }
  Vtk({}, {}, "empty");
  // many parameter ranges and step counts: the last sample is the last knot
  for (int a = -3; a <= 10; ++a) for (int b = 1; b <= 12; ++b) {
    ref::Spline s = sl::Build({2}, {sl::Clamped(2, {}, 1, a * 0.1, b * 0.1).back()}, 2, b % 2, a + 5);
    s.U[0] = {a * 0.1, a * 0.1, a * 0.1, (a + b) * 0.1, (a + b) * 0.1, (a + b) * 0.1};
    for (int n : {1, 2, 3, 5, 6, 7, 10, 11, 13, 30, 49, 100}) Vtk({s}, {{n}}, S("range %d %d", a, b));
  }
  // wrong scattering is refused
  for (int c = 0; c < 6; ++c) {
    if (!Begin(S("wrong scattering %d", c))) continue;
    G().states++; G().transitions++;
    List l{k[0], k[2], k[4]};
    std::vector<std::vector<int>> sc{{2}, {2, 2}, {2, 2, 2}};
    if (c == 0) sc.pop_back();
    if (c == 1) sc.push_back({1});
    if (c == 2) sc[0] = {2, 2};
    if (c == 3) sc[1] = {2};
    if (c == 4) sc[2] = {2, 2};
    if (c == 5) sc[0] = {};
    bool thrown = false;
    try { io::VTKWriter w; w.WriteFile(fmt::ToAny(l), G().scratch + "/f.vtk", sc); } catch (const std::runtime_error &) { thrown = true; }
    if (!thrown) Fail("not refused");
    G().traces++;
  }
  for (int rat = 0; rat < 2; ++rat) {
    if (!Begin(S("four dimensions %d", rat))) continue;
    G().states++; G().transitions++;
    bool thrown = false;
    try { io::VTKWriter w; w.WriteFile(fmt::ToAny(List{fmt::One({1, 1, 1, 1}, 0, 3, rat, 0)}), G().scratch + "/f.vtk", {{1, 1, 1, 1}}); } catch (const std::runtime_error &) { thrown = true; }
    if (!thrown) Fail("not refused");
    G().traces++;
  }
}

// ---------------------------------------------------------------- C20 / C21
// Independent recogniser of decimal numbers
static bool Decimal(const std::string &s) {
  size_t i = 0, digits = 0;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  while (i < s.size() && isdigit(s[i])) { ++i; ++digits; }
  if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit(s[i])) { ++i; ++digits; } }
  if (!digits) return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    size_t d = 0;
    while (i < s.size() && isdigit(s[i])) { ++i; ++d; }
    if (!d) return false;
  }
  return i == s.size();
}
static bool SameNumber(double got, const std::string &s) {
  long double w = strtold(s.c_str(), nullptr);
  double v = strtod(s.c_str(), nullptr);
  if (std::isinf(v)) return std::isinf(got) && (got > 0) == (v > 0);
  return std::fabs(got - w) <= 1e-14L * std::fabs(w) + 1e-320L;
}
static void Number(const std::string &s) {
  G().transitions++;
  bool ok = Decimal(s);
  try {
    double g = util::StringOperations::StringToDouble(s);
    if (!ok) Fail("'%s' is not a number but was read as %.17g", s.c_str(), g);
    else if (!SameNumber(g, s)) Fail("'%s' was read as %.17g", s.c_str(), g);
  } catch (const std::exception &e) {
    if (ok) Fail("'%s' was rejected: %s", s.c_str(), e.what());
  }
}
static void AllStrings(const std::string &alpha, int len, const std::function<void(const std::string &)> &f) {
  std::string s(len, alpha[0]);
  std::vector<size_t> i(len, 0);
  while (true) {
    f(s);
    int d = len - 1;
    while (d >= 0 && ++i[d] == alpha.size()) { i[d] = 0; s[d] = alpha[0]; --d; }
    if (d < 0) break;
    s[d] = alpha[i[d]];
  }
}
static void C20() {
  bool T = Thorough();
  static const char *sign[] = {"", "-", "+"}, *ip[] = {"", "0", "7", "12", "007", "123456789", "9007199254740993", "100000000000000000000"},
                    *fp[] = {"", ".", ".0", ".5", ".25", ".333333", ".000001", ".123456789012345678", ".10000000000000001"},
                    *ex[] = {"", "e0", "e5", "E5", "e-5", "E+5", "e+05", "e-07", "E12", "e-300", "e300", "E-1", "e1"};
  for (auto a : sign) for (auto b : ip) for (auto c : fp) {
    if (!Begin(S("numbers %s%s%s with all exponents", a, b, c))) continue;
    G().states++;
    for (auto d : ex) { std::string s = std::string(a) + b + c + d; if (Decimal(s)) Number(s); }
    G().traces++;
  }
  // everything printf prints for a set of doubles
  const double vals[] = {0, 1, -1, 0.1, 1.0 / 3, 2.5, -7.25, 1e-5, 1e-4, 123456, 1e15, 1e16, 1e17, 1e20, -1e20, 1e-20, 3.14159265358979312, 5e-324, 2.2250738585072014e-308,
                         1.7976931348623157e308, 999999.5, 9.999999e22, 4503599627370497.5};
  for (double v : vals) {
    if (!Begin(S("printed forms of %.17g", v))) continue;
    G().states++;
    for (int p = 1; p <= 20; ++p) for (const char *f : {"%.*g", "%.*e", "%.*E", "%.*f"}) {
      char buf[512];
      snprintf(buf, sizeof buf, f, p, v);
      Number(buf);
    }
    G().traces++;
  }
  // all short strings
  const std::string al = "015.-+eE, x";
  for (int len = 0; len <= (T ? 6 : 5); ++len)
    for (size_t c = 0; c < (len ? al.size() : 1); ++c) for (size_t c2 = 0; c2 < (len > 1 ? al.size() : 1); ++c2) {
      std::string pre = len ? std::string(1, al[c]) : "";
      if (len > 1) pre += al[c2];
      if (!Begin(S("all strings of length %d starting with '%s'", len, pre.c_str()))) continue;
      G().states++;
      if (len < 3) { Number(pre); G().traces++; continue; }
      AllStrings(al, len - 2, [&](const std::string &s) { Number(pre + s); });
      G().traces++;
    }
  // lists separated by commas and ended by semicolons, wrapped and padded as in IGES files
  static const char *tok[] = {"1", "-2.5", "0.0", "1e-05", "3.E2", "+4", "10"};
  for (int n = 1; n <= (T ? 5 : 4); ++n) {
    std::vector<int> i(n, 0);
    while (true) {
      if (Begin(S("list %s", Seq(i).c_str()))) {
        G().states++;
        for (int st = 0; st < 7; ++st) {
          std::string s;
          for (int k = 0; k < n; ++k) s += std::string(st == 1 ? " " : st == 4 ? "\t" : st == 5 ? "\r\n" : "") + tok[i[k]] + (st == 2 ? "  " : st == 4 ? "\t\t" : st == 6 ? "\n" : "") + (k + 1 < n ? (st == 3 ? ";" : ",") : ";");
          s += st % 2 ? "     " : "";
          G().transitions++;
          try {
            auto v = util::StringOperations::DelimitedStringToVector(s);
            bool ok = (int) v.size() == n;
            for (int k = 0; ok && k < n; ++k) ok = SameNumber(v[k], tok[i[k]]);
            if (!ok) Fail("'%s' was read as %s", s.c_str(), Seq(v).c_str());
          } catch (const std::exception &e) { Fail("'%s' was rejected", s.c_str()); }
        }
        std::vector<std::string> sv;
        std::string joined;
        for (int k = 0; k < n; ++k) { sv.push_back(tok[i[k]]); joined += std::string(k % 2 ? "\n" : "  ") + tok[i[k]]; }
        try {
          auto d = util::StringOperations::StringVectorToNumberVector<double>(sv);
          auto q = util::StringOperations::StringVectorToNumberVector<int>(sv);
          auto sp = util::StringOperations::split(joined, ' ');
          bool ok = (int) d.size() == n && (int) q.size() == n && sp == sv;
          for (int k = 0; ok && k < n; ++k) ok = SameNumber(d[k], tok[i[k]]) && q[k] == (int) strtod(tok[i[k]], nullptr);
          if (!ok) Fail("number vector of %s", joined.c_str());
        } catch (const std::exception &e) { Fail("vector of '%s' was rejected", joined.c_str()); }
        G().transitions += 3;
        G().traces++;
      }
      int d = 0;
      while (d < n && ++i[d] == 7) i[d++] = 0;
      if (d == n) break;
    }
  }
}
static void C21() {
  // all strings over small alphabets against the definition
  int L = Thorough() ? 6 : 5;
  for (int a = 0; a <= L; ++a) for (int b = 0; b <= 3; ++b) {
    if (!Begin(S("prefix and suffix, lengths %d and %d", a, b))) continue;
    G().states++;
    AllStrings("a.:", a, [&](const std::string &s) {
      AllStrings("a.:", b, [&](const std::string &t) {
        G().transitions += 2;
        bool st = a >= b && s.substr(0, b) == t, en = a >= b && s.substr(a - b) == t;
        if (util::StringOperations::StartsWith(s, t) != st) Fail("StartsWith('%s','%s')", s.c_str(), t.c_str());
        if (util::StringOperations::EndsWith(s, t) != en) Fail("EndsWith('%s','%s')", s.c_str(), t.c_str());
      });
    });
    G().traces++;
  }
  for (int a = 0; a <= L + 1; ++a) {
    if (!Begin(S("trim and split, length %d", a))) continue;
    G().states++;
    AllStrings("x [] \n", a, [&](const std::string &s) {
      G().transitions += 2;
      size_t i = 0, j = s.size();
      while (i < j && (isspace(s[i]) || s[i] == '[')) ++i;
      while (j > i && (isspace(s[j - 1]) || s[j - 1] == ']')) --j;
      if (util::StringOperations::trim(s) != s.substr(i, j - i)) Fail("trim('%s')", s.c_str());
      std::vector<std::string> w;
      std::string cur;
      for (char c : s + "\n") { if (c == ' ' || c == '\n') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c; }
      if (util::StringOperations::split(s, ' ') != w) Fail("split('%s')", s.c_str());
    });
    G().traces++;
  }
  // every byte, and every kind of white space around the text
  auto Trim = [](const std::string &s) {
    G().transitions++;
    size_t i = 0, j = s.size();
    while (i < j && (strchr(" \t\n\v\f\r", s[i]) || s[i] == '[')) ++i;
    while (j > i && (strchr(" \t\n\v\f\r", s[j - 1]) || s[j - 1] == ']')) --j;
    if (util::StringOperations::trim(s) != s.substr(i, j - i)) Fail("trim('%s')", s.c_str());
  };
  if (Begin("trim and split, every byte")) {
    G().states++;
    for (int c = 1; c < 256; ++c) {
      char ch = static_cast<char>(c);
      std::string s(1, ch);
      for (auto &t : {s, s + "x", "x" + s, s + "x" + s, "x" + s + "x", " " + s + "x", "x" + s + " ", s + s}) Trim(t);
      if (c == '\n') continue;
      G().transitions++;
      if (util::StringOperations::split("ab" + s + s + "y", ch) != std::vector<std::string>({"ab", "y"}) && !strchr("aby", ch)) Fail("split at byte %d", c);
      if (!util::StringOperations::StartsWith(s + "z", s) || !util::StringOperations::EndsWith("z" + s, s)) Fail("prefix or suffix of byte %d", c);
    }
    G().traces++;
  }
  for (int a = 1; a <= L; ++a) {
    if (!Begin(S("trim, all white space, length %d", a))) continue;
    G().states++;
    AllStrings("x[]\t\n\v\f\r", a, Trim);
    G().traces++;
  }
}

// ---------------------------------------------------------------- C27
static List Small(const Format &F, int v) {
  List l;
  if (v == 0) l = {fmt::One({1}, 0, 2, true, 0), fmt::One({2}, 1, 3, false, 0)};
  if (v == 1) l = {fmt::One({1, 1}, 0, 2, false, 0), fmt::One({1}, 1, 1, true, 0)};
  if (v == 2) l = F.maxdim > 2 ? List{fmt::One({1, 1, 1}, 0, 3, true, 0)} : List{fmt::One({2, 1}, 0, 3, true, 0)};
  if (v == 3 && F.maxdim > 3) l = {fmt::One({1, 1, 1, 1}, 0, 1, false, 0)};
  return l;
}
template<int D> static void Use(const std::any &a) {
  auto b = std::any_cast<std::shared_ptr<spl::BSpline<D>>>(&a);
  auto n = std::any_cast<std::shared_ptr<spl::NURBS<D>>>(&a);
  std::shared_ptr<spl::Spline<D>> s;
  if (b) s = *b;
  if (n) s = *n;
  if (!s) return;
  std::array<ParamCoord, D> c;
  for (int d = 0; d < D; ++d) c[d] = s->GetKnotVector(d)->GetLastKnot();
  s->Evaluate(c, sl::Dims(s->GetPointDim()));
}
// Reads a damaged file: an exception, or splines that can be used. prefix: what was complete must come out unchanged.
static void Damaged(const Format &F, const std::string &text, const List *prefix, const std::string &what) {
  std::string file = G().scratch + "/d." + F.ext;
  fmt::Spit(file, text);
  SetCur(G().key + " | " + what);
  G().states++; G().transitions++;
  std::vector<std::any> got;
  try { got = F.read(file.c_str()); } catch (const std::exception &) { return; }
  std::string err;
  List l;
  for (auto &a : got) {
    l.push_back(fmt::FromAny(a, &err));
    if (!err.empty() && err.find("finite") == std::string::npos && err.find("not sorted") == std::string::npos && err.find("empty parameter range") == std::string::npos) { Fail("%s: accepted, but %s", what.c_str(), err.c_str()); return; }
    if (!err.empty()) continue;
    try { Use<1>(a); Use<2>(a); Use<3>(a); Use<4>(a); } catch (const std::exception &e) { Fail("%s: accepted, but evaluation fails: %s", what.c_str(), e.what()); return; }
  }
  if (prefix) {
    if (l.size() > prefix->size()) { Fail("%s: %d splines", what.c_str(), (int) l.size()); return; }
    for (size_t i = 0; i < l.size(); ++i) {
      std::string d = fmt::Diff(l[i], (*prefix)[i], 0, 1e-13L, F.hom, F.pad);
      if (!d.empty()) { Fail("%s: accepted with a wrong spline %d: %s", what.c_str(), (int) i, d.c_str()); return; }
    }
  }
}
static void C27() {
  for (auto &F : {XML(), IRIT(), IGES()})
    for (int v = 0; v < 4; ++v) {
      List l = Small(F, v);
      if (l.empty()) continue;
      for (int st = 0; st < F.styles; ++st) {
        std::string t = F.emit(l, st);
        // every truncation
        const int B = 8;
        for (int b = 0; b < B; ++b) {
          if (!Begin(S("%s file %d layout %d truncated, part %d", F.ext, v, st, b))) continue;
          for (size_t n = b; n < t.size(); n += B) Damaged(F, t.substr(0, n), &l, S("first %d bytes", (int) n));
          G().traces++;
        }
        if (st > 0 && !Thorough()) continue;
        // every number (or word) removed, doubled or replaced
        std::vector<std::pair<size_t, size_t>> tok;
        auto word = [](char c) { return isalnum(c) || c == '.' || c == '-' || c == '+'; };
        for (size_t i = 0; i < t.size();) {
          if (!word(t[i])) { ++i; continue; }
          size_t j = i;
          while (j < t.size() && word(t[j])) ++j;
          tok.push_back({i, j});
          i = j;
        }
        for (int b = 0; b < B; ++b) {
          if (!Begin(S("%s file %d layout %d with one word changed, part %d", F.ext, v, st, b))) continue;
          for (size_t k = b; k < tok.size(); k += B) {
            std::string w = t.substr(tok[k].first, tok[k].second - tok[k].first);
            size_t len = w.size();
            auto fix = [&](std::string r) {  // IGES has fixed columns: keep the width
              if (std::string(F.ext) != "iges") return r;
              if (r.size() > len) r = r.substr(0, len);
              return std::string(len - r.size(), ' ') + r;
            };
            for (const std::string &r : {std::string(), w + " " + w, std::string("0"), std::string("1"), std::string("-1"), std::string("7"), std::string("9999"), std::string("x"), std::string("1e"), std::string("0.5")})
              Damaged(F, t.substr(0, tok[k].first) + fix(r) + t.substr(tok[k].second), nullptr, S("word %d '%s' replaced by '%s'", (int) k, w.c_str(), r.c_str()));
          }
          G().traces++;
        }
        // every line removed or doubled
        std::vector<std::string> lines;
        std::istringstream in(t);
        std::string ln;
        while (std::getline(in, ln)) lines.push_back(ln + "\n");
        if (Begin(S("%s file %d layout %d with a line removed or doubled", F.ext, v, st))) {
          for (size_t k = 0; k < lines.size(); ++k)
            for (int m = 0; m < 3; ++m) {
              std::string r;
              for (size_t i = 0; i < lines.size(); ++i) if (i != k) r += lines[i]; else if (m == 1) r += lines[i] + lines[i]; else if (m == 2) r += "\n";
              Damaged(F, r, nullptr, S("line %d %s", (int) k, m == 0 ? "removed" : m == 1 ? "doubled" : "emptied"));
            }
          G().traces++;
        }
      }
    }
  for (auto &F : {XML(), IRIT(), IGES()}) {
    if (!Begin(S("%s missing file", F.ext))) continue;
    G().states++; G().transitions++;
    bool thrown = false;
    try { F.read((G().scratch + "/no/such/file").c_str()); } catch (const std::runtime_error &) { thrown = true; }
    if (!thrown) Fail("a missing file was read");
    G().traces++;
  }
}

// ---------------------------------------------------------------- C28
static void C28() {
  signal(SIGXFSZ, SIG_IGN);
  Format V = IRIT();
  V.ext = "vtk";
  V.write = [](const std::vector<std::any> &v, const char *f) {
    std::vector<std::vector<int>> sc;
    for (auto &a : v) { std::string e; sc.push_back(std::vector<int>(fmt::FromAny(a, &e).Dim(), 2)); }
    io::VTKWriter w;
    w.WriteFile(v, f, sc);
  };
  for (auto &F : {XML(), IRIT(), IGES(), V})
    for (int v = 0; v < 4; ++v) {
      List l = v < 3 ? Small(F, v) : List{};
      if (v < 3 && l.empty()) continue;
      if (v == 3) {  // more than one stream buffer
        ref::Spline s = sl::Build({1, 1}, {ref::Knots{}, ref::Knots{}}, 3, true, 1);
        for (int d = 0; d < 2; ++d) { ref::Knots U{0}; for (int i = 0; i <= 17; ++i) U.push_back(i / 17.0); U.push_back(1); s.U[d] = U; }
        l = {sl::Build({1, 1}, s.U, 3, true, 1)};
      }
      auto a = fmt::ToAny(l);
      std::string good = G().scratch + "/good." + F.ext, file = G().scratch + "/bad." + F.ext;
      size_t size = 0;
      std::string ref;
      const int B = 8;
      for (int b = 0; b < B; ++b) {
        if (!Begin(S("%s list %d, every point at which the disk is full, part %d", F.ext, v, b))) continue;
        if (ref.empty()) { F.write(a, good.c_str()); ref = fmt::Slurp(good); size = ref.size(); }
        if (size == 0) { Fail("nothing written"); break; }
        for (size_t k = b; k <= size; k += (v == 3 && !Thorough()) ? B * 41 : B) {
          unlink(file.c_str());
          struct rlimit old, lim;
          getrlimit(RLIMIT_FSIZE, &old);
          lim = old;
          lim.rlim_cur = k;
          SetCur(G().key + S(" | %d bytes", (int) k));
          bool thrown = false;
          setrlimit(RLIMIT_FSIZE, &lim);
          try { F.write(a, file.c_str()); } catch (const std::exception &) { thrown = true; }
          setrlimit(RLIMIT_FSIZE, &old);
          G().states++; G().transitions++;
          std::string got = fmt::Slurp(file);
          if (!thrown && got.size() < size) { Fail("only %d of %d bytes were written and nothing was reported", (int) got.size(), (int) size); break; }
        }
        G().traces++;
      }
      for (int w = 0; w < 3; ++w) {
        if (!Begin(S("%s list %d to %s", F.ext, v, w == 0 ? "a missing directory" : w == 1 ? "a directory" : "a full device"))) continue;
        G().states++; G().transitions++;
        bool thrown = false;
        std::string path = w == 0 ? G().scratch + "/no/such/f" : w == 1 ? G().scratch : "/dev/full";
        try { F.write(a, path.c_str()); } catch (const std::exception &) { thrown = true; }
        if (!thrown) Fail("a file that cannot be written was reported as written");
        G().traces++;
      }
    }
}
int main(int argc, char **argv) {
  Init(argc, argv);
  if (Prop("C15")) Formats(XML());
  if (Prop("C16")) Formats(IRIT());
  if (Prop("C17")) Formats(IGES());
  if (Prop("C18")) C18();
  if (Prop("C20")) C20();
  if (Prop("C21")) C21();
  if (Prop("C27")) C27();
  if (Prop("C28")) C28();
  return Finish();
}

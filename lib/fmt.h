// Independent emitters and parsers of the file formats (nothing of /repo/src/io is used), the alphabet of splines the
// IO harnesses enumerate, and the bridge between std::any lists and the reference model.
#ifndef VERIF_FMT_H_
#define VERIF_FMT_H_
#include <any>
#include <fstream>
#include <iterator>
#include <sstream>
#include "pugixml.hpp"
#include "sl.h"

namespace fmt {
using ref::Knots;
using ref::R;
typedef std::vector<ref::Spline> List;

template<int D> std::any AnyOf(const ref::Spline &s) {
  if (s.rational) return std::make_any<std::shared_ptr<spl::NURBS<D>>>(sl::MakeN<D>(s));
  return std::make_any<std::shared_ptr<spl::BSpline<D>>>(sl::MakeB<D>(s));
}
inline std::any ToAny(const ref::Spline &s) {
  switch (s.Dim()) {
    case 1: return AnyOf<1>(s);
    case 2: return AnyOf<2>(s);
    case 3: return AnyOf<3>(s);
    default: return AnyOf<4>(s);
  }
}
inline std::vector<std::any> ToAny(const List &l) { std::vector<std::any> r; for (auto &s : l) r.push_back(ToAny(s)); return r; }
template<int D> bool Try(const std::any &a, ref::Spline *s, std::string *err) {
  if (auto b = std::any_cast<std::shared_ptr<spl::BSpline<D>>>(&a)) { *s = sl::Extract<D>(**b, false, err); return true; }
  if (auto n = std::any_cast<std::shared_ptr<spl::NURBS<D>>>(&a)) { *s = sl::Extract<D>(**n, true, err); return true; }
  return false;
}
inline ref::Spline FromAny(const std::any &a, std::string *err) {
  ref::Spline s;
  if (Try<1>(a, &s, err) || Try<2>(a, &s, err) || Try<3>(a, &s, err) || Try<4>(a, &s, err)) return s;
  *err = "not a pointer to a spline";
  return s;
}
inline std::string Slurp(const std::string &f) {
  std::ifstream i(f, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
}
inline void Spit(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << s; }
inline std::string Num(R x) { return mc::S("%.17g", static_cast<double>(x)); }

// ---- comparison: abs is the absolute error of one printed number, rel its relative error; homogeneous: coordinates were
// stored multiplied by the weight
inline std::string Diff(const ref::Spline &got, const ref::Spline &want, R abs, R rel, bool homogeneous, int pad = 0) {
  if (got.Dim() != want.Dim()) return "parametric dimension";
  if (got.rational != want.rational) return got.rational ? "became rational" : "lost its weights";
  if (got.deg != want.deg) return "degrees";
  int pd = pad ? pad : want.pdim;
  if (got.pdim != pd) return mc::S("%d coordinates instead of %d", got.pdim, pd);
  for (int d = 0; d < want.Dim(); ++d) {
    if (got.U[d].size() != want.U[d].size()) return mc::S("number of knots in direction %d", d);
    for (size_t i = 0; i < want.U[d].size(); ++i)
      if (!(std::fabs(got.U[d][i] - want.U[d][i]) <= abs + rel * std::fabs(want.U[d][i])))
        return mc::S("knot %d in direction %d is %.17g, want %.17g", (int) i, d, got.U[d][i], want.U[d][i]);
  }
  if (got.cp.size() != want.cp.size()) return "number of control points";
  for (size_t i = 0; i < want.cp.size(); ++i) {
    if (want.rational && !(std::fabs(got.w[i] - want.w[i]) <= abs + rel * std::fabs(want.w[i])))
      return mc::S("weight %d is %.17Lg, want %.17Lg", (int) i, got.w[i], want.w[i]);
    for (int c = 0; c < pd; ++c) {
      R x = c < want.pdim ? want.cp[i][c] : 0, tol = abs + rel * std::fabs(x);
      if (homogeneous && want.rational) tol = (abs * (1 + std::fabs(x)) / want.w[i]) * 1.001L + 4 * rel * std::fabs(x);
      if (!(std::fabs(got.cp[i][c] - x) <= tol)) return mc::S("coordinate %d of point %d is %.17Lg, want %.17Lg", c, (int) i, got.cp[i][c], x);
    }
  }
  return "";
}

// ---- emitters. style varies layout that carries no meaning.
inline std::string Xml(const List &l, int style) {
  std::string r = style % 2 ? "" : "<?xml version=\"1.0\"?>\n";
  r += mc::S("<SplineList NumberOfSplines=\"%d\">", (int) l.size());
  std::string nl = style == 2 ? "\r\n" : "\n", sep = style % 2 ? " " : "\n      ";
  static const char *names[] = {"x", "y", "z", "t"};
  for (auto &s : l) {
    // variables that are not coordinates, before (styles 3, 4) or after (style 5) the coordinates
    int extra = style == 3 ? 2 : style == 4 ? 3 : 0, after = style == 5 ? 2 : 0;
    static const char *en[] = {"xvel", "ux", "xx", "v0", "v1"}, *an[] = {"xa", "pressure"};
    if (style < 4) r += nl + mc::S("<SplineEntry splDim=\"%d\" spaceDim=\"%d\" numOfCntrlPntVars=\"%d\" numCntrlPnts=\"%d\">", s.Dim(), s.pdim, s.pdim + extra, (int) s.cp.size());
    else r += nl + mc::S("<SplineEntry numCntrlPnts=\"%d\" name=\"s\" numOfCntrlPntVars=\"%d\" spaceDim=\"%d\" splDim=\"%d\">", (int) s.cp.size(), s.pdim + extra + after, s.pdim, s.Dim());
    if (style >= 4) r += nl + "<comment>1 2 3</comment>";
    r += nl + "<cntrlPntVarNames>" + sep;
    for (int i = 0; i < extra; ++i) r += std::string(en[style == 4 ? i : 3 + i]) + " ";
    for (int c = 0; c < s.pdim; ++c) r += std::string(names[c]) + " ";
    for (int i = 0; i < after; ++i) r += std::string(an[i]) + " ";
    r += sep + "</cntrlPntVarNames>" + nl + "<cntrlPntVars>";
    for (auto &p : s.cp) {
      r += sep;
      for (int i = 0; i < extra; ++i) r += mc::S("%g ", 77.5 + i);
      for (R x : p) r += Num(x) + "  ";
      for (int i = 0; i < after; ++i) r += mc::S("%g ", -66.25 - i);
    }
    r += sep + "</cntrlPntVars>" + nl;
    if (s.rational) { r += "<wght>"; for (R x : s.w) r += sep + Num(x); r += sep + "</wght>" + nl; }
    r += "<deg>";
    for (int d : s.deg) r += sep + mc::S("%d", d);
    r += sep + "</deg>" + nl + "<kntVecs>";
    for (auto &U : s.U) { r += nl + "<kntVec>"; for (double u : U) r += sep + Num(u); r += sep + "</kntVec>"; }
    r += nl + "</kntVecs>" + nl + "</SplineEntry>";
  }
  return r + nl + "</SplineList>" + nl;
}
inline std::string Irit(const List &l, int style) {
  // style 0: indented with spaces, 1: tabs, 2: not indented, 3: CR LF, 4: closing brackets on the line of the last point
  std::string nl = style == 3 ? "\r\n" : "\n", in = style == 1 ? "\t" : style == 2 ? "" : "    ";
  std::string r = "[OBJECT SPLINES" + nl;
  static const char *kind[] = {"", "[CURVE", "[SURFACE", "[TRIVAR"};
  for (size_t k = 0; k < l.size(); ++k) {
    const auto &s = l[k];
    r += in + mc::S("[OBJECT SPLINE%d", (int) k + 1) + nl + in + kind[s.Dim()] + " BSPLINE ";
    for (int d = 0; d < s.Dim(); ++d) r += mc::S("%d ", s.N(d));
    for (int d = 0; d < s.Dim(); ++d) r += mc::S("%d ", s.deg[d] + 1);
    r += mc::S("%c%d", s.rational ? 'P' : 'E', s.pdim) + nl;
    for (auto &U : s.U) { r += in + "[KV"; for (double u : U) r += " " + Num(u); r += "]" + nl; }
    for (size_t i = 0; i < s.cp.size(); ++i) {
      r += in + "[";
      if (s.rational) r += Num(s.w[i]) + " ";
      for (int c = 0; c < s.pdim; ++c) r += Num(s.cp[i][c] * s.w[i]) + (c + 1 < s.pdim ? " " : "]");
      if (style == 4 && i + 1 == s.cp.size()) r += "]]";
      r += nl;
    }
    if (style != 4) r += in + "]" + nl + in + "]" + nl;
  }
  return r + "]" + nl;
}
inline std::string Iges(const List &l, int style) {
  // style 0: E exponents, packed; 1: one number per line; 2: an unrelated entity in front
  auto line = [](std::string body, char sec, int n) { body.resize(72, ' '); return body + sec + mc::S("%7d", n) + "\n"; };
  std::string S = line("reference file", 'S', 1), G = line("1H,,1H;,,,,,32,38,9,308,17,,1.0,1,4HINCH,16,0.1,,0.0001,2.0,,,11,0,;", 'G', 1), D, P;
  int dn = 0, pn = 0, gn = 1;
  auto entity = [&](int type, std::vector<std::string> nums) {
    int first = pn + 1, count = 0, dptr = dn + 1;
    std::string cur;
    auto flush = [&] {
      cur.resize(64, ' ');
      P += cur + mc::S("%8d", dptr) + "P" + mc::S("%7d", ++pn) + "\n";
      ++count;
      cur.clear();
    };
    for (size_t i = 0; i < nums.size(); ++i) {
      std::string t = nums[i] + (i + 1 < nums.size() ? "," : ";");
      if (style == 1 ? !cur.empty() : cur.size() + t.size() > 64) flush();
      cur += t;
    }
    flush();
    D += line(mc::S("%8d%8d%8d%8d%8d%8d%8d%8d%s", type, first, 0, 0, 0, 0, 0, 0, " 0 0 0 1"), 'D', ++dn);
    D += line(mc::S("%8d%8d%8d%8d%8d%16s%8s%8d", type, 0, 0, count, 0, "", "SPLINE", 0), 'D', ++dn);
  };
  if (style == 2) entity(110, {"110", "0.0", "0.0", "0.0", "1.0", "1.0", "1.0"});
  for (auto &s : l) {
    std::vector<std::string> v;
    v.push_back(s.Dim() == 1 ? "126" : "128");
    for (int d = 0; d < s.Dim(); ++d) v.push_back(mc::S("%d", s.N(d) - 1));
    for (int d = 0; d < s.Dim(); ++d) v.push_back(mc::S("%d", s.deg[d]));
    v.push_back("0"); v.push_back("0"); v.push_back(s.rational ? "0" : "1");
    for (int d = 0; d < s.Dim(); ++d) v.push_back("0");
    for (auto &U : s.U) for (double u : U) v.push_back(Num(u));
    for (R w : s.w) v.push_back(Num(w));
    for (auto &p : s.cp) for (int c = 0; c < 3; ++c) v.push_back(c < s.pdim ? Num(p[c]) : "0.0");
    for (auto &U : s.U) { v.push_back(Num(U[0])); v.push_back(Num(U.back())); }
    if (s.Dim() == 1) { v.push_back("0.0"); v.push_back("0.0"); v.push_back("1.0"); }
    entity(s.Dim() == 1 ? 126 : 128, v);
  }
  return S + G + D + P + mc::S("S%7dG%7dD%7dP%7d%40sT%7d\n", 1, gn, dn, pn, "", 1);
}

// ---- parsers of what the writers produce; "" on success
inline std::vector<double> Numbers(const std::string &s) {
  std::vector<double> r;
  std::istringstream i(s);
  std::string t;
  while (i >> t) { char *e; r.push_back(strtod(t.c_str(), &e)); if (*e) r.back() = NAN; }
  return r;
}
inline std::string ParseXml(const std::string &file, List *out) {
  pugi::xml_document doc;
  if (!doc.load_file(file.c_str())) return "not well-formed XML";
  auto root = doc.child("SplineList");
  if (!root) return "no SplineList";
  for (auto e : root.children()) {
    if (std::string(e.name()) != "SplineEntry") return std::string("unknown entry ") + e.name();
    ref::Spline s;
    int dim = e.attribute("splDim").as_int(-1), n = e.attribute("numCntrlPnts").as_int(-1), nv = e.attribute("numOfCntrlPntVars").as_int(-1);
    s.pdim = e.attribute("spaceDim").as_int(-1);
    if (nv != s.pdim) return "number of variables";
    auto v = Numbers(e.child("cntrlPntVars").text().get());
    if (n < 0 || nv < 1 || (int) v.size() != n * nv) return mc::S("%d values for %d points of %d variables", (int) v.size(), n, nv);
    std::istringstream names(e.child("cntrlPntVarNames").text().get());
    std::string nm;
    static const char *want[] = {"x", "y", "z", "t"};
    for (int c = 0; c < s.pdim && c < 4; ++c) { names >> nm; if (nm != want[c]) return "variable names"; }
    for (int i = 0; i < n; ++i) s.cp.push_back(std::vector<R>(v.begin() + i * nv, v.begin() + (i + 1) * nv));
    s.rational = !!e.child("wght");
    if (s.rational) for (double x : Numbers(e.child("wght").text().get())) s.w.push_back(x);
    else s.w.assign(n, 1);
    if ((int) s.w.size() != n) return "number of weights";
    for (double x : Numbers(e.child("deg").text().get())) s.deg.push_back(static_cast<int>(x));
    for (auto k : e.child("kntVecs").children()) s.U.push_back(Numbers(k.text().get()));
    if ((int) s.deg.size() != dim || (int) s.U.size() != dim) return "number of degrees or knot vectors";
    out->push_back(s);
  }
  if (root.attribute("NumberOfSplines").as_int(-1) != (int) out->size()) return "NumberOfSplines";
  return "";
}
inline std::string ParseIrit(const std::string &file, List *out) {
  std::string text = Slurp(file), t;
  int depth = 0;
  for (char c : text) {
    if (c == '[') { t += " [ "; ++depth; } else if (c == ']') { t += " ] "; if (--depth < 0) return "brackets do not match"; } else t += c;
  }
  if (depth) return "brackets do not match";
  std::istringstream in(t);
  std::vector<std::string> tok;
  while (in >> t) tok.push_back(t);
  tok.push_back("");
  for (size_t i = 2; i < tok.size(); ++i) {
    if (tok[i] != "BSPLINE") continue;
    ref::Spline s;
    int dim = tok[i - 1] == "CURVE" ? 1 : tok[i - 1] == "SURFACE" ? 2 : tok[i - 1] == "TRIVAR" ? 3 : 0;
    if (!dim || tok[i - 2] != "[" || i + 2 * dim + 1 >= tok.size()) return "header";
    std::vector<int> n;
    int total = 1;
    for (int d = 0; d < dim; ++d) { n.push_back(atoi(tok[i + 1 + d].c_str())); total *= n.back(); s.deg.push_back(atoi(tok[i + 1 + dim + d].c_str()) - 1); }
    std::string type = tok[i + 1 + 2 * dim];
    s.rational = type[0] == 'P';
    if (type[0] != 'P' && type[0] != 'E') return "point type " + type;
    s.pdim = atoi(type.c_str() + 1);
    size_t j = i + 2 + 2 * dim;
    for (int d = 0; d < dim; ++d) {
      if (tok[j] != "[" || tok[j + 1] != "KV") return "knot vector";
      Knots k;
      for (j += 2; j < tok.size() && tok[j] != "]"; ++j) k.push_back(atof(tok[j].c_str()));
      ++j;
      if ((int) k.size() != n[d] + s.deg[d] + 1) return "number of knots";
      s.U.push_back(k);
    }
    for (int p = 0; p < total; ++p) {
      if (tok[j] != "[") return "control points";
      std::vector<R> v;
      for (++j; j < tok.size() && tok[j] != "]"; ++j) v.push_back(atof(tok[j].c_str()));
      ++j;
      if ((int) v.size() != s.pdim + s.rational) return mc::S("point %d has %d values", p, (int) v.size());
      R w = 1;
      if (s.rational) { w = v[0]; v.erase(v.begin()); }
      for (R &x : v) x /= w;
      s.w.push_back(w);
      s.cp.push_back(v);
    }
    if (tok[j] != "]") return "text after the last control point";
    out->push_back(s);
  }
  return "";
}
inline std::string ParseIges(const std::string &file, List *out) {
  std::istringstream in(Slurp(file));
  std::string line, seen;
  std::map<char, std::vector<std::string>> sec;
  while (std::getline(in, line)) {
    if (line.size() != 80) return mc::S("line of %d columns", (int) line.size());
    char c = line[72];
    if (!seen.empty() && std::string("SGDPT").find(c) < std::string("SGDPT").find(seen.back())) return "order of sections";
    if (seen.empty() || seen.back() != c) seen += c;
    sec[c].push_back(line);
    if (atoi(line.substr(73).c_str()) != (int) sec[c].size()) return mc::S("sequence number in section %c", c);
  }
  if (sec['T'].size() != 1 || sec['S'].empty() || sec['G'].empty()) return "sections";
  const char order[] = "SGDP";
  for (int i = 0; i < 4; ++i) {
    std::string f = sec['T'][0].substr(8 * i, 8);
    if (f[0] != order[i] || atoi(f.c_str() + 1) != (int) sec[order[i]].size()) return "terminate section";
  }
  auto &D = sec['D'], &P = sec['P'];
  if (D.size() % 2) return "odd number of directory lines";
  size_t used = 0;
  for (size_t k = 0; k < D.size() / 2; ++k) {
    auto F = [&](int l, int f) { return atoi(D[2 * k + l].substr(8 * f, 8).c_str()); };
    int type = F(0, 0), first = F(0, 1), count = F(1, 3);
    if (type != F(1, 0) || (type != 126 && type != 128)) return "entity type";
    if (first != (int) used + 1 || count < 1 || first + count - 1 > (int) P.size()) return "parameter pointers";
    std::string text;
    for (int i = 0; i < count; ++i) {
      text += P[first - 1 + i].substr(0, 64);
      if (atoi(P[first - 1 + i].substr(64, 8).c_str()) != (int) (2 * k + 1)) return "back pointer of a parameter line";
    }
    used += count;
    size_t semi = text.find(';');
    if (semi == std::string::npos || text.find_first_not_of(' ', semi + 1) != std::string::npos) return "record delimiter";
    std::vector<double> v;
    std::string cur;
    for (char c : text.substr(0, semi) + ",") {
      if (c != ',') { cur += c; continue; }
      char *e;
      v.push_back(strtod(cur.c_str(), &e));
      while (*e == ' ') ++e;
      if (*e || e == cur.c_str()) return "number '" + cur + "'";
      cur.clear();
    }
    ref::Spline s;
    int dim = type == 126 ? 1 : 2;
    size_t p = 0;
    if ((int) v.size() < 10 || v[p++] != type) return "entity number";
    std::vector<int> n;
    for (int d = 0; d < dim; ++d) n.push_back(v[p++] + 1);
    for (int d = 0; d < dim; ++d) s.deg.push_back(v[p++]);
    p += 2;
    s.rational = v[p++] == 0;
    p += dim;  // periodic flags
    int total = 1, need = 0;
    for (int d = 0; d < dim; ++d) { total *= n[d]; need += n[d] + s.deg[d] + 1; }
    if (v.size() < p + need + 4 * total) return mc::S("%d parameters", (int) v.size());
    for (int d = 0; d < dim; ++d) { s.U.push_back(Knots(v.begin() + p, v.begin() + p + n[d] + s.deg[d] + 1)); p += s.U.back().size(); }
    for (int i = 0; i < total; ++i) s.w.push_back(v[p++]);
    s.pdim = 3;
    for (int i = 0; i < total; ++i) { s.cp.push_back({v[p], v[p + 1], v[p + 2]}); p += 3; }
    if (!s.rational) for (R w : s.w) if (w != 1) return "weights of a polynomial spline";
    out->push_back(s);
  }
  if (used != P.size()) return "unused parameter lines";
  return "";
}

// ---- alphabet
inline R Value(int mode, int i, int c) {
  static const double m2[] = {0, -0.5, 12345.678901, 1e-5, -2.5e-3, 1e7, 123456.125, -1, 5e3, 0.1, -1e-6, 700};
  R g = sl::Coord(i, c, mode);
  if (mode == 0) return g;
  if (mode == 1) return static_cast<double>(g / 3 + 0.001);
  return m2[(i * 5 + c * 3 + 1) % 12];
}
inline ref::Spline One(const std::vector<int> &deg, int kmode, int pdim, bool rat, int vmode) {
  std::vector<Knots> U;
  for (size_t d = 0; d < deg.size(); ++d) {
    int p = deg[d], km = (kmode + static_cast<int>(d)) % 4;
    const double A[] = {0, -3, 0.1, 100}, L[] = {1, 2, 0.7, 1000};
    std::vector<double> br = km == 0 ? std::vector<double>{} : km == 1 ? std::vector<double>{0.5} : km == 2 ? std::vector<double>{1.0 / 3} : std::vector<double>{0.25, 0.75};
    if (deg.size() > 2 && km == 3) br = {0.25};
    U.push_back(sl::Clamped(p, br, 1, A[km], L[km]).back());
  }
  ref::Spline s = sl::Build(deg, U, pdim, rat, 0);
  for (size_t i = 0; i < s.cp.size(); ++i) {
    for (int c = 0; c < pdim; ++c) s.cp[i][c] = Value(vmode, static_cast<int>(i), c);
    if (rat && vmode == 1) s.w[i] = static_cast<double>(1 / (R) (1 + i % 3) + 0.01L);
  }
  return s;
}
inline List Pool(int maxdim, int maxpdim, bool thorough) {
  List r;
  for (int dim = 1; dim <= maxdim; ++dim) {
    int pmax = dim == 1 ? 4 : dim == 2 ? 3 : dim == 3 ? 2 : 1;
    if (thorough && dim >= 3) ++pmax;
    std::vector<int> deg(dim, 1);
    while (true) {
      for (int km = 0; km < 4; ++km)
        for (int pd = 1; pd <= maxpdim; ++pd)
          for (int rat = 0; rat < 2; ++rat)
            for (int vm = 0; vm < 3; ++vm) {
              if (!thorough && dim >= 3 && (km + pd + vm) % 3 != 0) continue;
              r.push_back(One(deg, km, pd, rat, vm));
            }
      int d = 0;
      while (d < dim && ++deg[d] > pmax) deg[d++] = 1;
      if (d == dim) break;
    }
  }
  return r;
}
inline std::string Str(const List &l) { std::string r; for (auto &s : l) r += "{" + sl::Str(s) + "}"; return r; }
}  // namespace fmt
#endif

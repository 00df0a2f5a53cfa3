// Glue between the reference model and the library's public API, and the alphabets the harnesses enumerate.
#ifndef VERIF_SL_H_
#define VERIF_SL_H_
#include <memory>
#include "b_spline.h"
#include "nurbs.h"
#include "mc.h"
#include "ref.h"

namespace sl {
using ref::Knots;
using ref::R;

inline std::vector<ParamCoord> PC(const Knots &k) {
  std::vector<ParamCoord> r;
  for (double x : k) r.push_back(ParamCoord{x});
  return r;
}
inline std::shared_ptr<baf::KnotVector> KV(const Knots &k) { return std::make_shared<baf::KnotVector>(PC(k)); }
inline Knots Raw(const baf::KnotVector &k) {
  Knots r;
  for (size_t i = 0; i < k.GetNumberOfKnots(); ++i) r.push_back(k.GetKnot(i).get());
  return r;
}
template<int D> std::array<ParamCoord, D> At(const std::vector<double> &t) {
  std::array<ParamCoord, D> r;
  for (int i = 0; i < D; ++i) r[i] = ParamCoord{t[i]};
  return r;
}
template<int D> std::array<int, D> Arr(const std::vector<int> &v) {
  std::array<int, D> r;
  for (int i = 0; i < D; ++i) r[i] = v[i];
  return r;
}
inline std::vector<int> Dims(int n) { std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back(i); return r; }

template<int D> std::array<std::shared_ptr<baf::KnotVector>, D> Kvs(const ref::Spline &s) {
  std::array<std::shared_ptr<baf::KnotVector>, D> r;
  for (int d = 0; d < D; ++d) r[d] = KV(s.U[d]);
  return r;
}
template<int D> std::array<Degree, D> Degs(const ref::Spline &s) {
  std::array<Degree, D> r;
  for (int d = 0; d < D; ++d) r[d] = Degree{s.deg[d]};
  return r;
}
inline std::vector<baf::ControlPoint> Cps(const ref::Spline &s) {
  std::vector<baf::ControlPoint> r;
  for (auto &p : s.cp) r.push_back(baf::ControlPoint(std::vector<double>(p.begin(), p.end())));
  return r;
}
inline std::vector<double> Ws(const ref::Spline &s) { return std::vector<double>(s.w.begin(), s.w.end()); }
template<int D> std::shared_ptr<spl::BSpline<D>> MakeB(const ref::Spline &s) {
  return std::make_shared<spl::BSpline<D>>(Kvs<D>(s), Degs<D>(s), Cps(s));
}
template<int D> std::shared_ptr<spl::NURBS<D>> MakeN(const ref::Spline &s) {
  return std::make_shared<spl::NURBS<D>>(Kvs<D>(s), Degs<D>(s), Cps(s), Ws(s));
}
template<int D> std::shared_ptr<spl::Spline<D>> Make(const ref::Spline &s) {
  if (s.rational) return MakeN<D>(s);
  return MakeB<D>(s);
}
template<int D> std::vector<int> Unlin(int lin, const std::array<int, D> &n) {
  std::vector<int> r(D);
  for (int d = 0; d < D; ++d) { r[d] = lin % n[d]; lin /= n[d]; }
  return r;
}
// Reads the whole observable representation of a library spline. If the pieces do not fit together *err says why.
template<int D> ref::Spline Extract(const spl::Spline<D> &s, bool rational, std::string *err) {
  ref::Spline r;
  r.rational = rational;
  err->clear();
  int total = 1;
  auto n = s.GetPointsPerDirection();
  for (int d = 0; d < D; ++d) {
    r.deg.push_back(s.GetDegree(d).get());
    r.U.push_back(Raw(*s.GetKnotVector(d)));
    const Knots &U = r.U.back();
    int p = r.deg.back();
    if (p < 0) { *err = "negative degree"; return r; }
    if (static_cast<int>(U.size()) < 2 * p + 2) { *err = "fewer than 2p+2 knots"; return r; }
    if (static_cast<int>(U.size()) - p - 1 != n[d]) {
      *err = mc::S("direction %d: %d knots, degree %d but %d control points", d, (int) U.size(), p, n[d]);
      return r;
    }
    for (size_t i = 0; i + 1 < U.size(); ++i)
      if (!(U[i] <= U[i + 1])) { *err = mc::S("direction %d: knots not sorted %s", d, mc::Seq(U).c_str()); return r; }
    for (int i = 0; i <= p; ++i)
      if (U[i] != U[0] || U[U.size() - 1 - i] != U.back()) {
        *err = mc::S("direction %d: knots not clamped %s degree %d", d, mc::Seq(U).c_str(), p);
        return r;
      }
    if (!(U[0] < U.back())) { *err = "empty parameter range"; return r; }
    total *= n[d];
  }
  if (s.GetNumberOfControlPoints() != total) {
    *err = mc::S("%d control points stored, grid has %d", s.GetNumberOfControlPoints(), total);
    return r;
  }
  r.pdim = s.GetPointDim();
  for (int i = 0; i < total; ++i) {
    auto idx = Arr<D>(Unlin<D>(i, n));
    baf::ControlPoint c = s.GetControlPoint(idx);
    if (c.GetDimension() != r.pdim) { *err = "control point of wrong dimension"; return r; }
    std::vector<R> p;
    for (int k = 0; k < r.pdim; ++k) {
      p.push_back(c.GetValue(k));
      if (!std::isfinite(c.GetValue(k))) { *err = mc::S("control point %d is not finite", i); return r; }
      if (s.GetControlPoint(idx, k) != c.GetValue(k)) { *err = "coordinate getter disagrees with point getter"; return r; }
    }
    r.cp.push_back(p);
    double w = s.GetWeight(idx);
    if (!std::isfinite(w)) { *err = mc::S("weight %d is not finite", i); return r; }
    r.w.push_back(w);
  }
  return r;
}
// Exact equality of two representations
inline bool Same(const ref::Spline &a, const ref::Spline &b) {
  return a.deg == b.deg && a.U == b.U && a.cp == b.cp && a.w == b.w && a.pdim == b.pdim;
}
inline std::string Str(const ref::Spline &s) {
  std::string r = s.rational ? "nurbs" : "bspline";
  for (int d = 0; d < s.Dim(); ++d) r += mc::S(" p%d", s.deg[d]) + mc::Seq(s.U[d]);
  return r + mc::S(" pd%d", s.pdim);
}

// ---- alphabets ----
// All clamped knot vectors of degree p on [0,1] whose interior knots are the given breakpoints, each with every
// multiplicity 0..maxmult, mapped to [a, a+L].
inline std::vector<Knots> Clamped(int p, const std::vector<double> &breaks, int maxmult, double a = 0, double L = 1) {
  std::vector<Knots> r;
  std::vector<int> m(breaks.size(), 0);
  while (true) {
    Knots k(p + 1, a);
    for (size_t i = 0; i < breaks.size(); ++i) for (int j = 0; j < m[i]; ++j) k.push_back(a + L * breaks[i]);
    for (int j = 0; j <= p; ++j) k.push_back(a + L);
    r.push_back(k);
    size_t i = 0;
    while (i < m.size() && ++m[i] > maxmult) m[i++] = 0;
    if (i == m.size()) break;
  }
  return r;
}
// Generic control points: multiples of 1/8 in about [-2.5,2.5], no two neighbouring points alike, not symmetric.
inline double Coord(int i, int c, int seed) {
  unsigned h = static_cast<unsigned>(i * 7919 + c * 104729 + seed * 1299709 + 12345);
  h ^= h >> 7; h *= 2654435761u; h ^= h >> 13;
  return static_cast<int>(h % 41) / 8.0 - 2.5;
}
inline double Weight(int i, int seed) {
  static const double w[] = {1, 0.5, 2, 0.75, 1.5, 3, 0.25};
  unsigned h = static_cast<unsigned>(i * 31 + seed * 17 + 7);
  h *= 2654435761u; h ^= h >> 15;
  return w[h % 7];
}
inline ref::Spline Build(const std::vector<int> &deg, const std::vector<Knots> &U, int pdim, bool rational,
                         int seed = 0) {
  ref::Spline s;
  s.deg = deg; s.U = U; s.pdim = pdim; s.rational = rational;
  int n = s.Total();
  for (int i = 0; i < n; ++i) {
    std::vector<R> p;
    for (int c = 0; c < pdim; ++c) p.push_back(Coord(i, c, seed));
    s.cp.push_back(p);
    s.w.push_back(rational ? Weight(i, seed) : 1.0);
  }
  return s;
}
// Cartesian product of per-direction probe points
inline std::vector<std::vector<double>> Grid(const std::vector<std::vector<double>> &p) {
  std::vector<std::vector<double>> r{{}};
  for (auto &v : p) {
    std::vector<std::vector<double>> n;
    for (auto &x : r) for (double y : v) { n.push_back(x); n.back().push_back(y); }
    r = n;
  }
  return r;
}
}  // namespace sl
#endif

// C30 isogeometric elements, basis functions, boundaries; C31 assembled systems, solutions and their output.
// The example code has recorded defects (F29 to F34 in known_findings.jsonl) that are not repaired. Every comparison is
// with the right value first; a deviation is reported as a known one only if it is, to rounding, the value the recorded
// defect leads to, so that any other deviation is still a violation.
#include "five_point_gauss_legendre.h"
#include "four_point_gauss_legendre.h"
#include "one_point_gauss_legendre.h"
#include "poisson_problem.h"
#include "solution_vtk_writer.h"
#include "three_point_gauss_legendre.h"
#include "two_point_gauss_legendre.h"
#include <fstream>
#include <sys/resource.h>
#include <sstream>
#include "sl.h"
using namespace mc;
using sl::Knots;
using ref::R;
typedef std::vector<R> Vec;
typedef std::vector<Vec> Mat;

// Gauss-Legendre points from their definition: roots of the Legendre polynomial, by Newton's method
static void Gauss(int n, Vec *x, Vec *w) {
  for (int i = n - 1; i >= 0; --i) {
    R z = std::cos(std::acos(-1.0L) * (i + 0.75L) / (n + 0.5L)), d = 1;
    for (int it = 0; it < 60; ++it) {
      R p0 = 1, p1 = z;
      for (int k = 2; k <= n; ++k) { R p2 = ((2 * k - 1) * z * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
      d = n * (z * p1 - p0) / (z * z - 1);
      z -= p1 / d;
    }
    if (n == 1) { z = 0; d = 1; }
    x->push_back(z);
    w->push_back(n == 1 ? 2 : 2 / ((1 - z * z) * d * d));
  }
}
static iga::itg::IntegrationRule Rule(int n) {
  if (n == 1) return iga::itg::OnePointGaussLegendre();
  if (n == 2) return iga::itg::TwoPointGaussLegendre();
  if (n == 3) return iga::itg::ThreePointGaussLegendre();
  if (n == 4) return iga::itg::FourPointGaussLegendre();
  return iga::itg::FivePointGaussLegendre();
}
// One integration point of the reference
struct Pt {
  std::vector<double> t;
  R weight, jac;
  std::vector<int> global;  // in local order, first direction fastest
  Vec val;
  std::vector<Vec> der, phys;  // [direction][local]
  std::vector<Vec> der29, phys29;  // the same as F29 has them
};
static R Det(Mat m) {
  int n = m.size();
  R d = 1;
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int r = c; r < n; ++r) if (std::fabs(m[r][c]) > std::fabs(m[p][c])) p = r;
    if (m[p][c] == 0) return 0;
    if (p != c) { std::swap(m[p], m[c]); d = -d; }
    d *= m[c][c];
    for (int r = c + 1; r < n; ++r) { R f = m[r][c] / m[c][c]; for (int k = c; k < n; ++k) m[r][k] -= f * m[c][k]; }
  }
  return d;
}
static Vec Solve(Mat m, Vec b) {
  int n = m.size();
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int r = c; r < n; ++r) if (std::fabs(m[r][c]) > std::fabs(m[p][c])) p = r;
    std::swap(m[p], m[c]); std::swap(b[p], b[c]);
    for (int r = c + 1; r < n; ++r) { R f = m[r][c] / m[c][c]; if (f == 0) continue; for (int k = c; k < n; ++k) m[r][k] -= f * m[c][k]; b[r] -= f * b[c]; }
  }
  for (int c = n - 1; c >= 0; --c) { for (int k = c + 1; k < n; ++k) b[c] -= m[c][k] * b[k]; b[c] /= m[c][c]; }
  return b;
}
static std::vector<std::pair<double, double>> Elements(const Knots &U) {
  std::vector<std::pair<double, double>> r;
  for (size_t i = 0; i + 1 < U.size(); ++i) if (U[i] < U[i + 1]) r.push_back({U[i], U[i + 1]});
  return r;
}
static std::vector<int> Split(int lin, const std::vector<int> &n) { std::vector<int> r; for (int k : n) { r.push_back(lin % k); lin /= k; } return r; }
static int Prod(const std::vector<int> &n) { int r = 1; for (int k : n) r *= k; return r; }

// The reference integration points of element e (first direction fastest everywhere)
static std::vector<Pt> Points(const ref::Spline &s, int e, int n, bool physical) {
  int D = s.Dim();
  std::vector<int> ne, nq(D, n), nl;
  for (int d = 0; d < D; ++d) { ne.push_back(Elements(s.U[d]).size()); nl.push_back(s.deg[d] + 1); }
  auto ei = Split(e, ne);
  Vec gx, gw;
  Gauss(n, &gx, &gw);
  std::vector<Pt> r;
  for (int q = 0; q < Prod(nq); ++q) {
    auto qi = Split(q, nq);
    Pt p;
    p.weight = 1;
    std::vector<int> span;
    R ref = 1;
    std::vector<Vec> b(D), db(D);
    for (int d = 0; d < D; ++d) {
      auto el = Elements(s.U[d])[ei[d]];
      R t = ((R) el.first + el.second) / 2 + ((R) el.second - el.first) / 2 * gx[qi[d]];
      p.t.push_back((double) t);
      p.weight *= gw[qi[d]];
      ref *= ((R) el.second - el.first) / 2;
      int k = ref::Span(s.U[d], (el.first + el.second) / 2);
      span.push_back(k);
      for (int i = k - s.deg[d]; i <= k; ++i) {
        auto poly = ref::BasisPoly(s.U[d], i, s.deg[d], k);
        b[d].push_back(ref::PolyDer(poly, t - s.U[d][k], 0));
        db[d].push_back(ref::PolyDer(poly, t - s.U[d][k], 1));
      }
    }
    R W = 0;
    Vec dW(D, 0);
    p.der.assign(D, {});
    for (int l = 0; l < Prod(nl); ++l) {
      auto li = Split(l, nl);
      int g = 0, stride = 1;
      R v = 1;
      for (int d = 0; d < D; ++d) { g += (span[d] - s.deg[d] + li[d]) * stride; stride *= s.N(d); v *= b[d][li[d]]; }
      p.global.push_back(g);
      p.val.push_back(v * s.w[g]);
      W += p.val.back();
      for (int d = 0; d < D; ++d) {
        R dv = s.w[g];
        for (int c = 0; c < D; ++c) dv *= c == d ? db[c][li[c]] : b[c][li[c]];
        p.der[d].push_back(dv);
        dW[d] += dv;
      }
    }
    p.der29 = p.der;
    for (size_t l = 0; l < p.val.size(); ++l) {
      // F29: only the first D functions are divided by the weight function, and those with a wrong quotient rule
      if ((int) l < D) for (int d = 0; d < D; ++d) p.der29[d][l] = (p.der[d][l] * W - p.val[l] / W * dW[d]) / (W * W);
      for (int d = 0; d < D; ++d) p.der[d][l] = (p.der[d][l] * W - p.val[l] * dW[d]) / (W * W);
      p.val[l] /= W;
    }
    // Jacobian of the map, and the physical derivatives by the inverse of its first D rows
    Mat J(s.pdim, Vec(D, 0));
    for (int c = 0; c < s.pdim; ++c) for (int d = 0; d < D; ++d) for (size_t l = 0; l < p.val.size(); ++l) J[c][d] += p.der[d][l] * s.cp[p.global[l]][c];
    Mat M(D, Vec(D, 0));
    for (int a = 0; a < D; ++a) for (int c = 0; c < D; ++c) for (int k = 0; k < s.pdim; ++k) M[a][c] += J[k][a] * J[k][c];
    p.jac = std::sqrt(std::fabs(Det(M))) * ref;
    if (physical) {
      for (int bad = 0; bad < 2; ++bad) {
        auto &der = bad ? p.der29 : p.der, &phys = bad ? p.phys29 : p.phys;
        phys.assign(D, Vec(p.val.size()));
        for (size_t l = 0; l < p.val.size(); ++l) {  // J^T g = dR/dxi
          Mat T(D, Vec(D));
          Vec rhs(D);
          for (int a = 0; a < D; ++a) { rhs[a] = der[a][l]; for (int c = 0; c < D; ++c) T[a][c] = J[c][a]; }
          Vec g = Solve(T, rhs);
          for (int d = 0; d < D; ++d) phys[d][l] = g[d];
        }
      }
    }
    r.push_back(p);
  }
  return r;
}
// A regular geometry: a Greville grid, slightly and irregularly distorted. curl lets the last coordinate (beyond the
// parametric ones) vary.
static R Greville(const Knots &U, int p, int i) { R g = 0; for (int j = 1; j <= p; ++j) g += U[i + j]; return p ? g / p : (U[i] + U[i + 1]) / 2; }
static ref::Spline Geometry(const std::vector<int> &deg, const std::vector<Knots> &U, int pdim, int wmode, bool curl, int seed) {
  ref::Spline s = sl::Build(deg, U, pdim, true, seed);
  std::vector<int> n;
  for (size_t d = 0; d < deg.size(); ++d) n.push_back(s.N(d));
  for (int i = 0; i < s.Total(); ++i) {
    auto idx = Split(i, n);
    for (int c = 0; c < pdim; ++c) {
      if (c < (int) deg.size()) {
        double L = U[c].back() - U[c][0];
        s.cp[i][c] = (double) (Greville(U[c], deg[c], idx[c]) * (c + 1) + 0.15 * L / n[c] * sl::Coord(i, c, seed) / 2.5);
      } else s.cp[i][c] = curl ? sl::Coord(i, c, seed) * 0.2 : 0;
    }
    if (wmode == 0) s.w[i] = 1;
    if (wmode == 2) s.w[i] = 2.5;
    if (wmode == 1) s.w[i] = 1 + 0.25 * (sl::Weight(i, seed) - 1);
  }
  return s;
}

// ---------------------------------------------------------------- C30
// The restriction of s to a side, and the control points on it. f30: with the knots and degrees of the first directions.
static ref::Spline Restriction(const ref::Spline &s, int d, int side, bool f30, std::vector<int> *conn) {
  ref::Spline r;
  std::vector<int> n;
  for (int c = 0; c < s.Dim(); ++c) n.push_back(s.N(c));
  r.pdim = s.pdim; r.rational = true;
  for (int c = 0, m = 0; c < s.Dim(); ++c) if (c != d) { int k = f30 ? m : c; r.deg.push_back(s.deg[k]); r.U.push_back(s.U[k]); ++m; }
  conn->clear();
  for (int i = 0; i < s.Total(); ++i)
    if (Split(i, n)[d] == (side ? n[d] - 1 : 0)) { conn->push_back(i); r.cp.push_back(s.cp[i]); r.w.push_back(s.w[i]); }
  return r;
}
// With F30 the control points of some side do not fit the knots and degrees it is given, and nothing is constructed.
static bool Refused30(const ref::Spline &s) {
  std::vector<int> conn;
  for (int d = 0; d < s.Dim(); ++d) {
    auto r = Restriction(s, d, 0, true, &conn);
    if (r.Total() != (int) conn.size()) return true;
  }
  return false;
}
template<int D> static void Boundary(const ref::Spline &s, const std::shared_ptr<spl::NURBS<D>> &sp) {
  if constexpr (D > 1) {
    iga::LinearEquationAssembler<D> a(sp);
    std::array<std::array<std::shared_ptr<spl::NURBS<D - 1>>, 2>, D> bs;
    try { bs = a.GetBoundarySplines(); }
    catch (const std::exception &x) {
      if (Refused30(s)) Known("F30", "the boundary splines could not be constructed: %s", x.what());
      else Fail("boundary splines: %s", x.what());
      return;
    }
    auto bc = a.GetBoundarySplineConnectivity();
    for (int d = 0; d < D; ++d)
      for (int side = 0; side < 2; ++side) {
        G().transitions++;
        std::vector<int> conn;
        ref::Spline want = Restriction(s, d, side, false, &conn);
        if (bc[d][side] != conn) { Fail("control points of side %d in direction %d: %s", side, d, Seq(bc[d][side]).c_str()); continue; }
        std::string err;
        ref::Spline got = sl::Extract<D - 1>(*bs[d][side], true, &err);
        if (!err.empty()) { Fail("boundary spline %d %d: %s", d, side, err.c_str()); continue; }
        if (sl::Same(got, want)) continue;
        if (sl::Same(got, Restriction(s, d, side, true, &conn))) Known("F30", "the boundary spline of side %d in direction %d has the knots of another direction", side, d);
        else Fail("the boundary spline of side %d in direction %d is not the restriction", side, d);
      }
  }
}
template<int D> static void Handler(const ref::Spline &s, const std::string &name, int maxrule) {
  if (!Begin("elements " + name + " " + sl::Str(s))) return;
  G().states++;
  auto sp = sl::MakeN<D>(s);
  iga::elm::ElementGenerator<D> gen(sp);
  iga::ConnectivityHandler<D> con(sp);
  iga::BasisFunctionHandler<D> baf(sp);
  iga::MappingHandler<D> map(sp);
  std::vector<int> ne, nl;
  for (int d = 0; d < D; ++d) {
    auto el = Elements(s.U[d]);
    ne.push_back(el.size());
    nl.push_back(s.deg[d] + 1);
    auto got = gen.GetElementList(d);
    bool ok = got.size() == el.size();
    for (size_t i = 0; ok && i < el.size(); ++i) ok = got[i].GetLowerBound().get() == el[i].first && got[i].GetUpperBound().get() == el[i].second;
    if (!ok) { Fail("elements of direction %d", d); return; }
  }
  int total = Prod(ne);
  if (gen.GetNumberOfElements() != total) { Fail("%d elements, want %d", gen.GetNumberOfElements(), total); return; }
  for (int e = 0; e < total; ++e) {
    auto ei = Split(e, ne);
    std::array<int, D> arr = sl::Arr<D>(ei);
    if (gen.GetElementIndices(e) != arr || gen.Get1DElementIndex(arr) != e) Fail("index of element %d", e);
    for (int q = 0; q < 3; ++q) {
      std::vector<double> t;
      for (int d = 0; d < D; ++d) { auto el = Elements(s.U[d])[ei[d]]; t.push_back(el.first + (el.second - el.first) * q * 0.4375); }
      G().transitions++;
      if (gen.GetElementNumberAtParamCoord(sl::At<D>(t)) != e) Fail("element at %s", Seq(t).c_str());
    }
    for (int n = 1; n <= maxrule; ++n) {
      auto rule = Rule(n);
      auto want = Points(s, e, n, s.pdim == D || n == 2);
      auto v = baf.EvaluateAllElementNonZeroNURBSBasisFunctions(e, rule);
      auto dv = baf.EvaluateAllElementNonZeroNURBSBasisFunctionDerivatives(e, rule);
      if (v.size() != want.size() || dv.size() != want.size()) { Fail("rule %d: %d integration points", n, (int) v.size()); continue; }
      std::vector<iga::elm::ElementIntegrationPoint<D>> pv;
      if (s.pdim == D) pv = baf.EvaluateAllElementNonZeroNURBSBafDerivativesPhysical(e, rule);
      for (size_t q = 0; q < want.size(); ++q) {
        const Pt &p = want[q];
        G().transitions++;
        int L = p.val.size();
        if (v[q].GetNumberOfNonZeroBasisFunctions() != L || dv[q].GetNumberOfNonZeroBasisFunctionDerivatives(0) != L) { Fail("number of functions"); continue; }
        if (!Near(v[q].GetWeight(), p.weight, 1) || !Near(dv[q].GetWeight(), p.weight, 1)) Fail("element %d rule %d point %d: weight", e, n, (int) q);
        if (!Near(v[q].GetJacobianDeterminant(), p.jac, p.jac, 1e-9L) || !Near(dv[q].GetJacobianDeterminant(), p.jac, p.jac, 1e-9L)) Fail("element %d rule %d point %d: Jacobian determinant %g, want %Lg", e, n, (int) q, v[q].GetJacobianDeterminant(), p.jac);
        for (int l = 0; l < L; ++l) {
          if (con.GetGlobalIndex(e, l) - 1 != p.global[l]) Fail("element %d function %d: global index %d, want %d", e, l, con.GetGlobalIndex(e, l), p.global[l] + 1);
          if (!Near(v[q].GetBasisFunctionValue(l), p.val[l], 1)) Fail("element %d rule %d point %d function %d: %g, want %Lg", e, n, (int) q, l, v[q].GetBasisFunctionValue(l), p.val[l]);
          for (int d = 0; d < D; ++d) {
            R sc = 0;
            for (R x : p.der[d]) sc += std::fabs(x);
            if (Near(dv[q].GetBasisFunctionDerivativeValue(l, d), p.der[d][l], sc)) {}
            else if (Near(dv[q].GetBasisFunctionDerivativeValue(l, d), p.der29[d][l], sc)) Known("F29", "derivative %d of function %d is %g, want %Lg", d, l, dv[q].GetBasisFunctionDerivativeValue(l, d), p.der[d][l]);
            else Fail("element %d rule %d point %d function %d: derivative %d is %g, want %Lg", e, n, (int) q, l, d, dv[q].GetBasisFunctionDerivativeValue(l, d), p.der[d][l]);
            if (!pv.empty()) {
              sc = 0;
              for (R x : p.phys[d]) sc += std::fabs(x);
              if (Near(pv[q].GetBasisFunctionDerivativeValue(l, d), p.phys[d][l], sc, 1e-8L)) {}
              else if (Near(pv[q].GetBasisFunctionDerivativeValue(l, d), p.phys29[d][l], sc, 1e-8L)) Known("F29", "physical derivative %d of function %d is %g, want %Lg", d, l, pv[q].GetBasisFunctionDerivativeValue(l, d), p.phys[d][l]);
              else Fail("element %d rule %d point %d function %d: physical derivative %d is %g, want %Lg", e, n, (int) q, l, d, pv[q].GetBasisFunctionDerivativeValue(l, d), p.phys[d][l]);
            }
          }
        }
      }
    }
  }
  Boundary<D>(s, sp);
  G().traces++;
}
static std::vector<std::vector<Knots>> KnotPool(int p, bool thorough) {
  std::vector<std::vector<Knots>> r;
  r.push_back(sl::Clamped(p, {0.25, 0.5}, std::min(p, 2)));
  r.push_back(sl::Clamped(p, {0.375, 0.75}, thorough ? p : 1, -1.5, 4));
  r.push_back(sl::Clamped(p, {0.125, 0.25, 0.5}, 1, 0.1, 0.7));
  return r;
}
static void C30() {
  bool T = Thorough();
  // the rules themselves: exact for every monomial up to degree 2 n - 1, and not beyond
  for (int n = 1; n <= 5; ++n) {
    if (!Begin(S("rule with %d points", n))) continue;
    G().states++; G().traces++;
    auto rule = Rule(n);
    if (rule.GetNumberOfIntegrationPoints() != n) Fail("number of points");
    for (int k = 0; k <= 2 * n; ++k) {
      R sum = 0;
      for (auto &p : rule.GetIntegrationPoints()) sum += p.GetWeight() * std::pow((R) p.GetCoordinate(), k);
      R want = k % 2 ? 0 : 2.0L / (k + 1);
      G().transitions++;
      if (k < 2 * n ? !Near((double) sum, want, 1, 1e-14L) : std::fabs(sum - want) < 1e-3) Fail("integral of x^%d is %Lg, want %Lg", k, sum, want);
    }
    for (int i = 0; i < n; ++i) if (rule.GetCoordinate(i) != rule.GetIntegrationPoints()[i].GetCoordinate()) Fail("coordinate %d", i);
  }
  int seed = 0;
  for (int p = 1; p <= (T ? 5 : 4); ++p)
    for (auto &pool : KnotPool(p, T))
      for (auto &U : pool)
        for (int w = 0; w < 3; ++w)
          for (int pd = 1; pd <= 3; ++pd) Handler<1>(Geometry({p}, {U}, pd, w, true, ++seed), S("#%d", seed), 5);
  for (int p = 1; p <= 3; ++p) for (int q = 1; q <= 3; ++q)
    for (int k = 0; k < (T ? 9 : 4); ++k)
      for (int w = 0; w < 3; ++w)
        for (int pd = 2; pd <= 3; ++pd) {
          auto A = KnotPool(p, T)[k % 3], B = KnotPool(q, T)[(k / 3 + k + 1) % 3];
          Handler<2>(Geometry({p, q}, {A[(k * 5 + w) % A.size()], B[(k * 3 + 1) % B.size()]}, pd, w, true, ++seed), S("#%d", seed), T ? 5 : 3);
        }
  for (int p = 1; p <= 2; ++p) for (int q = 1; q <= 2; ++q) for (int r = 1; r <= 2; ++r)
    for (int w = 1; w < (T ? 3 : 2); ++w) {
      auto A = sl::Clamped(p, {0.5}, 1), B = sl::Clamped(q, {0.25, 0.5}, 1, -1, 3), C = sl::Clamped(r, {0.375}, r, 2, 0.5);
      Handler<3>(Geometry({p, q, r}, {A.back(), B[p % 2], C.back()}, 3, w, true, ++seed), S("#%d", seed), T ? 3 : 2);
      Handler<3>(Geometry({p, q, r}, {A[0], B.back(), C[0]}, 3, w, true, ++seed), S("#%d", seed), T ? 3 : 2);
    }
}

// ---------------------------------------------------------------- C31
struct System { Mat A, M; Vec b; };
static System Assemble(const ref::Spline &s, int n, const Vec &src, R cond, bool f29) {
  int N = s.Total(), ne = 1;
  System r{Mat(N, Vec(N, 0)), Mat(N, Vec(N, 0)), Vec(N, 0)};
  for (int d = 0; d < s.Dim(); ++d) ne *= Elements(s.U[d]).size();
  for (int e = 0; e < ne; ++e)
    for (auto &p : Points(s, e, n, true)) {
      R f = 0, w = p.weight * p.jac;
      int L = p.val.size();
      for (int l = 0; l < L; ++l) f += p.val[l] * src[p.global[l]];
      for (int l = 0; l < L; ++l) {
        r.b[p.global[l]] += p.val[l] * f * w;
        for (int m = 0; m < L; ++m) {
          R g = 0;
          for (auto &d : f29 ? p.phys29 : p.phys) g += d[l] * d[m];
          r.A[p.global[l]][p.global[m]] += g * w * cond;
          r.M[p.global[l]][p.global[m]] += p.val[l] * p.val[m] * w;
        }
      }
    }
  return r;
}
static R Max(const Mat &m) { R r = 0; for (auto &v : m) for (R x : v) r = std::max(r, std::fabs(x)); return r; }
static R Max(const Vec &v) { R r = 0; for (R x : v) r = std::max(r, std::fabs(x)); return r; }
static std::string Cmp(const arma::dmat &g, const Mat &w) {
  if (g.n_rows != w.size() || g.n_cols != w.size()) return "size";
  R sc = Max(w);
  for (size_t i = 0; i < w.size(); ++i) for (size_t j = 0; j < w.size(); ++j)
    if (!(std::fabs(g(i, j) - w[i][j]) <= 1e-9L * sc)) return S("entry %d,%d is %g, want %Lg", (int) i, (int) j, g(i, j), w[i][j]);
  return "";
}
static std::string Cmp(const arma::dvec &g, const Vec &w, R rel = 1e-9L) {
  if (g.n_elem != w.size()) return "size";
  R sc = Max(w) + 1e-12L;
  for (size_t i = 0; i < w.size(); ++i) if (!(std::fabs(g(i) - w[i]) <= rel * sc)) return S("entry %d is %g, want %Lg", (int) i, g(i), w[i]);
  return "";
}
static void Constrain(const ref::Spline &s, Mat *A, Vec *b, const Vec &value) {
  std::vector<int> n;
  for (int d = 0; d < s.Dim(); ++d) n.push_back(s.N(d));
  int k = 0;
  for (int i = 0; i < s.Total(); ++i) {
    auto idx = Split(i, n);
    bool on = false;
    for (int d = 0; d < s.Dim(); ++d) on |= idx[d] == 0 || idx[d] == n[d] - 1;
    if (!on) continue;
    (*A)[i].assign(s.Total(), 0);
    (*A)[i][i] = 1;
    (*b)[i] = value[k++];
  }
}
template<int D> static void Neumann(const ref::Spline &s, const std::shared_ptr<spl::NURBS<D>> &sp, int n) {
  if constexpr (D > 1) {
    std::array<std::array<std::shared_ptr<arma::dvec>, 2>, D> cp;
    Vec want[2] = {Vec(s.Total(), 0), Vec(s.Total(), 0)};
    for (int f30 = 0; f30 < 2; ++f30)
      for (int d = 0; d < D; ++d)
        for (int side = 0; side < 2; ++side) {
          std::vector<int> conn;
          ref::Spline b = Restriction(s, d, side, f30, &conn);
          if (b.Total() != (int) conn.size()) continue;
          Vec src;
          cp[d][side] = std::make_shared<arma::dvec>(conn.size(), arma::fill::zeros);
          for (size_t i = 0; i < conn.size(); ++i) { (*cp[d][side])(i) = sl::Coord(i, d, 3 + side); src.push_back((*cp[d][side])(i)); }
          int ne = 1;
          for (int c = 0; c < D - 1; ++c) ne *= Elements(b.U[c]).size();
          for (int e = 0; e < ne; ++e)
            for (auto &p : Points(b, e, n, false)) {
              R f = 0;
              for (size_t l = 0; l < p.val.size(); ++l) f += p.val[l] * src[p.global[l]];
              for (size_t l = 0; l < p.val.size(); ++l) want[f30][conn[p.global[l]]] += p.val[l] * f * p.weight * p.jac;
            }
        }
    iga::LinearEquationAssembler<D> a(sp);
    auto got = std::make_shared<arma::dvec>(s.Total(), arma::fill::zeros);
    G().transitions++;
    try { a.GetRightSideNeumann(Rule(n), got, cp); }
    catch (const std::exception &x) {
      if (Refused30(s)) Known("F30", "Neumann boundary: %s", x.what());
      else Fail("Neumann boundary: %s", x.what());
      return;
    }
    std::string e = Cmp(*got, want[0]);
    if (e.empty()) return;
    if (!Refused30(s) && Cmp(*got, want[1]).empty()) Known("F30", "Neumann boundary: %s", e.c_str());
    else Fail("Neumann boundary: %s", e.c_str());
  }
}
// The solver as it should be (all flags off) and with the recorded defects: F31 matrix and right hand side are added to
// those of earlier requests, F32 the number of steps is the truncated floating-point quotient.
struct Sim {
  bool f29, f31, f32;
  const ref::Spline *s;
  const System *one;
  Mat A;
  Vec b;
  void Add() {
    if (!f31 || A.empty()) { A = one->A; b = one->b; return; }
    for (size_t i = 0; i < b.size(); ++i) { b[i] += one->b[i]; for (size_t j = 0; j < b.size(); ++j) A[i][j] += one->A[i][j]; }
  }
  Vec Steady() {
    Add();
    Constrain(*s, &A, &b, Vec(b.size(), 0));
    return Solve(A, b);
  }
  std::vector<Vec> Unsteady(double dt, double end, const Vec &dir) {
    Add();
    int N = b.size(), steps = f32 ? (int) (end / dt) : (int) (end / dt + 1e-9);
    std::vector<Vec> u(1, Vec(N, 0));
    for (int i = 1; i <= steps; ++i) {
      Mat L = A;
      Vec r = b;
      for (int a = 0; a < N; ++a) for (int c = 0; c < N; ++c) { L[a][c] += one->M[a][c] / dt; r[a] += one->M[a][c] / dt * u.back()[c]; }
      Constrain(*s, &L, &r, dir);
      u.push_back(Solve(L, r));
    }
    return u;
  }
};
template<int D> static void Problem(const ref::Spline &s, const std::string &name, int n) {
  if (!Begin(S("system %s rule%d ", name.c_str(), n) + sl::Str(s))) return;
  G().states++;
  auto sp = sl::MakeN<D>(s);
  int N = s.Total();
  auto rule = Rule(n);
  std::string e;
  // matrices and right hand side for a general source and conductivity
  Vec src;
  auto asrc = std::make_shared<arma::dvec>(N, arma::fill::zeros);
  for (int i = 0; i < N; ++i) { src.push_back(sl::Coord(i, 2, 9)); (*asrc)(i) = (double) src[i]; }
  iga::LinearEquationAssembler<D> as(sp);
  iga::ElementIntegralCalculator<D> calc(sp);
  for (double cond : {1.0, 2.5}) {
    System w = Assemble(s, n, src, cond, false), w29 = Assemble(s, n, src, cond, true);
    auto A = std::make_shared<arma::dmat>(N, N, arma::fill::zeros);
    auto b = std::make_shared<arma::dvec>(N, arma::fill::zeros);
    as.GetLeftSide(rule, A, calc, cond);
    as.GetRightSide(rule, b, calc, asrc);
    G().transitions += 2;
    if (!(e = Cmp(*A, w.A)).empty()) {
      if (Cmp(*A, w29.A).empty()) { Known("F29", "matrix: %s", e.c_str()); w = w29; }
      else Fail("matrix: %s", e.c_str());
    }
    if (!(e = Cmp(*b, w.b)).empty()) Fail("right hand side: %s", e.c_str());
    Vec dir;
    auto adir = std::make_shared<arma::dvec>(N, arma::fill::zeros);
    for (int i = 0; i < N; ++i) { dir.push_back(sl::Coord(i, 1, 4)); (*adir)(i) = (double) dir[i]; }
    auto A2 = std::make_shared<arma::dmat>(*A);
    auto b2 = std::make_shared<arma::dvec>(*b);
    System z = w;
    as.SetDirichletBC(A2, b2, adir);
    Constrain(s, &w.A, &w.b, dir);
    if (!(e = Cmp(*A2, w.A)).empty() || !(e = Cmp(*b2, w.b)).empty()) Fail("Dirichlet boundary: %s", e.c_str());
    as.SetZeroBC(A, b);
    Constrain(s, &z.A, &z.b, Vec(N, 0));
    if (!(e = Cmp(*A, z.A)).empty() || !(e = Cmp(*b, z.b)).empty()) Fail("zero boundary: %s", e.c_str());
    G().transitions += 2;
  }
  Neumann<D>(s, sp, n);
  // solutions: every order of up to three requests to one problem gives what a fresh one gives
  System one[2] = {Assemble(s, n, Vec(N, 1), 1, false), Assemble(s, n, Vec(N, 1), 1, true)};
  Vec dir;
  auto adir = std::make_shared<arma::dvec>(N, arma::fill::zeros);
  for (int i = 0; i < N; ++i) { dir.push_back(sl::Coord(i, 1, 5)); (*adir)(i) = (double) dir[i]; }
  const double dt[2] = {0.1, 0.25}, end[2] = {0.3, 0.6};
  // every sequence of up to three requests (curves, thorough); otherwise one history in which every request follows every request
  std::vector<std::vector<int>> histories;
  if (Thorough() || (D == 1 && N <= 5)) {
    for (int code = 0; code < 27; ++code) histories.push_back({code % 3, code / 3 % 3, code / 9});
  } else {
    histories.push_back({0, 0, 1, 1, 2, 2, 0, 2, 1, 0});
  }
  for (auto &h : histories) {
    iga::PoissonProblem<D> prob(sp, rule);
    // the models that agree with everything seen so far; the right one first, then those with the fewest defects
    std::vector<Sim> alive;
    for (int f : {0, 1, 2, 4, 3, 5, 6, 7}) alive.push_back({(f & 1) != 0, (f & 2) != 0, (f & 4) != 0, &s, &one[f & 1], {}, {}});
    std::string first;
    for (size_t k = 0; k < h.size(); ++k) {
      int op = h[k];
      G().transitions++;
      std::vector<arma::dvec> got;
      if (op == 0) {
        got.push_back(prob.GetSteadyStateSolution());
      } else {
        for (auto &x : prob.GetUnsteadyStateSolution(dt[op - 1], end[op - 1], op == 2 ? adir : nullptr)) got.push_back(*x);
      }
      std::vector<Sim> next;
      for (auto &m : alive) {
        std::vector<Vec> want;
        if (op == 0) want.push_back(m.Steady());
        else want = m.Unsteady(dt[op - 1], end[op - 1], op == 2 ? dir : Vec(N, 0));
        e = "";
        if (got.size() != want.size()) e = S("%d instants from 0 to %g by %g", (int) got.size(), op ? end[op - 1] : 0, op ? dt[op - 1] : 0);
        for (size_t i = 0; e.empty() && i < got.size(); ++i) if (!(e = Cmp(got[i], want[i], 1e-7L)).empty()) e = S("%s solution %d: ", op ? "unsteady" : "steady", (int) i) + e;
        if (e.empty()) next.push_back(m);
        else if (first.empty()) first = S("requests %s step %d: ", Seq(h).c_str(), (int) k) + e;
      }
      alive = next;
      if (alive.empty()) { Fail("%s", first.c_str()); return; }
    }
    if (alive[0].f29) Known("F29", "%s", first.c_str());
    if (alive[0].f31) Known("F31", "%s", first.c_str());
    if (alive[0].f32) Known("F32", "%s", first.c_str());
  }
  std::string err;
  if (!sl::Same(sl::Extract<D>(*sp, true, &err), s)) Fail("solving changed the spline");
  G().traces++;
}
static std::string Slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
template<int D> static void Output(const ref::Spline &s, const std::string &name, const std::vector<int> &sc) {
  if (!Begin("output " + name + " " + Seq(sc) + " " + sl::Str(s))) return;
  G().states++;
  auto sp = sl::MakeN<D>(s);
  arma::dvec sol(s.Total());
  ref::Spline want = s;
  want.pdim++;
  for (int i = 0; i < s.Total(); ++i) { sol(i) = sl::Coord(i, 3, 2); want.cp[i].push_back(sol(i)); }
  iga::SolutionSpline<D> ss(sp, sol);
  std::string err;
  if (!sl::Same(sl::Extract<D>(*ss.GetSolutionSpline(), true, &err), want)) Fail("solution spline");
  std::string file = G().scratch + "/sol.vtk", plain = G().scratch + "/plain.vtk";
  try { iga::SolutionVTKWriter<D>().WriteSolutionToVTK(sp, sol, {sc}, file); }
  catch (const std::exception &x) {
    bool beyond = false;  // F33: a sample rounded beyond the range
    for (int d = 0; d < D; ++d) {
      double lo = s.U[d][0], hi = s.U[d].back(), step = (hi - lo) / sc[d];
      for (int k = 0; k <= sc[d]; ++k) beyond |= lo + k * step > hi;
    }
    if (beyond) Known("F33", "writing: %s", x.what());
    else Fail("writing: %s", x.what());
    return;
  }
  io::VTKWriter().WriteFile({std::make_any<std::shared_ptr<spl::NURBS<D>>>(sp)}, plain, {sc});
  std::string a = Slurp(file), b = Slurp(plain);
  if (a.compare(0, b.size(), b) != 0) { Fail("the grid is not that of the spline"); return; }
  std::istringstream in(a.substr(b.size()));
  std::string w[8];
  long count = 0;
  in >> w[0] >> count >> w[1] >> w[2] >> w[3] >> w[4] >> w[5] >> w[6];
  std::vector<int> n;
  for (int k : sc) n.push_back(k + 1);
  if (w[0] != "POINT_DATA" || count != Prod(n) || w[1] != "SCALARS" || w[3] != "float" || w[5] != "LOOKUP_TABLE") { Fail("header of the point data"); return; }
  for (int i = 0; i < Prod(n); ++i) {
    auto idx = Split(i, n);
    std::vector<double> t;
    for (int d = 0; d < D; ++d) { double lo = s.U[d][0], hi = s.U[d].back(); t.push_back(std::min(lo + (hi - lo) * idx[d] / sc[d], hi)); }
    double v;
    G().transitions++;
    if (!(in >> v)) { Fail("point data end after %d values", i); return; }
    R x = want.Eval(t)[s.pdim];
    if (!Near(v, x, 10, 1e-6L)) { Fail("value at %s is %g, want %Lg", Seq(t).c_str(), v, x); return; }
  }
  std::string rest;
  if (in >> rest) Fail("more values than points");
  G().traces++;
}
// Writing fails after any number of bytes: reported, or the file is complete.
static void FullDisk() {
  for (int part = 0; part < 8; ++part) {
    if (!Begin(S("output, every point at which the disk is full, part %d", part))) continue;
    ref::Spline s = Geometry({1, 2}, {sl::Clamped(1, {0.25}, 1).back(), sl::Clamped(2, {}, 1).back()}, 3, 1, true, 1);
    auto sp = sl::MakeN<2>(s);
    arma::dvec sol(s.Total(), arma::fill::ones);
    std::string file = G().scratch + "/full.vtk";
    iga::SolutionVTKWriter<2>().WriteSolutionToVTK(sp, sol, {{3, 2}}, file);
    size_t size = Slurp(file).size();
    io::VTKWriter().WriteFile({std::make_any<std::shared_ptr<spl::NURBS<2>>>(sp)}, file, {{3, 2}});
    size_t grid = Slurp(file).size();
    for (size_t k = part; k <= size; k += 8) {
      unlink(file.c_str());
      struct rlimit old, lim;
      getrlimit(RLIMIT_FSIZE, &old);
      lim = old;
      lim.rlim_cur = k;
      bool thrown = false;
      setrlimit(RLIMIT_FSIZE, &lim);
      try { iga::SolutionVTKWriter<2>().WriteSolutionToVTK(sp, sol, {{3, 2}}, file); } catch (const std::exception &) { thrown = true; }
      setrlimit(RLIMIT_FSIZE, &old);
      G().states++; G().transitions++;
      size_t have = Slurp(file).size();
      if (thrown || have >= size) continue;
      if (have >= grid) Known("F34", "only %d of %d bytes were written and nothing was reported", (int) have, (int) size);  // the values
      else Fail("only %d of %d bytes were written and nothing was reported", (int) have, (int) size);
    }
    G().traces++;
  }
}
static void C31() {
  signal(SIGXFSZ, SIG_IGN);
  FullDisk();
  bool T = Thorough();
  int seed = 0;
  for (int p = 1; p <= 3; ++p)
    for (auto &pool : KnotPool(p, T))
      for (auto &U : pool)
        for (int w = 0; w < 3; ++w)
          for (int n = p; n <= std::min(p + 2, 5); ++n) if (T || (n + w + seed) % 2) Problem<1>(Geometry({p}, {U}, 1, w, false, ++seed), S("#%d", seed), std::max(n, 2)); else ++seed;
  for (int p = 1; p <= 3; ++p) for (int q = 1; q <= 3; ++q)
    for (int k = 0; k < (T ? 6 : 2); ++k)
      for (int w = 0; w < 3; ++w)
        for (int pd = 2; pd <= 3; ++pd) {
          auto A = KnotPool(p, false)[k % 3], B = KnotPool(q, false)[(k / 3 + k + 1) % 3];
          ++seed;
          if (T || ((p + q + w + pd + k) % 2 == 0 && w != 0)) Problem<2>(Geometry({p, q}, {A[(k * 5 + w) % A.size()], B[(k * 3 + 1) % B.size()]}, pd, w, false, seed), S("#%d", seed), std::max({p, q, 2}));
        }
  for (int p = 1; p <= 2; ++p) for (int q = 1; q <= 2; ++q) for (int r = 1; r <= 2; ++r) {
    ++seed;
    if (!T && (p + q + r) % 2) continue;
    Problem<3>(Geometry({p, q, r}, {sl::Clamped(p, {0.5}, 1).back(), sl::Clamped(q, {0.25}, 1, -1, 3)[p % 2], sl::Clamped(r, {}, 1, 2, 0.5)[0]}, 3, 1, false, seed), S("#%d", seed), 2);
  }
  for (int dom = 0; dom < 6; ++dom) {
    const double lo[] = {0, -1, 0.1, 1.0 / 3, 7, -0.7}, len[] = {1, 3, 0.7, 1.1, 0.1, 0.9};
    for (int c = 1; c <= (T ? 40 : 13); ++c)
      for (int w = 0; w < 2; ++w) Output<1>(Geometry({2}, {sl::Clamped(2, {0.25}, 1, lo[dom], len[dom]).back()}, 1 + c % 3, w, true, ++seed), S("#%d", seed), {c});
    for (int c = 1; c <= 7; ++c) for (int e = 1; e <= 7; ++e)
      if (T || (c + 2 * e + dom) % 3 == 0) Output<2>(Geometry({1, 2}, {sl::Clamped(1, {0.25}, 1, lo[dom], len[dom]).back(), sl::Clamped(2, {}, 1, lo[5 - dom], len[5 - dom]).back()}, 2 + c % 2, e % 2, true, ++seed), S("#%d", seed), {c, e});
    for (int c = 1; c <= 3; ++c) for (int e = 1; e <= 3; ++e) for (int f = 1; f <= 3; ++f)
      if (T || (c + e + f + dom) % 3 == 0) Output<3>(Geometry({1, 2, 1}, {sl::Clamped(1, {0.25}, 1, lo[dom], len[dom]).back(), sl::Clamped(2, {}, 1, lo[5 - dom], len[5 - dom]).back(), sl::Clamped(1, {}, 1)[0]}, 3, 1, true, ++seed), S("#%d", seed), {c, e, f});
  }
}
int main(int argc, char **argv) {
  Init(argc, argv);
  if (Prop("C30")) C30();
  if (Prop("C31")) C31();
  return Finish();
}

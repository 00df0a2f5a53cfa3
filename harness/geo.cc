// C23 projection, C24 swept surfaces, C25 square generator, C26 random generators (all outcomes of the random choices).
#include <random>
#include <functional>
// Controlled nondeterminism: the distributions the library draws from are replaced by ones that enumerate their range.
namespace mcr {
inline std::vector<int> &Choice() { static std::vector<int> c; return c; }
inline std::vector<int> &Width() { static std::vector<int> w; return w; }
inline size_t &Pos() { static size_t p = 0; return p; }
inline int &Limit() { static int l = 1 << 30; return l; }  // choices beyond this many are not branched on
inline int Choose(int n) {
  size_t p = Pos()++;
  if (static_cast<int>(p) >= Limit()) return static_cast<int>(p * 7 + 3) % n;
  if (p == Choice().size()) { Choice().push_back(0); Width().push_back(n); }
  Width()[p] = n;
  return Choice()[p] % n;
}
inline bool Next() {  // the next choice vector in depth-first order
  while (!Choice().empty()) {
    if (++Choice().back() < Width().back()) return true;
    Choice().pop_back();
    Width().pop_back();
  }
  return false;
}
}  // namespace mcr
namespace std {
template<class T = int> struct mc_binomial_distribution {
  T t_;
  explicit mc_binomial_distribution(T t = 1, double = 0.5) : t_(t) {}
  template<class Gen> T operator()(Gen &) {
    if (t_ <= 0) return 0;
    if (t_ <= 12) return mcr::Choose(t_ + 1);
    static const double f[] = {0, 1, 0.5};
    return static_cast<T>(f[mcr::Choose(3)] * t_);
  }
};
template<class T = double> struct mc_uniform_real_distribution {
  T a_, b_;
  explicit mc_uniform_real_distribution(T a = 0, T b = 1) : a_(a), b_(b) {}
  template<class Gen> T operator()(Gen &) { static const double f[] = {0, 0.999, 0.5}; return a_ + f[mcr::Choose(3)] * (b_ - a_); }
};
}  // namespace std
#define binomial_distribution mc_binomial_distribution
#define uniform_real_distribution mc_uniform_real_distribution
#include "random.h"
#undef binomial_distribution
#undef uniform_real_distribution
#include "projection.h"
#include "random_b_spline_generator.h"
#include "random_nurbs_generator.h"
#include "square_generator.h"
#include "surface_generator.h"
#include "sl.h"
using namespace mc;
using sl::Knots;
using ref::R;

// ---------------------------------------------------------------- C26
template<int D> static void RandomCase(double lo, double hi, int maxdeg, int pdim, bool rat) {
  if (!Begin(S("%dD %s max degree %d, %d coordinates, limits %g %g", D, rat ? "nurbs" : "bspline", maxdeg, pdim, lo, hi))) return;
  mcr::Choice().clear(); mcr::Width().clear();
  mcr::Limit() = 2 * D + 2;
  std::array<ParamCoord, 2> lim{ParamCoord{lo}, ParamCoord{hi}};
  do {
    mcr::Pos() = 0;
    std::string err;
    ref::Spline s;
    std::string tr = "choices " + Seq(mcr::Choice());
    try {
      if (rat) { spl::RandomNURBSGenerator<D> g(lim, maxdeg, pdim); spl::NURBS<D> n(g); s = sl::Extract<D>(n, true, &err); if (err.empty()) n.Evaluate(sl::At<D>(std::vector<double>(D, hi)), sl::Dims(pdim)); }
      else { spl::RandomBSplineGenerator<D> g(lim, maxdeg, pdim); spl::BSpline<D> n(g); s = sl::Extract<D>(n, false, &err); if (err.empty()) n.Evaluate(sl::At<D>(std::vector<double>(D, hi)), sl::Dims(pdim)); }
    } catch (const std::exception &e) { err = e.what(); }
    G().states++; G().transitions += mcr::Pos();
    if (!err.empty()) { Fail("%s: %s", tr.c_str(), err.c_str()); continue; }
    if (s.pdim != pdim) Fail("%s: %d coordinates", tr.c_str(), s.pdim);
    for (int d = 0; d < D; ++d) {
      int p = s.deg[d];
      if (p < 1 || p > maxdeg) Fail("%s: degree %d in direction %d", tr.c_str(), p, d);
      const Knots &U = s.U[d];
      if (U[0] != lo || U.back() != hi) Fail("%s: knot range %g to %g", tr.c_str(), U[0], U.back());
      int inner = static_cast<int>(U.size()) - 2 * p - 2;
      for (int i = 1; i <= inner; ++i)
        if (!Near(U[p + i], lo + (hi - lo) * i / (inner + 1), std::fabs(lo) + std::fabs(hi))) Fail("%s: interior knots not equally spaced %s", tr.c_str(), Seq(U).c_str());
    }
    for (auto &c : s.cp) for (R x : c) if (!(x >= -5 && x <= 5)) Fail("%s: coordinate %Lg", tr.c_str(), x);
    for (R w : s.w) if (!(w > 0) || w > 2) Fail("%s: weight %Lg", tr.c_str(), w);
  } while (mcr::Next());
  G().traces++;
}
static void C26() {
  bool T = Thorough();
  const double lim[][2] = {{0, 1}, {-2.5, 0.5}, {10, 10.25}};
  for (auto &l : lim)
    for (int rat = 0; rat < 2; ++rat)
      for (int pd = 1; pd <= 4; ++pd) {
        for (int m = 1; m <= (T ? 7 : 5); ++m) RandomCase<1>(l[0], l[1], m, pd, rat);
        for (int m = 1; m <= (T ? 4 : 3); ++m) RandomCase<2>(l[0], l[1], m, pd, rat);
        if (pd >= 3) for (int m = 1; m <= (T ? 3 : 2); ++m) RandomCase<3>(l[0], l[1], m, pd, rat);
      }
}

// ---------------------------------------------------------------- C25
static void C25() {
  for (int p = 1; p <= (Thorough() ? 6 : 5); ++p)
    for (int nk = 2 * p + 2; nk <= 2 * p + 2 + (Thorough() ? 8 : 6); ++nk) {
      if (!Begin(S("square degree %d with %d knots", p, nk))) continue;
      G().states++;
      std::unique_ptr<spl::BSpline<2>> sq;
      if (p == 2 && nk == 6) {
        spl::SquareGenerator def;
        auto q = def.CreateSquare();
        std::string e;
        ref::Spline a = sl::Extract<2>(*q, false, &e), b = sl::Extract<2>(*spl::SquareGenerator(Degree{2}, 6).CreateSquare(), false, &e);
        if (!sl::Same(a, b)) Fail("default square is not the one of degree 2 with 6 knots");
      }
      spl::SquareGenerator g(Degree{p}, nk);
      sq = g.CreateSquare();
      std::string err;
      ref::Spline s = sl::Extract<2>(*sq, false, &err);
      if (!err.empty()) { Fail("%s", err.c_str()); continue; }
      if (s.pdim != 2) Fail("point dimension");
      int inner = nk - 2 * p - 2, n = nk - p - 1;
      for (int d = 0; d < 2; ++d) {
        if (s.deg[d] != p || (int) s.U[d].size() != nk) { Fail("degree or number of knots in direction %d", d); continue; }
        if (s.U[d][0] != 0 || s.U[d].back() != 1) Fail("knots not on [0,1]");
        for (int i = 1; i <= inner; ++i) if (!Near(s.U[d][p + i], (R) i / (inner + 1), 1)) Fail("knot %d in direction %d", p + i, d);
      }
      for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i)
        for (int c = 0; c < 2; ++c) {
          R want = -1 + (R) 2 * (c ? j : i) / (n - 1);
          if (!Near((double) s.cp[j * n + i][c], want, 1)) Fail("control point %d %d", i, j);
        }
      auto dims = sl::Dims(2);
      auto pr = ref::Probe(s.U[0], 2, false);
      std::sort(pr.begin(), pr.end());
      double last = -2;
      for (double u : pr) {
        auto Ev = [&](double a, double b) { G().transitions++; return sq->Evaluate({ParamCoord{a}, ParamCoord{b}}, dims); };
        if (!Near(Ev(0, u)[0], -1, 1) || !Near(Ev(1, u)[0], 1, 1) || !Near(Ev(u, 0)[1], -1, 1) || !Near(Ev(u, 1)[1], 1, 1)) Fail("boundary at %g", u);
        auto x = Ev(u, 0.3), y = Ev(0.3, u), z = Ev(u, 0.8);
        if (!Near(x[0], z[0], 1) || !Near(x[0], y[1], 1)) Fail("not a tensor product square at %g", u);
        if (!(x[0] > last)) Fail("not injective at %g", u);
        last = x[0];
      }
      G().traces++;
    }
}

// ---------------------------------------------------------------- C24
static ref::Spline Curve(int p, const Knots &U, int pdim, int seed, int wmode) {
  ref::Spline s = sl::Build({p}, {U}, pdim, true, seed);
  if (wmode == 0) for (auto &w : s.w) w = 1;
  return s;
}
static void Translational(const ref::Spline &t, const ref::Spline &c) {
  if (!Begin("translational " + sl::Str(t) + " x " + sl::Str(c))) return;
  G().states++;
  auto nt = sl::MakeN<1>(t), nc = sl::MakeN<1>(c);
  spl::SurfaceGenerator g(nt, nc);
  spl::NURBS<2> s(g);
  std::string err;
  ref::Spline r = sl::Extract<2>(s, true, &err);
  if (!err.empty()) { Fail("%s", err.c_str()); return; }
  if (r.deg[0] != t.deg[0] || r.deg[1] != c.deg[0] || r.U[0] != t.U[0] || r.U[1] != c.U[0]) { Fail("degrees or knots of the surface"); return; }
  auto dims = sl::Dims(t.pdim);
  for (double u : ref::Probe(t.U[0], 2, false))
    for (double v : ref::Probe(c.U[0], 2, false)) {
      auto got = s.Evaluate({ParamCoord{u}, ParamCoord{v}}, dims);
      auto a = t.Eval({u}), b = c.Eval({v});
      G().transitions++;
      for (int k = 0; k < t.pdim; ++k) if (!Near(got[k], a[k] + b[k], 10)) Fail("surface at (%g,%g) is not trajectory + section", u, v);
    }
  // the curves stay independent of the surface
  s.InsertKnot(ParamCoord{t.U[0][0] + 0.3 * (t.U[0].back() - t.U[0][0])}, 0);
  std::string e1, e2;
  if (!sl::Same(sl::Extract<1>(*nt, true, &e1), t) || !sl::Same(sl::Extract<1>(*nc, true, &e2), c)) Fail("refining the surface changed a curve");
  G().traces++;
}
typedef std::array<R, 3> V3;
static V3 Cross(const V3 &a, const V3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static R Dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 Unit(const V3 &a) { R n = std::sqrt(Dot(a, a)); return {a[0] / n, a[1] / n, a[2] / n}; }
static V3 ToV(const std::vector<R> &a) { return {a[0], a[1], a[2]}; }

static void Swept(const ref::Spline &t, const ref::Spline &c, int n, bool straight, int smode) {
  if (!Begin(S("swept %s n%d scale%d ", straight ? "straight" : "curved", n, smode) + sl::Str(t) + S(" from %Lg,%Lg,%Lg to %Lg,%Lg,%Lg x ", t.cp[0][0], t.cp[0][1], t.cp[0][2], t.cp.back()[0], t.cp.back()[1], t.cp.back()[2]) + sl::Str(c))) return;
  G().states++;
  std::vector<std::array<double, 3>> scale(n);
  for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) scale[i][k] = smode == 0 ? 1 : 0.5 + 0.25 * ((i + 2 * k) % 5);
  const Knots &U = t.U[0];
  // frames of the reference
  std::vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(std::min(U[0] + (U.back() - U[0]) / (n - 1) * i, U.back()));
  std::vector<V3> X, Y, Z, O;
  V3 prev{0, 0, 1};
  std::vector<R> wt;
  for (int i = 0; i < n; ++i) {
    O.push_back(ToV(t.Deriv({v[i]}, {0})));
    V3 d1 = ToV(t.Deriv({v[i]}, {1})), d2 = ToV(t.Deriv({v[i]}, {2})), x = Unit(d1), z;
    wt.push_back(t.Hom({v[i]}, {0})[3]);
    if (straight) {
      R q = Dot(prev, x);
      V3 o{prev[0] - q * x[0], prev[1] - q * x[1], prev[2] - q * x[2]};
      if (std::sqrt(Dot(o, o)) < 1e-6) z = {NAN, NAN, NAN};  // any normal will do
      else z = Unit(o);
    } else {
      V3 b = Cross(d1, d2);
      if (std::sqrt(Dot(b, b)) < 1e-3 * Dot(d1, d1)) return;  // not clearly curved: nothing is claimed
      z = Unit(b);
      if (i && std::fabs(Dot(z, prev)) < 1e-3) return;
    }
    X.push_back(x); Z.push_back(z); Y.push_back(Cross(z, x));
    prev = z;
  }
  ref::Spline r;
  std::string err;
  std::shared_ptr<spl::NURBS<2>> s;
  try {
    spl::SurfaceGenerator g(sl::MakeN<1>(t), sl::MakeN<1>(c), n, scale);
    s = std::make_shared<spl::NURBS<2>>(g);
    r = sl::Extract<2>(*s, true, &err);
  } catch (const std::exception &e) { err = e.what(); }
  if (!err.empty()) { Fail("%s", err.c_str()); return; }
  int p = t.deg[0], m = c.Total();
  Knots want(p + 1, v[0]);
  for (int j = 1; j <= n - 1 - p; ++j) { R a = 0; for (int i = j; i < j + p; ++i) a += v[i]; want.push_back(a / p); }
  want.insert(want.end(), p + 1, v.back());
  bool ok = r.deg[0] == p && r.deg[1] == c.deg[0] && r.U[1] == c.U[0] && r.U[0].size() == want.size();
  for (size_t i = 0; ok && i < want.size(); ++i) ok = Near(r.U[0][i], want[i], want[i]);
  if (!ok) { Fail("degrees or knots of the surface: %s", Seq(r.U[0]).c_str()); return; }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) {
      G().transitions++;
      if (!Near((double) r.w[j * n + i], c.w[j] * wt[i], 10)) Fail("weight of section %d point %d is %Lg, want %Lg", i, j, r.w[j * n + i], c.w[j] * wt[i]);
      if (std::isnan((double) Z[i][0])) {
        // free choice of the normal: the section keeps its shape, its first axis is the tangent
        V3 q;
        R norm = 0, wn = 0, along = 0;
        for (int k = 0; k < 3; ++k) { q[k] = r.cp[j * n + i][k] - O[i][k]; norm += q[k] * q[k]; R l = scale[i][k] * c.cp[j][k]; wn += l * l; along += q[k] * X[i][k]; }
        if (!Near((double) norm, wn, 10) || !Near((double) along, scale[i][0] * c.cp[j][0], 10)) Fail("section %d point %d is not a rotated copy", i, j);
        continue;
      }
      for (int k = 0; k < 3; ++k) {
        R w = O[i][k] + X[i][k] * scale[i][0] * c.cp[j][0] + Y[i][k] * scale[i][1] * c.cp[j][1] + Z[i][k] * scale[i][2] * c.cp[j][2];
        if (!Near((double) r.cp[j * n + i][k], w, 10, 1e-8L)) { Fail("section %d point %d coordinate %d is %Lg, want %Lg", i, j, k, r.cp[j * n + i][k], w); return; }
      }
    }
  G().traces++;
}
static void C24() {
  bool T = Thorough();
  int seed = 0;
  for (int p = 1; p <= 3; ++p)
    for (int q = 1; q <= 3; ++q)
      for (int pd = 1; pd <= 3; ++pd)
        for (int dom = 0; dom < 2; ++dom)
          for (int w = 0; w < 2; ++w) {
            auto A = sl::Clamped(p, {0.375}, 1, dom ? -2 : 0, dom ? 3 : 1), B = sl::Clamped(q, {0.25, 0.5}, dom, dom ? 1 : 0, dom ? 0.5 : 1);
            Translational(Curve(p, A.back(), pd, seed, w), Curve(q, B.back(), pd, seed + 1, w));
            Translational(Curve(p, A[0], pd, seed, w), Curve(q, B.back(), pd, seed + 2, 1 - w));
            ++seed;
          }
  const int N = T ? 8 : 6;
  for (int dom = 0; dom < 3; ++dom) {
    double a = dom == 0 ? 0 : dom == 1 ? -1.5 : 0.1, L = dom == 0 ? 1 : dom == 1 ? 4 : 0.7;
    for (int q = 1; q <= 2; ++q) {
      ref::Spline c = Curve(q, sl::Clamped(q, {0.5}, 1).back(), 3, 5 + q, 1);
      // straight trajectories in all 26 directions, from three origins
      for (int dir = 0; dir < 27; ++dir)
        for (int org = 0; org < 3; ++org) {
          if (dir == 13) continue;
          ref::Spline t = Curve(1, sl::Clamped(1, {}, 1, a, L).back(), 3, 1, 0);
          int d[3] = {dir % 3 - 1, dir / 3 % 3 - 1, dir / 9 - 1};
          for (int k = 0; k < 3; ++k) {
            double o = org == 0 ? 0 : org == 1 ? 1.5 - k : k * 0.75 - 2;
            t.cp[0][k] = o;
            t.cp[1][k] = o + 4 * d[k];
          }
          Swept(t, c, 2 + (dir + org) % 4, true, org % 2);
        }
      // curved trajectories
      for (int p = 2; p <= 3; ++p)
        for (int sd = 0; sd < (T ? 40 : 20); ++sd)
          for (int w = 0; w < 2; ++w)
            for (int n = p + 1; n <= N; n += 2) {
              ref::Spline t = Curve(p, sl::Clamped(p, {0.375}, sd % 2, a, L).back(), 3, sd, w);
              Swept(t, c, n, false, sd % 3 != 0);
            }
    }
  }
}

// ---------------------------------------------------------------- C23
static double Clip(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }
static R Dist(const std::vector<R> &a, const std::vector<double> &b) { R s = 0; for (size_t i = 0; i < b.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }

static R Greville(const Knots &U, int p, int i) { R g = 0; for (int j = 1; j <= p; ++j) g += U[i + j]; return g / p; }

static void Line(int p, const Knots &U, int pdim, int dirsel, bool rat) {
  ref::Spline s = sl::Build({p}, {U}, pdim, rat, 0);
  std::vector<double> o(pdim), d(pdim);
  double n2 = 0;
  for (int c = 0; c < pdim; ++c) { o[c] = 0.5 * c - 1; d[c] = ((dirsel >> c) & 1) ? -1.5 + c : 2.0 - 0.5 * c; n2 += d[c] * d[c]; }
  for (int i = 0; i < s.Total(); ++i) {
    R g = Greville(U, p, i);
    for (int c = 0; c < pdim; ++c) s.cp[i][c] = (double) (o[c] + d[c] * g);
    s.w[i] = rat ? 2 : 1;
  }
  if (!Begin("line " + sl::Str(s) + S(" direction%d", dirsel))) return;
  G().states++;
  auto sp = sl::Make<1>(s);
  double a = U[0], b = U.back();
  for (int i = -2; i <= 10; ++i)
    for (double off : {0.0, 1.5, -0.4}) {
      if (!Thorough() && (i == -2 || i == 10 || ((i < 0 || i > 8) && off != 0))) continue;
      if (pdim == 1 && off != 0) continue;
      double t = a + (b - a) * i / 8.0;
      std::vector<double> pt(pdim), perp(pdim, 0.0);
      if (pdim >= 2) { perp[0] = -d[1]; perp[1] = d[0]; }
      for (int c = 0; c < pdim; ++c) pt[c] = o[c] + d[c] * t + off * perp[c];
      double got;
      try { got = spl::Projection<1>::ProjectionOnCurve(pt, sp)[0].get(); }
      catch (const std::exception &e) { Fail("point at %g offset %g: %s", t, off, e.what()); continue; }
      G().transitions++;
      if (!(got >= a && got <= b)) Fail("projection of the point at %g is outside the domain: %g", t, got);
      else if (!(std::fabs(got - Clip(t, a, b)) < 1e-6)) Fail("projection of the point at %g (offset %g) is %g", t, off, got);
    }
  G().traces++;
}
static void Gentle(int p, const Knots &U, int code, bool rat, int pdim) {
  ref::Spline s = sl::Build({p}, {U}, pdim, rat, 1);
  int c0 = code;
  for (int i = 0; i < s.Total(); ++i) {
    s.cp[i][0] = (double) Greville(U, p, i);
    for (int c = 1; c < pdim; ++c) { s.cp[i][c] = 0.08 * (c0 % 3 - 1) * (U.back() - U[0]) / s.Total() * 2; if (c == pdim - 1) c0 /= 3; }
    s.w[i] = rat ? 1 + 0.125 * (i % 2) : 1;
  }
  if (!Begin("curve " + sl::Str(s) + S(" heights%d", code))) return;
  G().states++;
  auto sp = sl::Make<1>(s);
  double a = U[0], b = U.back();
  for (int i = 0; i <= 12; ++i)
    for (double off : {0.0, 0.06, -0.06}) {
      double t = std::min(a + (b - a) * i / 12, b);
      auto x = s.Eval({t});
      auto d = s.Deriv({t}, {1});
      std::vector<double> pt;
      for (int c = 0; c < pdim; ++c) pt.push_back(x[c]);
      pt[0] += -off * d[1] * (b - a); pt[1] += off * d[0] * (b - a);
      if (off != 0 && (i == 0 || i == 12)) continue;
      double got;
      try { got = spl::Projection<1>::ProjectionOnCurve(pt, sp)[0].get(); }
      catch (const std::exception &e) { Fail("point at %g offset %g: %s", t, off, e.what()); continue; }
      G().transitions++;
      if (!(got >= a && got <= b)) { Fail("outside the domain: %g", got); continue; }
      R best = INFINITY;
      for (int k = 0; k <= 96; ++k) best = std::min(best, Dist(s.Eval({std::min(a + (b - a) * k / 96.0, b)}), pt));
      R gd = Dist(s.Eval({got}), pt);
      if (!(gd <= best + 1e-3 * (b - a))) Fail("point at %g offset %g: projected to %g at distance %Lg, closest is %Lg", t, off, got, gd, best);
    }
  G().traces++;
}
static void Rect(int p, int q, const Knots &U, const Knots &V, int orient, bool rat) {
  ref::Spline s = sl::Build({p, q}, {U, V}, 3, rat, 0);
  // orthogonal edges in three orientations
  double e1[3][3] = {{2, 0, 0}, {0, 1.5, 1.5}, {1, 2, 2}}, e2[3][3] = {{0, 0.75, 0}, {2, 0, 0}, {2, 1, -2}}, o[3] = {1, -2, 0.5};
  double *a = e1[orient], *b = e2[orient], nrm[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
  for (int j = 0; j < s.N(1); ++j) for (int i = 0; i < s.N(0); ++i) {
    int lin = j * s.N(0) + i;
    for (int c = 0; c < 3; ++c) s.cp[lin][c] = (double) (o[c] + a[c] * Greville(U, p, i) + b[c] * Greville(V, q, j));
    s.w[lin] = rat ? 0.5 : 1;
  }
  if (!Begin("rectangle " + sl::Str(s) + S(" orientation%d", orient))) return;
  G().states++;
  auto sp = sl::Make<2>(s);
  for (int i = -1; i <= 5; ++i) for (int j = -1; j <= 5; ++j)
    for (double off : {0.0, 0.7, -0.2}) {
      bool outside = i < 0 || i > 4 || j < 0 || j > 4;
      if (!Thorough() && outside && (off != 0 || (i + 3 * j + 8) % 5 != 0)) continue;
      double u = U[0] + (U.back() - U[0]) * i / 4.0, v = V[0] + (V.back() - V[0]) * j / 4.0;
      std::vector<double> pt(3);
      for (int c = 0; c < 3; ++c) pt[c] = o[c] + a[c] * u + b[c] * v + off * nrm[c];
      std::array<ParamCoord, 2> got;
      try { got = spl::Projection<2>::ProjectionOnSurface(pt, sp); }
      catch (const std::exception &e) { Fail("point at (%g,%g) offset %g: %s", u, v, off, e.what()); continue; }
      G().transitions++;
      if (!(std::fabs(got[0].get() - Clip(u, U[0], U.back())) < 1e-6 && std::fabs(got[1].get() - Clip(v, V[0], V.back())) < 1e-6))
        Fail("projection of the point at (%g,%g) offset %g is (%g,%g)", u, v, off, got[0].get(), got[1].get());
      if (!(got[0].get() >= U[0] && got[0].get() <= U.back() && got[1].get() >= V[0] && got[1].get() <= V.back())) Fail("outside the domain");
    }
  G().traces++;
}
// A rectangle whose edges are parametrised unevenly: warp bit d bends direction d. Points lie where the start grid of
// the search is exact in one direction, both or none.
static void Uneven(int p, int q, const Knots &U, const Knots &V, int orient, bool rat, int warp) {
  ref::Spline s = sl::Build({p, q}, {U, V}, 3, rat, 0);
  double e1[3][3] = {{2, 0, 0}, {0, 1.5, 1.5}, {1, 2, 2}}, e2[3][3] = {{0, 0.75, 0}, {2, 0, 0}, {2, 1, -2}}, o[3] = {1, -2, 0.5};
  double *a = e1[orient], *b = e2[orient], nrm[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
  auto W = [&](const Knots &K, int deg, int i, bool on) { R g = Greville(K, deg, i), l = K[0], h = K.back(); return on ? g - 0.6L * (g - l) * (h - g) / (h - l) : g; };
  for (int j = 0; j < s.N(1); ++j) for (int i = 0; i < s.N(0); ++i) {
    int lin = j * s.N(0) + i;
    for (int c = 0; c < 3; ++c) s.cp[lin][c] = (double) (o[c] + a[c] * W(U, p, i, warp & 1) + b[c] * W(V, q, j, warp & 2));
    s.w[lin] = rat ? 0.5 : 1;
  }
  if (!Begin("uneven rectangle " + sl::Str(s) + S(" orientation%d warp%d", orient, warp))) return;
  G().states++;
  auto sp = sl::Make<2>(s);
  for (int i = 0; i <= 10; ++i) for (int j = 0; j <= 10; ++j)
    for (int sh = 0; sh < 4; ++sh) {
      double off = (i + j) % 3 ? 0.3 : 0;
      double x = i + (sh & 1 ? 0.4 : 0), y = j + (sh & 2 ? 0.4 : 0);
      if (x > 10 || y > 10 || (!Thorough() && (i * 3 + j + sh) % 4 != 0)) continue;
      double u = std::min(U[0] + (U.back() - U[0]) * x / 10, U.back()), v = std::min(V[0] + (V.back() - V[0]) * y / 10, V.back());
      auto e = s.Eval({u, v});
      std::vector<double> pt(3);
      for (int c = 0; c < 3; ++c) pt[c] = (double) e[c] + off * nrm[c];
      std::array<ParamCoord, 2> got;
      try { got = spl::Projection<2>::ProjectionOnSurface(pt, sp); }
      catch (const std::exception &e2) { Fail("point at (%g,%g) offset %g: %s", u, v, off, e2.what()); continue; }
      G().transitions++;
      if (!(std::fabs(got[0].get() - u) < 1e-5 * (U.back() - U[0]) && std::fabs(got[1].get() - v) < 1e-5 * (V.back() - V[0])))
        Fail("projection of the point at (%g,%g) offset %g is (%g,%g)", u, v, off, got[0].get(), got[1].get());
    }
  G().traces++;
}
static void Hills(int p, int q, const Knots &U, const Knots &V, int code, bool rat) {
  ref::Spline s = sl::Build({p, q}, {U, V}, 3, rat, 0);
  double Lu = U.back() - U[0], Lv = V.back() - V[0];
  for (int j = 0; j < s.N(1); ++j) for (int i = 0; i < s.N(0); ++i) {
    int lin = j * s.N(0) + i;
    s.cp[lin] = {(R) (double) Greville(U, p, i), (R) (double) Greville(V, q, j), (R) (0.06 * std::min(Lu, Lv) * ((code >> (lin % 9)) & 1))};
    s.w[lin] = rat ? 1 + 0.125 * (lin % 2) : 1;
  }
  if (!Begin("surface " + sl::Str(s) + S(" heights%d", code))) return;
  G().states++;
  auto sp = sl::Make<2>(s);
  for (int i = 0; i <= 4; ++i) for (int j = 0; j <= 4; ++j)
    for (double off : {0.0, 0.05}) {
      if (off != 0 && (i % 4 == 0 || j % 4 == 0)) continue;
      double u = std::min(U[0] + Lu * i / 4, U.back()), v = std::min(V[0] + Lv * j / 4, V.back());
      auto x = s.Eval({u, v});
      std::vector<double> pt{(double) x[0], (double) x[1], (double) (x[2] + off * std::min(Lu, Lv))};
      std::array<ParamCoord, 2> got;
      try { got = spl::Projection<2>::ProjectionOnSurface(pt, sp); }
      catch (const std::exception &e) { Fail("point at (%g,%g): %s", u, v, e.what()); continue; }
      G().transitions++;
      if (!(got[0].get() >= U[0] && got[0].get() <= U.back() && got[1].get() >= V[0] && got[1].get() <= V.back())) { Fail("outside the domain"); continue; }
      R best = INFINITY, gd = Dist(s.Eval({got[0].get(), got[1].get()}), pt);
      for (int k = 0; k <= 16; ++k) for (int l = 0; l <= 16; ++l)
        best = std::min(best, Dist(s.Eval({std::min(U[0] + Lu * k / 16, U.back()), std::min(V[0] + Lv * l / 16, V.back())}), pt));
      if (!(gd <= best + 1e-3 * std::min(Lu, Lv))) Fail("point at (%g,%g) offset %g: distance %Lg, closest is %Lg", u, v, off, gd, best);
    }
  G().traces++;
}
// A chain of unit edges on the grid that does not come near itself, in every shape (all self-avoiding walks): the closest
// point of a point beside the middle part of an edge. Fold: the same extruded to a surface.
static void Walk(const std::vector<int> &steps, int pdim, int p, double lo, double len, bool rat, bool fold) {
  int n = steps.size();
  std::vector<std::vector<double>> corner{std::vector<double>(pdim, 0.5)};
  for (int st : steps) { auto c = corner.back(); c[st % pdim] += st < pdim ? 1 : -1; corner.push_back(c); }
  Knots U(p + 1, lo);
  for (int i = 1; i < n; ++i) U.insert(U.end(), p, lo + len * i / n);
  U.insert(U.end(), p + 1, lo + len);
  Knots V = sl::Clamped(1, {}, 1, -1, 2).back();
  ref::Spline s = fold ? sl::Build({p, 1}, {U, V}, 3, rat, 0) : sl::Build({p}, {U}, pdim, rat, 0);
  int m = n * p + 1;
  for (int i = 0; i < s.Total(); ++i) {
    int e = std::min(i % m / p, n - 1);
    for (int c = 0; c < pdim; ++c) s.cp[i][c] = (double) (corner[e][c] + (corner[e + 1][c] - corner[e][c]) * (R) (i % m - e * p) / p);
    if (fold) s.cp[i][2] = i / m * 2;
    s.w[i] = rat ? 2 : 1;
  }
  std::string name;
  for (int st : steps) name += S("%s%c", st < pdim ? "+" : "-", "xyz"[st % pdim]);
  if (!Begin(std::string(fold ? "folded surface " : "chain ") + name + " " + sl::Str(s))) return;
  G().states++;
  std::shared_ptr<spl::Spline<1>> s1;
  std::shared_ptr<spl::Spline<2>> s2;
  if (fold) s2 = sl::Make<2>(s); else s1 = sl::Make<1>(s);
  for (int e = 0; e < n; ++e)
    for (double fr : {0.4, 0.5, 0.625})
      for (int side = 0; side < 2 * pdim - 1; ++side)
        for (double v : {-0.25, 0.5}) {
          int ax = steps[e] % pdim, off = (ax + 1 + side / 2) % pdim;
          if (side == 2 * pdim - 2) off = -1;
          if (!fold && v > 0) continue;
          std::vector<double> pt(corner[e]);
          for (int c = 0; c < pdim; ++c) pt[c] += (corner[e + 1][c] - corner[e][c]) * fr;
          if (off >= 0) pt[off] += side % 2 ? 0.09 : -0.09;
          double want = lo + len * (e + fr) / n, got, gotv = v;
          if (fold) pt.push_back(v + 1);
          std::string what = S("point beside edge %d at %g, side %d", e, fr, side);
          try {
            if (fold) {
              static const std::array<int, 2> sc[] = {{10, 10}, {16, 7}, {40, 3}};
              auto r = side == 0 && fr == 0.5 ? spl::Projection<2>::ProjectionOnSurface(pt, s2) : spl::Projection<2>::ProjectionOnSurface(pt, s2, sc[side % 3]);
              got = r[0].get(); gotv = r[1].get();
            } else { got = spl::Projection<1>::ProjectionOnCurve(pt, s1)[0].get(); }
          } catch (const std::exception &x) { Fail("%s: %s", what.c_str(), x.what()); continue; }
          G().transitions++;
          if (!(std::fabs(got - want) < 1e-6 * len && std::fabs(gotv - v) < 1e-6)) Fail("%s: projected to (%g,%g), closest is (%g,%g)", what.c_str(), got, gotv, want, v);
        }
  G().traces++;
}
static void Walks(int maxn, int pdim, const std::function<void(const std::vector<int> &)> &f) {
  std::vector<int> steps;
  std::vector<std::vector<int>> at{std::vector<int>(pdim, 0)};
  std::function<void()> rec = [&]() {
    if (!steps.empty()) f(steps);
    if ((int) steps.size() == maxn) return;
    for (int st = 0; st < 2 * pdim; ++st) {
      auto c = at.back();
      c[st % pdim] += st < pdim ? 1 : -1;
      if (std::find(at.begin(), at.end(), c) != at.end()) continue;
      steps.push_back(st); at.push_back(c);
      rec();
      steps.pop_back(); at.pop_back();
    }
  };
  rec();
}
static void C23() {
  bool T = Thorough();
  {
    int k = 0;
    const double A[] = {0, -3, 5, 0.1}, L[] = {1, 2, 4, 0.7};
    Walks(T ? 6 : 5, 2, [&](const std::vector<int> &st) { ++k; for (int p = 1; p <= 3; ++p) if (T || (k + p) % 3 == 0) Walk(st, 2, p, A[k % 4], L[k % 4], k % 2, false); });
    Walks(T ? 5 : 4, 3, [&](const std::vector<int> &st) { ++k; for (int p = 1; p <= 3; ++p) if (T || (k + p) % 3 == 0) Walk(st, 3, p, A[k % 4], L[k % 4], k % 2, false); });
    Walks(4, 2, [&](const std::vector<int> &st) { ++k; for (int p = 1; p <= 2; ++p) if (T || (k + p) % 2 == 0) Walk(st, 2, p, A[k % 4], L[k % 4], k % 2, true); });
  }
  for (int dom = 0; dom < 4; ++dom) {
    const double A[] = {0, -3, 5, 0.1}, L[] = {1, 2, 4, 0.7};
    for (int rat = 0; rat < 2; ++rat) {
      for (int p = 1; p <= 3; ++p)
        for (auto &U : sl::Clamped(p, {0.25, 0.5}, std::min(p, 2), A[dom], L[dom]))
          for (int pd = 1; pd <= 3; ++pd) for (int ds = 0; ds < 4; ++ds) if (T || ds % 2 == rat) Line(p, U, pd, ds, rat);
      for (int p = 2; p <= 3; ++p)
        for (auto &U : sl::Clamped(p, {0.25, 0.5}, 1, A[dom], L[dom])) {
          int n = U.size() - p - 1, codes = 1;
          for (int i = 0; i < n; ++i) codes *= 3;
          for (int c = 0; c < codes; c += (T ? 1 : n > 4 ? 17 : n > 3 ? 4 : 1)) Gentle(p, U, c, rat, 2 + c % 2);
        }
      for (int dom2 = 0; dom2 < 4; ++dom2)
        for (int p = 1; p <= 2; ++p) for (int q = 1; q <= 2; ++q)
          for (int o = 0; o < 3; ++o) {
            auto U = sl::Clamped(p, {0.375}, 1, A[dom], L[dom]).back(), V = sl::Clamped(q, {}, 1, A[dom2], L[dom2]).back();
            for (int warp = 1; warp < 4; ++warp)
              if ((!(warp & 1) || p > 1) && (!(warp & 2) || q > 1) && (T || (dom + dom2 + warp) % 3 == o)) Uneven(p, q, U, V, o, rat, warp);
            if ((rat == (dom2 + p) % 2 && o == (dom + dom2 + q) % 3) || T) Rect(p, q, U, V, o, rat);
          }
      for (int dom2 = 0; dom2 < 4; ++dom2)
        for (int c = 0; c < 512; c += (T ? 1 : 37)) {
          if (!T && ((c + dom + dom2) % 2 != rat || (dom2 - dom + 4) % 4 > 1)) continue;
          Hills(2, 2, sl::Clamped(2, {}, 1, A[dom], L[dom]).back(), sl::Clamped(2, {}, 1, A[dom2], L[dom2]).back(), c, rat);
        }
    }
  }
}
int main(int argc, char **argv) {
  Init(argc, argv);
  if (Prop("C23")) C23();
  if (Prop("C24")) C24();
  if (Prop("C25")) C25();
  if (Prop("C26")) C26();
  return Finish();
}

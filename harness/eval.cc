// C03 / C04: evaluation and derivatives of B-splines (C03) and NURBS (C04) in 1-4 parametric directions.
#include "sl.h"
using namespace mc;
using sl::Knots;
using ref::R;

template<int D> static void Throws(const spl::Spline<D> &s, const std::vector<double> &t, const std::vector<int> &der) {
  G().transitions += 2;
  try {
    s.Evaluate(sl::At<D>(t), {0});
    Fail("Evaluate at %s outside the parameter range did not throw", Seq(t).c_str());
  } catch (const std::range_error &) {}
  try {
    s.EvaluateDerivative(sl::At<D>(t), {0}, sl::Arr<D>(der));
    Fail("EvaluateDerivative at %s outside the parameter range did not throw", Seq(t).c_str());
  } catch (const std::range_error &) {}
}

template<int D> static void Check(const ref::Spline &s, int nprobe, int maxder, int maxtotal, bool neighbours,
                                  const std::string &name) {
  if (!Begin(sl::Str(s) + " " + name)) return;
  auto sp = sl::Make<D>(s);
  std::shared_ptr<spl::BSpline<D>> plain;
  bool equal_weights = s.rational;
  for (auto &w : s.w) if (w != s.w[0]) equal_weights = false;
  if (equal_weights) plain = sl::MakeB<D>(s);
  std::vector<std::vector<double>> per;
  for (int d = 0; d < D; ++d) per.push_back(ref::Probe(s.U[d], nprobe, neighbours));
  auto dims = sl::Dims(s.pdim);
  std::vector<int> rev(dims.rbegin(), dims.rend());
  rev.push_back(0);
  // derivative orders
  std::vector<std::vector<int>> ders;
  std::vector<int> a(D, 0);
  while (true) {
    int tot = 0;
    for (int x : a) tot += x;
    if (tot <= maxtotal) ders.push_back(a);
    int d = 0;
    while (d < D && ++a[d] > maxder) a[d++] = 0;
    if (d == D) break;
  }
  for (auto &t : sl::Grid(per)) {
    G().states++;
    R sc;
    auto want = s.Deriv(t, std::vector<int>(D, 0), &sc);
    auto got = sp->Evaluate(sl::At<D>(t), dims);
    G().transitions++;
    if ((int) got.size() != s.pdim) { Fail("Evaluate returned %d coordinates", (int) got.size()); return; }
    for (int c = 0; c < s.pdim; ++c)
      if (!Near(got[c], want[c], sc)) Fail("value at %s coordinate %d is %.17g, want %.17Lg", Seq(t).c_str(), c, got[c], want[c]);
    auto got2 = sp->Evaluate(sl::At<D>(t), rev);
    if (got2.size() != rev.size()) Fail("Evaluate returned %d coordinates for %d requested", (int) got2.size(), (int) rev.size());
    else for (size_t i = 0; i < rev.size(); ++i)
      if (!Near(got2[i], got[rev[i]], sc, 1e-11L)) Fail("value at %s: requested coordinate list order not respected", Seq(t).c_str());
    if (s.rational) {
      R W = s.Hom(t, std::vector<int>(D, 0))[s.pdim];
      double gw = sp->Evaluate(sl::At<D>(t), {s.pdim})[0];
      if (!Near(gw, W, W)) Fail("weight function at %s is %.17g, want %.17Lg", Seq(t).c_str(), gw, W);
      if (plain) {
        auto pl = plain->Evaluate(sl::At<D>(t), dims);
        for (int c = 0; c < s.pdim; ++c)
          if (!Near(got[c], pl[c], sc)) Fail("equal weights: NURBS and B-spline differ at %s", Seq(t).c_str());
      }
    }
    for (auto &der : ders) {
      R dsc;
      auto dw = s.Deriv(t, der, &dsc);
      auto dg = sp->EvaluateDerivative(sl::At<D>(t), dims, sl::Arr<D>(der));
      G().transitions++;
      if (&der == &ders.back() || &der == &ders[ders.size() / 2]) {
        auto dr = sp->EvaluateDerivative(sl::At<D>(t), rev, sl::Arr<D>(der));
        bool same = dr.size() == rev.size();
        for (size_t i = 0; same && i < rev.size(); ++i) same = Near(dr[i], dg[rev[i]], dsc, 1e-11L);
        if (!same) Fail("derivative %s at %s: requested coordinate list order not respected", Seq(der).c_str(), Seq(t).c_str());
      }
      if ((int) dg.size() != s.pdim) { Fail("EvaluateDerivative returned %d coordinates", (int) dg.size()); return; }
      for (int c = 0; c < s.pdim; ++c)
        if (!Near(dg[c], dw[c], dsc, 1e-9L))
          Fail("derivative %s at %s coordinate %d is %.17g, want %.17Lg (scale %.3Lg)", Seq(der).c_str(), Seq(t).c_str(), c, dg[c], dw[c], dsc);
    }
  }
  // interpolation of the corner control points
  for (int corner = 0; corner < (1 << D); ++corner) {
    std::vector<double> t(D);
    int lin = 0, stride = 1;
    for (int d = 0; d < D; ++d) {
      bool hi = corner >> d & 1;
      t[d] = hi ? s.U[d].back() : s.U[d][0];
      lin += (hi ? s.N(d) - 1 : 0) * stride;
      stride *= s.N(d);
    }
    auto got = sp->Evaluate(sl::At<D>(t), dims);
    G().transitions++;
    for (int c = 0; c < s.pdim; ++c)
      if (!Near(got[c], s.cp[lin][c], s.cp[lin][c])) Fail("corner %d is not the corner control point", corner);
  }
  for (int d = 0; d < D; ++d)
    for (double x : {s.U[d][0] - 1, std::nextafter(s.U[d][0], s.U[d][0] - 1), std::nextafter(s.U[d].back(), s.U[d].back() + 1),
                     s.U[d].back() + 3}) {
      std::vector<double> t(D);
      for (int e = 0; e < D; ++e) t[e] = (s.U[e][0] + s.U[e].back()) / 2;
      t[d] = x;
      std::vector<int> der(D, 0);
      der[d] = 1;
      Throws<D>(*sp, t, der);
    }
  if (s.rational) {
    auto nu = std::dynamic_pointer_cast<spl::NURBS<D>>(sp);
    auto n = nu->GetPointsPerDirection();
    for (int i = 0; i < s.Total(); ++i) {
      auto idx = sl::Arr<D>(sl::Unlin<D>(i, n));
      for (int c = 0; c <= s.pdim; ++c) {
        R want = c == s.pdim ? s.w[i] : s.cp[i][c] * s.w[i];
        if (!Near(nu->GetHomogeneousControlPoint(idx, c), want, want)) Fail("homogeneous control point %d coordinate %d", i, c);
      }
    }
    // same weights, new control points
    ref::Spline o = s;
    for (auto &p : o.cp) for (auto &x : p) x = (double) (2 * x + 0.5L);
    spl::NURBS<D> moved(*nu, sl::Cps(o));
    std::string err;
    auto back = sl::Extract<D>(moved, true, &err);
    if (!err.empty() || !sl::Same(back, o)) Fail("NURBS with replaced control points: %s", err.c_str());
  }
  G().traces++;
}

static ref::Spline Variant(std::vector<int> deg, std::vector<Knots> U, int i, bool rational, int wmode) {
  ref::Spline s = sl::Build(deg, U, 1 + i % 4, rational, i % 5);
  if (rational && wmode == 1) for (auto &w : s.w) w = 2.5;
  if (rational && wmode == 2) for (size_t k = 0; k < s.w.size(); ++k) s.w[k] = (k % 3 == 1) ? 1e-3 : (k % 3 == 2 ? 50 : 1);
  return s;
}

int main(int argc, char **argv) {
  Init(argc, argv);
  bool rat = Prop("C04"), T = Thorough();
  const double a[] = {0, -2, 10};
  const double L[] = {1, 3, 0.5};
  int idx = 0;
  int wmodes = rat ? 3 : 1;
  // curves
  for (int p = 0; p <= (T ? 5 : 4); ++p)
    for (int dom = 0; dom < 3; ++dom)
      for (auto &U : sl::Clamped(p, {0.25, 0.5, 0.8125}, (p <= 3 || T) ? p + 1 : 2, a[dom], L[dom]))
        for (int wm = 0; wm < wmodes; ++wm) {
          if (rat && p >= 3 && wm != idx % 3 && !T) { ++idx; continue; }
          Check<1>(Variant({p}, {U}, idx++, rat, wm), p + 1, rat ? std::min(p + 1, 4) : p + 2, 9, !rat || p < 3, S("wm%d", wm));
        }
  // high degrees, many control points, clustered knots, large and zero coordinates, points with many coordinates
  for (int wm = 0; wm < wmodes; ++wm) {
    for (int p = 5; p <= (rat && !T ? 6 : 8); ++p)
      for (int m : {1, p - 1, p}) Check<1>(Variant({p}, {sl::Clamped(p, {0.375}, m, -1, 2).back()}, idx++, rat, wm), 3, rat ? 3 : p + 1, 9, false, S("high wm%d", wm));
    for (int p = 1; p <= 3; ++p) {
      for (int n : {17, 40}) {
        Knots U(p + 1, -3.0);
        for (int i = 1; i < n; ++i) U.push_back(-3 + i * (i + 40) / 64.0);
        U.insert(U.end(), p + 1, -3 + n * (n + 40) / 64.0);
        Check<1>(Variant({p}, {U}, idx++, rat, wm), 2, 2, 9, false, S("many wm%d", wm));
      }
      for (double e : {1e-5, 1e-7, 1e-9}) Check<1>(Variant({p}, {sl::Clamped(p, {0.5, 0.5 + e, 0.75}, std::min(p, 2)).back()}, idx++, rat, wm), 2, 2, 9, true, S("cluster wm%d", wm));
      for (double f : {1e6, 1e-6, 0.0}) {
        ref::Spline s = Variant({p}, {sl::Clamped(p, {0.5}, 1, 100, 50).back()}, idx++, rat, wm);
        for (auto &x : s.cp) for (auto &y : x) y = (double) (y * f);
        Check<1>(s, 2, 2, 9, false, S("scaled%g wm%d", f, wm));
      }
      for (int pd : {5, 7}) {
        ref::Spline s = sl::Build({p}, {sl::Clamped(p, {0.5}, 1, 0, 5).back()}, pd, rat, pd);
        Check<1>(s, 2, 2, 9, false, S("pdim%d", pd));
      }
    }
    // long and narrow grids
    for (int k = 0; k < 4; ++k) {
      Knots A{0, 0}, B = sl::Clamped(2, {}, 1, -1, 3).back();
      for (int i = 1; i < 9; ++i) A.push_back(i * i);
      A.push_back(81); A.push_back(81);
      Check<2>(k % 2 ? Variant({1, 2}, {A, B}, idx++, rat, wm) : Variant({2, 1}, {B, A}, idx++, rat, wm), 1, 2, 2, false, S("narrow%d wm%d", k, wm));
    }
    for (int k = 0; k < 6; ++k) {
      const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
      std::vector<int> deg(3);
      std::vector<Knots> U(3);
      for (int d = 0; d < 3; ++d) {
        int r = perm[k][d];
        deg[d] = r == 0 ? 1 : r == 1 ? 2 : 3;
        U[d] = sl::Clamped(deg[d], r == 0 ? std::vector<double>{0.25, 0.5, 0.625} : r == 1 ? std::vector<double>{0.5} : std::vector<double>{}, 1, r - 1, 1 + r).back();
      }
      Check<3>(Variant(deg, U, idx++, rat, wm), rat ? 0 : 1, 1, rat ? 1 : 2, false, S("unequal%d wm%d", k, wm));
    }
  }
  // surfaces
  for (int p = 0; p <= 3; ++p)
    for (int q = 0; q <= 3; ++q)
      for (auto &U : sl::Clamped(p, {0.375}, std::min(p + 1, T ? 4 : 2)))
        for (auto &V : sl::Clamped(q, {0.25, 0.75}, std::min(q, 1) , -1, 3)) {
          int wm = idx % wmodes;
          Check<2>(Variant({p, q}, {U, V}, idx++, rat, wm), rat ? 1 : 2, rat ? 2 : 3, rat ? 2 : 4, false, S("wm%d", wm));
        }
  // volumes
  for (int p = 0; p <= 2; ++p)
    for (int q = 0; q <= 2; ++q)
      for (int r = 0; r <= 2; ++r)
        for (int pat = 0; pat < (T ? 3 : 2); ++pat) {
          std::vector<Knots> U;
          for (int d = 0; d < 3; ++d) {
            int deg = d == 0 ? p : d == 1 ? q : r;
            std::vector<double> br;
            if (pat == 1 && d == idx % 3) br = {0.5};
            if (pat == 2) br = {0.5};
            auto all = sl::Clamped(deg, br, 1, d == 1 ? -1 : 0, 1 + d);
            U.push_back(all.back());
          }
          int wm = idx % wmodes;
          Check<3>(Variant({p, q, r}, U, idx++, rat, wm), 1, 1 + (!rat || p + q + r <= 4), rat ? (p + q + r > 4 ? 1 : 2) : 3, false, S("wm%d", wm));
        }
  // mixed derivatives of higher order
  for (int k = 0; k < 6; ++k) {
    const int dg[6][2] = {{2, 3}, {3, 2}, {1, 3}, {3, 1}, {2, 2}, {3, 3}};
    std::vector<Knots> U;
    for (int d = 0; d < 2; ++d) U.push_back(sl::Clamped(dg[k][d], d == k % 2 ? std::vector<double>{0.375} : std::vector<double>{}, 1, d, 1 + d).back());
    for (int wm = 0; wm < wmodes; ++wm)
      Check<2>(Variant({dg[k][0], dg[k][1]}, U, idx++, rat, wm), 1, 4, rat ? (T ? 6 : 5) : 8, false, S("mixed wm%d", wm));
  }
  for (int k = 0; k < 3; ++k) {
    std::vector<int> deg{2, 2, 2};
    deg[k] = 1;
    std::vector<Knots> U;
    for (int d = 0; d < 3; ++d) U.push_back(sl::Clamped(deg[d], d == k ? std::vector<double>{0.5} : std::vector<double>{}, 1, d, 1 + d).back());
    Check<3>(Variant(deg, U, idx++, rat, k), 0, 3, rat ? 3 : 6, false, "mixed");
  }
  // four directions
  for (int m = 0; m < 16; ++m) {
    if (!T && rat && m % 3) { ++idx; continue; }
    std::vector<int> deg;
    std::vector<Knots> U;
    for (int d = 0; d < 4; ++d) {
      deg.push_back(m >> d & 1 ? (d == m % 4 ? 2 : 1) : (d == 0 ? 0 : 1));
      U.push_back(sl::Clamped(deg[d], d == m % 4 ? std::vector<double>{0.5} : std::vector<double>{}, 1, 0, 1 + d).back());
    }
    Check<4>(Variant(deg, U, idx++, rat, idx % wmodes), 1, 1, 1 + !rat, false, "4d");
  }
  return Finish();
}

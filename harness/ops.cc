// C05-C09, C11: every sequence (up to a depth) of knot insertion, refinement, knot removal, degree elevation, degree
// reduction and subdivision on the real splines; after every step the whole representation is read back and compared
// with the reference model (structure, knot bookkeeping, geometry, success/refusal of lossy operations).
#include <functional>
#include <set>
#include "sl.h"
using namespace mc;
using sl::Knots;
using ref::R;

struct Op {
  char k;            // I insert, F refine, R remove, E elevate, D reduce, S subdivide (continue with piece)
  int dir = 0;
  double u = 0;
  int mult = 1;
  double tol = 0;
  int piece = 0;
  bool leaf = false;  // not continued in the quick tier
  std::vector<double> list;
  std::string Str() const {
    switch (k) {
      case 'I': return S("insert(%g,dir%d,x%d)", u, dir, mult);
      case 'F': return S("refine(%s,dir%d)", Seq(list).c_str(), dir);
      case 'R': return S("remove(%g,dir%d,tol%g,x%d)", u, dir, tol, mult);
      case 'E': return S("elevate(dir%d)", dir);
      case 'D': return S("reduce(dir%d,tol%g)", dir, tol);
      default: return S("subdivide(%g,dir%d)->piece%d", u, dir, piece);
    }
  }
};
static std::string Tr(const std::vector<Op> &h) { std::string r; for (auto &o : h) r += o.Str() + ";"; return r; }

// Left- and right-sided d-th derivative jump of the homogeneous map across u in direction dir, relative to magnitude.
static R Jump(const ref::Spline &s, int dir, double u, int d) {
  const Knots &U = s.U[dir];
  int p = s.deg[dir], kr = ref::Span(U, u), kl = -1;
  for (int i = 0; i + 1 < (int) U.size(); ++i) if (U[i] < U[i + 1] && U[i + 1] <= u) kl = i;
  R worst = 0, mag = 1;
  std::vector<R> bl, br;
  for (int j = 0; j <= p; ++j) {
    bl.push_back(ref::PolyDer(ref::BasisPoly(U, kl - p + j, p, kl), (R) u - U[kl], d));
    br.push_back(ref::PolyDer(ref::BasisPoly(U, kr - p + j, p, kr), (R) u - U[kr], d));
  }
  int stride = 1;
  for (int e = 0; e < dir; ++e) stride *= s.N(e);
  for (int lin = 0; lin < s.Total(); ++lin) {
    if (lin / stride % s.N(dir) != 0) continue;
    for (int c = 0; c <= s.pdim; ++c) {
      R x = 0;
      for (int j = 0; j <= p; ++j) {
        int a = lin + (kl - p + j) * stride, b = lin + (kr - p + j) * stride;
        R va = s.w[a] * (c < s.pdim ? s.cp[a][c] : 1), vb = s.w[b] * (c < s.pdim ? s.cp[b][c] : 1);
        x += br[j] * vb - bl[j] * va;
        mag = std::max(mag, std::fabs(br[j] * vb));
      }
      worst = std::max(worst, std::fabs(x));
    }
  }
  return worst / mag;
}
// Largest p-th derivative (direction dir) of the homogeneous map over all spans, relative: 0 means degree < p.
static R TopDerivative(const ref::Spline &s, int dir) {
  const Knots &U = s.U[dir];
  int p = s.deg[dir], stride = 1;
  for (int e = 0; e < dir; ++e) stride *= s.N(e);
  R worst = 0;
  for (int k = 0; k + 1 < (int) U.size(); ++k) {
    if (!(U[k] < U[k + 1])) continue;
    for (int lin = 0; lin < s.Total(); ++lin) {
      if (lin / stride % s.N(dir) != 0) continue;
      for (int c = 0; c <= s.pdim; ++c) {
        R x = 0, mag = 1;
        for (int j = 0; j <= p; ++j) {
          int a = lin + (k - p + j) * stride;
          R b = ref::PolyDer(ref::BasisPoly(U, k - p + j, p, k), 0, p);
          R t = b * s.w[a] * (c < s.pdim ? s.cp[a][c] : 1);
          x += t;
          mag = std::max(mag, std::fabs(t));
        }
        worst = std::max(worst, std::fabs(x) / mag);
      }
    }
  }
  return worst;
}
static R MaxAbs(const ref::Spline &s) {
  R m = 1;
  for (auto &p : s.cp) { R n = 0; for (auto x : p) n += x * x; m = std::max(m, std::sqrt(n)); }
  return m;
}
static R MinW(const ref::Spline &s) { R m = s.w[0]; for (R w : s.w) m = std::min(m, w); return m; }

static R MaxW(const ref::Spline &s) { R m = s.w[0]; for (R w : s.w) m = std::max(m, w); return m; }

// Largest distance between the two maps over the common probe grid (restricted to b's range).
static R Deviation(const ref::Spline &a, const ref::Spline &b, std::vector<double> *where = nullptr) {
  std::vector<std::vector<double>> per;
  for (int d = 0; d < a.Dim(); ++d) {
    Knots u;
    double lo = b.U[d][0], hi = b.U[d].back();
    for (double x : a.U[d]) if (x >= lo && x <= hi) u.push_back(x);
    u.insert(u.end(), b.U[d].begin(), b.U[d].end());
    std::sort(u.begin(), u.end());
    int n = std::max(a.deg[d], b.deg[d]) * (a.rational && a.Dim() == 1 ? 2 : 1);
    per.push_back(ref::Probe(u, a.Dim() == 1 ? n + 1 : a.Dim() == 2 ? std::min(n + 1, 3) : 2, false));
  }
  R worst = 0;
  std::vector<int> z(a.Dim(), 0);
  for (auto &t : sl::Grid(per)) {
    auto x = a.Deriv(t, z), y = b.Deriv(t, z);
    R n = 0;
    for (int c = 0; c < a.pdim; ++c) n += (x[c] - y[c]) * (x[c] - y[c]);
    n = std::sqrt(n);
    if (!(n <= worst)) { worst = n; if (where) *where = t; }
    if (std::isnan(n)) { if (where) *where = t; return INFINITY; }
  }
  return worst;
}
static Knots Plus(Knots k, double u, int m) { k.insert(k.end(), m, u); std::sort(k.begin(), k.end()); return k; }
static Knots Minus(Knots k, double u, int m) {
  for (int i = 0; i < m; ++i) { auto it = std::find(k.begin(), k.end(), u); if (it != k.end()) k.erase(it); }
  return k;
}

template<int D> struct Runner {
  ref::Spline root;
  bool rational;
  int depth;
  std::function<std::vector<Op>(const ref::Spline &, const std::vector<Op> &)> alphabet;
  std::set<std::string> seen;
  bool check_eval = true;

  std::string Canon(const ref::Spline &s) {
    std::string r = sl::Str(s);
    for (auto &p : s.cp) for (R x : p) r += S("%.5Lf,", x);
    for (R w : s.w) r += S("%.5Lf,", w);
    return r;
  }
  std::shared_ptr<spl::Spline<D>> Apply(std::shared_ptr<spl::Spline<D>> s, const Op &o, long *res,
                                        std::array<std::shared_ptr<spl::Spline<D>>, 2> *pieces = nullptr) {
    *res = 0;
    switch (o.k) {
      case 'I': if (o.mult == 1) s->InsertKnot(ParamCoord{o.u}, o.dir); else s->InsertKnot(ParamCoord{o.u}, o.dir, o.mult); return s;
      case 'F': s->RefineKnots(sl::PC(o.list), o.dir); return s;
      case 'R': *res = static_cast<long>(o.mult == 1 ? s->RemoveKnot(ParamCoord{o.u}, o.dir, o.tol)
                                                     : s->RemoveKnot(ParamCoord{o.u}, o.dir, o.tol, o.mult)); return s;
      case 'E': s->ElevateDegreeForDimension(o.dir); return s;
      case 'D': *res = s->ReduceDegreeForDimension(o.dir, o.tol); return s;
      default: {
        std::array<std::shared_ptr<spl::Spline<D>>, 2> pc;
        if (rational) {
          auto q = std::dynamic_pointer_cast<spl::NURBS<D>>(s)->SudivideSpline(ParamCoord{o.u}, o.dir);
          pc = {q[0], q[1]};
        } else {
          auto q = std::dynamic_pointer_cast<spl::BSpline<D>>(s)->SudivideSpline(ParamCoord{o.u}, o.dir);
          pc = {q[0], q[1]};
        }
        if (pieces) *pieces = pc;
        return o.piece == 2 ? s : pc[o.piece];
      }
    }
  }
  // The library's own evaluation agrees with the reference evaluation of the representation just read.
  bool EvalAgrees(const spl::Spline<D> &s, const ref::Spline &r, const std::string &tr) {
    std::vector<std::vector<double>> per;
    for (int d = 0; d < D; ++d) per.push_back(ref::Probe(r.U[d], 1, false));
    if (D >= 2) for (auto &v : per) if (v.size() > 3) v = {v[0], v[1], v[v.size() / 2], v[v.size() - 2], v.back()};
    auto dims = sl::Dims(r.pdim);
    for (auto &t : sl::Grid(per)) {
      R sc;
      auto w = r.Deriv(t, std::vector<int>(D, 0), &sc);
      auto g = s.Evaluate(sl::At<D>(t), dims);
      for (int c = 0; c < r.pdim; ++c)
        if (!Near(g[c], w[c], sc, 1e-9L)) {
          Fail("after %s: evaluation at %s gives %.17g, its own control points give %.17Lg", tr.c_str(), Seq(t).c_str(), g[c], w[c]);
          return false;
        }
    }
    return true;
  }
  // The parameters that are evaluated before and again (in reverse order) after an operation, so that nothing that is
  // remembered between calls survives it; the parameter of the operation itself is the last one before and the first after.
  std::vector<std::vector<double>> WarmPoints(const ref::Spline &r, const Op &o) {
    std::vector<std::vector<double>> g, per;
    for (int d = 0; d < D; ++d) {
      Knots k = ref::Distinct(r.U[d]);
      std::vector<double> v{k[0], (k[0] + k[1]) / 2};
      if (k.size() > 2) v.push_back(k[k.size() / 2]);
      v.push_back(k.back());
      if (D > 2) v = {v[1], v.back()};
      per.push_back(v);
    }
    if (D > 2) {  // three of the corners of that grid
      for (int corner : {0, 5, 15}) { g.push_back({}); for (int d = 0; d < D; ++d) g.back().push_back(per[d][corner >> d & 1]); }
    } else {
      g = sl::Grid(per);
    }
    double u = o.k == 'F' && !o.list.empty() ? o.list[0] : o.u;
    const Knots &U = r.U[o.dir];
    if (u > U[0] && u < U.back()) {
      std::vector<double> t(D);
      for (int d = 0; d < D; ++d) t[d] = d == o.dir ? u : (2 * r.U[d][0] + r.U[d].back()) / 3;
      g.push_back(t);
    }
    return g;
  }
  void Warm(const spl::Spline<D> &s, const ref::Spline &r, const Op &o) {
    auto dims = sl::Dims(r.pdim);
    std::array<int, D> der{};
    der[o.dir] = 1;
    for (auto &t : WarmPoints(r, o)) { s.Evaluate(sl::At<D>(t), dims); s.EvaluateDerivative(sl::At<D>(t), dims, der); }
  }
  bool WarmAgrees(const spl::Spline<D> &s, const ref::Spline &pre, const ref::Spline &r, const Op &o, const std::string &tr) {
    auto g = WarmPoints(pre, o);
    auto dims = sl::Dims(r.pdim);
    std::vector<int> der(D, 0);
    der[o.dir] = 1;
    for (auto it = g.rbegin(); it != g.rend(); ++it) {
      bool in = true;
      for (int d = 0; d < D; ++d) in = in && (*it)[d] >= r.U[d][0] && (*it)[d] <= r.U[d].back();
      if (!in) continue;
      G().checks++;
      R sc, sd;
      auto w = r.Deriv(*it, std::vector<int>(D, 0), &sc), wd = r.Deriv(*it, der, &sd);
      auto v = s.Evaluate(sl::At<D>(*it), dims), vd = s.EvaluateDerivative(sl::At<D>(*it), dims, sl::Arr<D>(der));
      for (int c = 0; c < r.pdim; ++c) {
        if (!Near(v[c], w[c], sc, 1e-9L)) {
          Fail("after %s: evaluation at %s, which was also evaluated before, gives %.17g, want %.17Lg", tr.c_str(), Seq(*it).c_str(), v[c], w[c]);
          return false;
        }
        if (!Near(vd[c], wd[c], sd, 1e-8L)) {
          Fail("after %s: derivative at %s, which was also evaluated before, gives %.17g, want %.17Lg", tr.c_str(), Seq(*it).c_str(), vd[c], wd[c]);
          return false;
        }
      }
    }
    return true;
  }
  // The spline is indistinguishable from one freshly constructed from the data its accessors return.
  bool FreshAgrees(std::shared_ptr<spl::Spline<D>> s, const ref::Spline &r, const std::string &tr) {
    bool eq;
    double ex, fex;
    if (rational) {
      auto n = std::dynamic_pointer_cast<spl::NURBS<D>>(s);
      auto f = sl::MakeN<D>(r);
      eq = n->AreEqual(*f) && f->AreEqual(*n);
      ex = n->GetExpansion(); fex = f->GetExpansion();
      spl::NURBS<D> same(*n, sl::Cps(r));
      eq = eq && same.AreEqual(*f);
    } else {
      auto n = std::dynamic_pointer_cast<spl::BSpline<D>>(s);
      auto f = sl::MakeB<D>(r);
      eq = n->AreEqual(*f) && f->AreEqual(*n);
      ex = n->GetExpansion(); fex = f->GetExpansion();
    }
    if (!eq) { Fail("after %s: not equal to a spline constructed from the same data", tr.c_str()); return false; }
    if (!Near(ex, fex, fex, 1e-12L)) { Fail("after %s: expansion %g, that of a spline constructed from the same data is %g", tr.c_str(), ex, fex); return false; }
    for (int d = 0; d < D; ++d)
      if (!Near(s->GetKnotVectorRange(d), r.U[d].back() - r.U[d][0], 0, 1e-14L)) { Fail("after %s: knot range of direction %d", tr.c_str(), d); return false; }
    return true;
  }
  void Explore() {
    std::vector<Op> h;
    ref::Spline cur = root;
    seen.insert(Canon(root));
    G().states++;
    Rec(&h, cur, 0);
  }
  void Rec(std::vector<Op> *h, const ref::Spline &pre, R budget) {
    if ((int) h->size() >= depth) { G().traces++; return; }
    auto ops = alphabet(pre, *h);
    if (ops.empty()) { G().traces++; return; }
    for (auto &o : ops) {
      std::string tr = Tr(*h) + o.Str();
      SetCur(G().key);
      // stateless: rebuild from the root and replay the whole history
      auto s = sl::Make<D>(root);
      long res = 0;
      for (auto &x : *h) s = Apply(s, x, &res);
      bool warm = h->empty() || Thorough() || (h->size() == 1 && (&o - &ops[0]) % 3 == 0);  // quick: every third second operation
      if (warm) Warm(*s, pre, o);
      std::array<std::shared_ptr<spl::Spline<D>>, 2> pieces;
      auto orig = s;
      s = Apply(s, o, &res, &pieces);
      G().transitions++;
      std::string err;
      ref::Spline post = sl::Extract<D>(*s, rational, &err);
      if (!err.empty()) { Fail("after %s: %s", tr.c_str(), err.c_str()); continue; }
      R b = budget;
      if (!Post(pre, post, o, res, tr, &b, orig, pieces)) continue;
      if (warm && !WarmAgrees(*s, pre, post, o, tr)) continue;
      if (check_eval && !EvalAgrees(*s, post, tr)) continue;
      if (Prop("C11") && !FreshAgrees(s, post, tr)) continue;
      if (seen.insert(Canon(post)).second) G().states++;
      h->push_back(o);
      Rec(h, post, b);
      h->pop_back();
    }
  }
  bool Geo(const ref::Spline &a, const ref::Spline &b, R tol, const std::string &tr, const char *what) {
    std::vector<double> t;
    R dev = Deviation(a, b, &t);
    if (!(dev <= tol)) { Fail("after %s: %s moved by %.6Lg at %s (allowed %.3Lg)", tr.c_str(), what, dev, Seq(t).c_str(), tol); return false; }
    return true;
  }
  bool Post(const ref::Spline &pre, const ref::Spline &post, const Op &o, long res, const std::string &tr, R *budget,
            std::shared_ptr<spl::Spline<D>> orig, const std::array<std::shared_ptr<spl::Spline<D>>, 2> &pieces) {
    if (post.pdim != pre.pdim) { Fail("after %s: point dimension changed", tr.c_str()); return false; }
    for (R w : post.w) {
      if (!rational && w != 1) { Fail("after %s: B-spline weight %Lg", tr.c_str(), w); return false; }
      // a lossy removal or reduction with a large tolerance may lose the positive weights; everything else keeps them positive
      if (rational && !(w > 0) && !((o.k == 'D' || o.k == 'R') && o.tol > 1e-3)) { Fail("after %s: weight %Lg", tr.c_str(), w); return false; }
    }
    for (int d = 0; d < D; ++d) {
      if (d == o.dir) continue;
      if (post.deg[d] != pre.deg[d] || post.U[d] != pre.U[d]) { Fail("after %s: direction %d changed", tr.c_str(), d); return false; }
    }
    R round = 1e-10L * MaxAbs(pre) * (rational ? 1 / std::min((R) 1, MinW(pre)) : 1);
    const Knots &U = pre.U[o.dir], &V = post.U[o.dir];
    int p = pre.deg[o.dir], q = post.deg[o.dir];
    bool ok = true;
    auto Deg = [&](int want) { if (q != want) { Fail("after %s: degree %d, want %d", tr.c_str(), q, want); ok = false; } };
    auto KnotsAre = [&](const Knots &w) {
      if (V != w) { Fail("after %s: knots %s, want %s", tr.c_str(), Seq(V).c_str(), Seq(w).c_str()); ok = false; }
    };
    switch (o.k) {
      case 'I': Deg(p); KnotsAre(Plus(U, o.u, o.mult)); return ok && Geo(pre, post, round, tr, "geometry");
      case 'F': {
        Knots w = U;
        for (double x : o.list) w = Plus(w, x, 1);
        Deg(p); KnotsAre(w);
        return ok && Geo(pre, post, round, tr, "geometry");
      }
      case 'R': {
        int m = ref::Mult(U, o.u);
        bool removable_at_all = m > 0 && o.u != U[0] && o.u != U.back();
        if (res < 0 || res > o.mult || res > m) { Fail("after %s: reports %ld removals of a knot of multiplicity %d", tr.c_str(), res, m); return false; }
        if (!removable_at_all && res != 0) { Fail("after %s: removed an absent or end knot", tr.c_str()); return false; }
        Deg(p);
        KnotsAre(Minus(U, o.u, res));
        if (!ok) return false;
        if (res == 0 && !sl::Same(pre, post)) { Fail("after %s: refused but the spline changed", tr.c_str()); return false; }
        // (the tolerance must be above the rounding errors of the homogeneous control points)
        if (removable_at_all && o.tol * (rational ? MinW(pre) / (1 + MaxAbs(pre)) : 1) >= 1e-12L * MaxAbs(pre) * MaxW(pre)) {
          // how often the knot can be removed exactly
          int exact = 0;
          while (exact < std::min(m, o.mult) && Jump(pre, o.dir, o.u, p - m + 1 + exact) < 1e-13L) ++exact;
          if (res < exact) { Fail("after %s: removed %ld, %d removals are exact", tr.c_str(), res, exact); return false; }
          if (o.tol >= 1e3 && !rational && res != std::min(m, o.mult)) {
            Fail("after %s: tolerance %g refused (%ld of %d)", tr.c_str(), o.tol, res, std::min(m, o.mult)); return false;
          }
        }
        if (rational && !(MinW(post) > 0)) return false;  // lossy removal left the positive weights: not continued
        R allowed = o.tol * res * (rational ? 2 : 1.0001L) + round;
        *budget += allowed;
        return Geo(pre, post, allowed, tr, "geometry");
      }
      case 'E': {
        Deg(p + 1);
        auto a = ref::Distinct(U), b = ref::Distinct(V);
        if (a != b) { Fail("after %s: distinct knots %s, want %s", tr.c_str(), Seq(b).c_str(), Seq(a).c_str()); return false; }
        for (double x : a) {
          int mo = ref::Mult(U, x), mn = ref::Mult(V, x);
          bool end = x == a[0] || x == a.back();
          if (mn < mo + 1 || (end && mn != p + 2) || mn > std::max(p + 1, mo + 1) + (end ? 1 : 0)) {
            Fail("after %s: multiplicity of %g went from %d to %d", tr.c_str(), x, mo, mn); return false;
          }
        }
        return ok && Geo(pre, post, round, tr, "geometry");
      }
      case 'D': {
        auto a = ref::Distinct(U), b = ref::Distinct(V);
        bool possible = p >= 2 && TopDerivative(pre, o.dir) < 1e-13L;
        if (p <= 1 && res) { Fail("after %s: degree %d reported as reduced", tr.c_str(), p); return false; }
        if (possible && !res && o.tol >= 1e-8) { Fail("after %s: refused although the degree is not used", tr.c_str()); return false; }
        if (!res) {
          Deg(p);
          if (pre.U != post.U) { Fail("after %s: refused but the knots changed from %s to %s", tr.c_str(), Seq(U).c_str(), Seq(V).c_str()); return false; }
          return ok && Geo(pre, post, round * 10, tr, "geometry of the refused spline");
        }
        Deg(p - 1);
        for (double x : b) if (ref::Mult(U, x) == 0) { Fail("after %s: new knot %g", tr.c_str(), x); return false; }
        for (double x : a) {
          bool end = x == a[0] || x == a.back();
          if (end && ref::Mult(V, x) != p) { Fail("after %s: end knot %g has multiplicity %d", tr.c_str(), x, ref::Mult(V, x)); return false; }
          if (!end && ref::Mult(V, x) < ref::Mult(U, x) - 1) { Fail("after %s: knot %g lost too much multiplicity", tr.c_str(), x); return false; }
          if (!end && ref::Mult(V, x) > p - 1) { Fail("after %s: knot %g has multiplicity %d", tr.c_str(), x, ref::Mult(V, x)); return false; }
        }
        if (rational && !(MinW(post) > 1e-3L)) return false;  // lossy reduction left the positive weights: not continued
        R allowed = o.tol * (rational ? 2 * (1 + MaxAbs(pre)) / std::min(MinW(pre), MinW(post)) : 1.0001L) + round * 10;
        *budget += allowed;
        return ok && Geo(pre, post, allowed, tr, "geometry");
      }
      default: {
        for (int i = 0; i < 2; ++i) {
          std::string err;
          ref::Spline pc = sl::Extract<D>(*pieces[i], rational, &err);
          if (!err.empty()) { Fail("after %s: piece %d: %s", tr.c_str(), i, err.c_str()); return false; }
          double lo = i == 0 ? U[0] : o.u, hi = i == 0 ? o.u : U.back();
          if (pc.deg != pre.deg) { Fail("after %s: piece %d: degree changed", tr.c_str(), i); return false; }
          for (int d = 0; d < D; ++d) {
            if (d != o.dir && pc.U[d] != pre.U[d]) { Fail("after %s: piece %d: direction %d changed", tr.c_str(), i, d); return false; }
          }
          Knots w;
          for (double x : U) if (x > lo && x < hi) w.push_back(x);
          w = Plus(Plus(w, lo, p + 1), hi, p + 1);
          if (pc.U[o.dir] != w) { Fail("after %s: piece %d has knots %s, want %s", tr.c_str(), i, Seq(pc.U[o.dir]).c_str(), Seq(w).c_str()); return false; }
          // the pieces include the split parameter: compare on the closed range by continuity of the piece
          ref::Spline left = pre;
          if (!GeoPiece(pre, pc, o, i, round, tr)) return false;
          if (!EvalAgrees(*pieces[i], pc, tr + S(" piece %d", i))) return false;
        }
        std::string err;
        ref::Spline after = sl::Extract<D>(*orig, rational, &err);
        if (!err.empty()) { Fail("after %s: original: %s", tr.c_str(), err.c_str()); return false; }
        if (after.deg != pre.deg) { Fail("after %s: degree of the subdivided spline changed", tr.c_str()); return false; }
        return Geo(pre, after, round, tr, "geometry of the subdivided spline");
      }
    }
  }
  bool GeoPiece(const ref::Spline &pre, const ref::Spline &pc, const Op &o, int i, R round, const std::string &tr) {
    if (ref::Mult(pre.U[o.dir], o.u) <= pre.deg[o.dir] || o.mult == 2) return Geo(pre, pc, round, tr, i ? "second piece" : "first piece");
    return true;  // possibly discontinuous at the split parameter: only where the alphabet knows that it is continuous
  }
};

// ---- roots ----
static ref::Spline Shape(std::vector<int> deg, std::vector<Knots> U, int pdim, bool rational, int mode, int seed) {
  ref::Spline s = sl::Build(deg, U, pdim, rational, seed);
  if (mode == 0) return s;
  if (mode == 4) {  // very unequal weights
    if (rational) for (size_t i = 0; i < s.w.size(); ++i) s.w[i] = (i + seed) % 3 == 1 ? 0.03125 : (i + seed) % 3 == 2 ? 20 : 1;
    return s;
  }
  if (mode == 5) {  // large coordinates
    for (auto &p : s.cp) for (auto &x : p) x = x * 4096;
    return s;
  }
  if (mode == 6) {  // small weights all over
    if (rational) for (auto &w : s.w) w = w / 16;
    return s;
  }
  if (mode == 3) {  // zigzag: next-but-one control points coincide
    for (int lin = 0; lin < s.Total(); ++lin) {
      int rest = lin, parity = 0;
      for (int d = 0; d < s.Dim(); ++d) { parity += rest % s.N(d); rest /= s.N(d); }
      for (int c = 0; c < pdim; ++c) s.cp[lin][c] = parity % 2 ? 2.0 + c : -1.0 - c;
      if (rational) s.w[lin] = parity % 2 ? 2.0 : 1.0;
    }
    return s;
  }
  for (int lin = 0; lin < s.Total(); ++lin) {
    int rest = lin;
    for (int d = 0; d < s.Dim(); ++d) {
      int i = rest % s.N(d);
      rest /= s.N(d);
      R g = 0;
      for (int j = 1; j <= deg[d]; ++j) g += U[d][i + j];
      g = deg[d] ? g / deg[d] : 0;
      for (int c = 0; c < pdim; ++c) {
        if (d == 0) s.cp[lin][c] = mode == 2 ? 1.5L : 0.5L * c;
        if (mode == 1 && c % s.Dim() == d) s.cp[lin][c] += g;
      }
    }
    // round to double, because that is what the library gets
    for (auto &x : s.cp[lin]) x = (double) x;
    if (rational) s.w[lin] = mode == 1 ? 1.0 : 2.0;
  }
  return s;
}

static std::vector<double> Params(const Knots &U, int n) {
  std::vector<double> r;
  auto k = ref::Distinct(U);
  for (size_t i = 1; i + 1 < k.size(); ++i) r.push_back(k[i]);
  static const double f[] = {0.625, 0.125, 0.9375, 0.4375, 0.03125};
  for (int i = 0; i < n; ++i) {
    double x = U[0] + f[i] * (U.back() - U[0]);
    if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x);
  }
  return r;
}

static std::vector<Op> Alphabet(const ref::Spline &s, const std::vector<Op> &h, int D, int fine) {
  std::vector<Op> r;
  const std::string &P = G().property;
  if (!Thorough() && !h.empty() && h.back().leaf) return r;
  for (int d = 0; d < D; ++d) {
    const Knots &U = s.U[d];
    int p = s.deg[d];
    auto us = Params(U, fine);
    auto Ins = [&](double u, int m) { Op o; o.k = 'I'; o.dir = d; o.u = u; o.mult = m; r.push_back(o); };
    auto Rem = [&](double u, double tol, int m) { Op o; o.k = 'R'; o.dir = d; o.u = u; o.tol = tol; o.mult = m; r.push_back(o); };
    auto Ele = [&]() { Op o; o.k = 'E'; o.dir = d; r.push_back(o); };
    auto Red = [&](double tol) { Op o; o.k = 'D'; o.dir = d; o.tol = tol; r.push_back(o); };
    auto Sub = [&](double u, int piece) { Op o; o.k = 'S'; o.dir = d; o.u = u; o.piece = piece; r.push_back(o); };
    if (P == "C05") {
      for (double u : us) {
        int m = ref::Mult(U, u);
        for (int k = 1; k <= p - m; ++k) Ins(u, k);
        if (m <= p && D == 1) Ins(u, p + 1 - m);
      }
      if (D == 1 && h.empty()) {  // right beside the knots
        auto dk = ref::Distinct(U);
        for (double e : {1e-6, -1e-6, 1e-10}) for (size_t i = e < 0 ? 1 : 0; i < dk.size() - (e < 0 ? 0 : 1); ++i) { Ins(dk[i] + e * (U.back() - U[0]), 1 + (e < 0 && p > 1)); r.back().leaf = true; }
      }
      if (h.empty()) { Op o; o.k = 'F'; o.dir = d; o.leaf = true; r.push_back(o); }
      if (h.empty() || D == 1) {
        Op o; o.k = 'F'; o.dir = d;
        if (D == 1 && h.empty()) {  // up to a multiplicity of degree + 1
          for (double u : us) if (ref::Mult(U, u) <= p) o.list.push_back(u);
          if (o.list.size() > 0) r.push_back(o);
          o.list.clear();
          for (double u : us) for (int m = ref::Mult(U, u); m <= p; ++m) o.list.push_back(u);
          if (o.list.size() > 0) r.push_back(o);
          o.list.clear();
        }
        for (double u : us) if (ref::Mult(U, u) < p) o.list.push_back(u);
        if (o.list.size() > 1) {
          r.push_back(o);
          std::reverse(o.list.begin(), o.list.end());
          if (p >= 2 && ref::Mult(U, o.list[0]) + 2 <= p) o.list.push_back(o.list[0]);
          r.push_back(o);
        }
      }
    } else if (P == "C06") {
      bool T = Thorough();
      if (!h.empty() && !T && h.back().k == 'R' && (h.back().tol == 0.01 || h.back().tol == 0.2 || h.back().tol == 1 || h.back().tol == 3)) return r;
      if (h.empty() || (h.size() < 2 && T)) for (double u : us) {
        int m = ref::Mult(U, u);
        for (int k = 1; k <= p - m; ++k) if (k == 1 || D == 1) Ins(u, k);
        if (m <= p && p <= 2) Ins(u, p + 1 - m);
      }
      for (double u : us) {
        int m = ref::Mult(U, u);
        if (m == 0) { if (D == 1) Rem(u, 1e-7, 1); continue; }
        Rem(u, 1e-7, 1);
        if (m > 1) { Rem(u, 1e-7, m); }
        Rem(u, 1e-7, m + 1);
        if ((D == 1 && (h.size() < 2 || T)) || h.empty()) {
          Rem(u, 0.05, 1);
          if (h.empty()) { Rem(u, 0.01, 1); Rem(u, 0.2, 1); Rem(u, 1, 1); Rem(u, 3, 1); }
          Rem(u, 0.6, m);
          if (!s.rational) { Rem(u, 1e6, 1); if (h.size() < 2) Rem(u, 1e6, m + 1); }
          if (h.size() < 2) Rem(u, 1e-16, 1);
        }
      }
      if (h.empty()) { Rem(U[0], 1e6, 1); Rem(U.back(), 1e6, 1); }
    } else if (P == "C07") {
      if (p < 6 || h.empty()) Ele();
      if (h.size() < 2) for (double u : us) { int m = ref::Mult(U, u); if (m < p) { Ins(u, 1); break; } }
      if (h.size() == 1 && h[0].k == 'E') for (double u : us) { int m = ref::Mult(U, u); if (m == 0) { Ins(u, p); break; } }
    } else if (P == "C08") {
      int e = 0;
      for (auto &o : h) e += o.k == 'E';
      if (e < 2 && (p < 6 || h.empty())) Ele();
      Red(1e-7);
      if (h.empty()) { Red(0.02); Red(0.1); Red(0.5); Red(1.5); Red(5); }
      if (D == 1 && !h.empty()) { for (double u : us) if (ref::Mult(U, u) < p) { Ins(u, 1); break; } }
    } else if (P == "C09") {
      // piece 2: go on with the subdivided spline itself, also by splitting it again at the same parameter
      for (double u : us) for (int k = 0; k < 3; ++k) if (ref::Mult(U, u) <= p && (k < 2 || h.empty())) Sub(u, k);
      if (!h.empty() && h.back().k == 'S' && h.back().piece == 2 && h.back().dir == d) for (int k = 0; k < 2; ++k) { Sub(h.back().u, k); r.back().mult = 2; }
      if (D == 1 && h.empty()) {
        auto dk = ref::Distinct(U);
        for (double e : {1e-6, -1e-6}) for (size_t i = e < 0 ? 1 : 0; i < dk.size() - (e < 0 ? 0 : 1); ++i) for (int k = 0; k < 2; ++k) { Sub(dk[i] + e * (U.back() - U[0]), k); r.back().leaf = true; }
      }
      if (D == 1 && h.empty()) { for (double u : us) if (ref::Mult(U, u) < p) { Ins(u, 1); } }
    } else if (P == "C11") {
      for (size_t i = 0; i < us.size(); ++i) {
        int m = ref::Mult(U, us[i]);
        if (m < p) Ins(us[i], 1);
        if (m > 0) Rem(us[i], 1e-7, 1);
        if (i == 0) { Sub(us[i], 0); Sub(us[i], 1); }
      }
      if (p < 5) Ele();
      Red(1e-7);
    }
  }
  return r;
}

template<int D> static void Root(const ref::Spline &s, const std::string &label, int depth, int fine, bool eval = true) {
  if (!Begin(sl::Str(s) + label)) return;
  Runner<D> run;
  run.root = s;
  run.rational = s.rational;
  run.depth = depth;
  run.check_eval = eval;
  run.alphabet = [fine](const ref::Spline &cur, const std::vector<Op> &h) { return Alphabet(cur, h, D, fine); };
  run.Explore();
}
template<int D> static void Root(const std::vector<int> &deg, const std::vector<Knots> &U, int pdim, bool rational, int mode,
                                 int seed, int depth, int fine, bool eval = true) {
  Root<D>(Shape(deg, U, pdim, rational, mode, seed), S(" shape%d seed%d depth%d", mode, seed, depth), depth, fine, eval);
}
// A spline whose knots can all be removed and whose degrees can be reduced, except for what one coordinate (or the
// weight) of one control point spoils: for every control point.
template<int D> static void Spoiled(const std::vector<int> &deg, const std::vector<Knots> &U, int pdim, bool rational, int depth) {
  ref::Spline base = Shape(deg, U, pdim, rational, 1, 0);
  for (int i = 0; i < base.Total(); ++i)
    for (int c = 0; c <= pdim; ++c) {
      if (c == pdim && !rational) continue;
      if (pdim > 1 && c != pdim && c != i % pdim && !Thorough()) continue;
      ref::Spline s = base;
      if (c < pdim) s.cp[i][c] = (double) (s.cp[i][c] + 0.375L); else s.w[i] = 1.5;
      Root<D>(s, S(" spoiled point %d coordinate %d depth%d", i, c, depth), depth, D == 1 ? 1 : 0, false);
    }
}
// The same far away from the origin, where what spoils is a weight alone (the weighted coordinates are as before): a small
// difference of the homogeneous control points is a large one of the points.
template<int D> static void SpoiledFar(const std::vector<int> &deg, const std::vector<Knots> &U, int pdim, int depth) {
  ref::Spline base = Shape(deg, U, pdim, true, 1, 0);
  for (R shift : {-64.0L, 64.0L})
    for (int i = 0; i < base.Total(); ++i) {
      ref::Spline s = base;
      for (auto &p : s.cp) for (auto &x : p) x = (double) (x + shift);
      R w = (double) (s.w[i] * 1.0625L);
      for (auto &x : s.cp[i]) x = (double) (x * s.w[i] / w);
      s.w[i] = w;
      Root<D>(s, S(" far %Lg spoiled weight %d depth%d", shift, i, depth), depth, D == 1 ? 1 : 0, false);
    }
}

int main(int argc, char **argv) {
  Init(argc, argv);
  bool T = Thorough();
  std::string P = G().property;
  int seed = 0;
  // curves
  int d1 = P == "C05" ? 3 : P == "C06" ? 3 : P == "C07" ? 3 : P == "C08" ? 4 : P == "C09" ? 2 : 3;
  if (T) d1 += 1;
  for (int rat = 0; rat < 2; ++rat)
    for (int p = 1; p <= (T ? 5 : 4); ++p)
      for (int dom = 0; dom < 2; ++dom)
        for (auto &U : sl::Clamped(p, {0.25, 0.6875}, std::min(p, 2), dom ? -2 : 0, dom ? 3 : 1))
          for (int mode = 0; mode < 4; ++mode) {
            if (mode && (P == "C05" || P == "C07" || P == "C09") && dom) continue;
            ++seed;
            bool heavy = U.size() > static_cast<size_t>(2 * p + 4);
            int dep = d1 - ((heavy && !T) || (P != "C08" && p == 4 && !T) ? 1 : 0);
            if (P == "C06" && !T && (p >= 3 || dom)) dep = 2;
            if (P == "C05" && !T && (p >= 3 && dom)) dep = std::min(dep, 2);
            if (P == "C11" && !T && (p >= 3 && dom)) dep = std::min(dep, 2);
            if (P == "C08" && !T && (p >= 3 && dom)) dep = std::min(dep, 3);
            Root<1>({p}, {U}, 1 + seed % 3, rat, mode, seed % 4, dep, 2);
          }
  // high multiplicities and degrees
  for (int rat = 0; rat < 2; ++rat) {
    for (int p = 3; p <= (T ? 6 : 5); ++p)
      for (int m = 2; m <= p; ++m)
        for (int m2 : {0, 1, p - 1, p}) {
          Knots U(p + 1, -1.0);
          U.insert(U.end(), m, 0.0);
          U.insert(U.end(), m2, 1.25);
          U.insert(U.end(), p + 1, 2.0);
          if (m <= 2 && m2 <= 2 && p <= 4) continue;
          ++seed;
          int dep = P == "C07" || P == "C08" || P == "C09" || p <= 3 ? 2 : 1;
          for (int mode : {0, 1}) Root<1>({p}, {U}, 1 + seed % 3, rat, mode, seed % 4, T ? 2 : dep, 1);
        }
    for (int p = 6; p <= (T || P == "C07" || P == "C08" ? 9 : 7); ++p)
      for (int mode : {0, 1}) Root<1>({p}, {sl::Clamped(p, {0.375}, 2).back()}, 2, rat, mode, seed++ % 4, P == "C07" || P == "C06" || P == "C08" ? 2 : 1, 1);
    // very unequal weights, large coordinates, small weights
    for (int p = 1; p <= 3; ++p)
      for (int mode = 4; mode < 7; ++mode)
        for (auto &U : sl::Clamped(p, {0.25, 0.6875}, std::min(p, 2))) {
          if (mode != 5 && !rat) continue;
          for (int sd = 0; sd < (P == "C06" || T ? 3 : 1); ++sd) Root<1>({p}, {U}, 1 + sd, rat, mode, sd, P == "C08" ? 3 : 2, 1);
        }
  }
  // one control point spoils what would be exact
  if (P == "C06" || P == "C08") for (int rat = 0; rat < 2; ++rat) {
    for (int p = 1; p <= 4; ++p) Spoiled<1>({p}, {sl::Clamped(p, {0.25, 0.5, 0.8125}, 1, -1, 2).back()}, 1 + p % 3, rat, 2);
    for (int p = 1; p <= (T ? 3 : 2); ++p)
      for (int q = 1; q <= (T ? 3 : 2); ++q)
        Spoiled<2>({p, q}, {sl::Clamped(p, {0.25, 0.6875}, 1).back(), sl::Clamped(q, {0.5}, 1, -1, 3).back()}, 1 + (p + q) % 3, rat, 1);
    Spoiled<3>({1, 2, 1}, {sl::Clamped(1, {0.5}, 1).back(), sl::Clamped(2, {}, 1, -1, 3).back(), sl::Clamped(1, {0.25}, 1).back()}, 3, rat, 1);
    Spoiled<3>({2, 1, 1}, {sl::Clamped(2, {0.5}, 1).back(), sl::Clamped(1, {0.5}, 1, -1, 3).back(), sl::Clamped(1, {}, 1).back()}, 2, rat, 1);
    Spoiled<3>({1, 1, 2}, {sl::Clamped(1, {}, 1).back(), sl::Clamped(1, {0.25}, 1, -1, 3).back(), sl::Clamped(2, {0.5}, 1).back()}, 1, rat, 1);
  }
  if (P == "C06" || P == "C08") {
    for (int p = 1; p <= 3; ++p) SpoiledFar<1>({p}, {sl::Clamped(p, {0.25, 0.5, 0.8125}, 1, -1, 2).back()}, 1 + p % 3, 1);
    for (int p = 1; p <= 2; ++p) SpoiledFar<2>({p, 3 - p}, {sl::Clamped(p, {0.25, 0.6875}, 1).back(), sl::Clamped(3 - p, {0.5}, 1, -1, 3).back()}, 2, 1);
  }
  // long and narrow surfaces, unequal volumes, four directions
  for (int rat = 0; rat < 2; ++rat) {
    Knots A{0, 0};
    for (int i = 1; i < 6; ++i) A.push_back(i * i);
    A.push_back(36); A.push_back(36);
    Knots B = sl::Clamped(2, {}, 1, -1, 3).back(), C = sl::Clamped(3, {0.5}, 2, 1, 2).back();
    Root<2>({1, 2}, {A, B}, 2, rat, 0, 1, 1, 1);
    Root<2>({2, 1}, {B, A}, 3, rat, 0, 2, 1, 1);
    Root<2>({1, 3}, {A, C}, 1, rat, 0, 3, 1, 1);
    Root<2>({3, 1}, {C, A}, 2, rat, 0, 0, 1, 1);
    for (int k = 0; k < 6; ++k) {
      const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
      std::vector<int> deg(3);
      std::vector<Knots> U(3);
      for (int d = 0; d < 3; ++d) {
        int r = perm[k][d];
        deg[d] = r == 0 ? 1 : r == 1 ? 2 : 3;
        U[d] = sl::Clamped(deg[d], r == 0 ? std::vector<double>{0.25, 0.5, 0.625} : r == 1 ? std::vector<double>{0.5} : std::vector<double>{}, 1, r - 1, 1 + r).back();
      }
      Root<3>(deg, U, 1 + k % 3, rat, k % 2, k % 4, T ? 2 : 1, 1, false);
    }
    for (int k = 0; k < 4; ++k) {
      std::vector<int> deg(4, 1);
      deg[k] = 2;
      std::vector<Knots> U;
      for (int d = 0; d < 4; ++d) U.push_back(sl::Clamped(deg[d], d == (k + 1) % 4 ? std::vector<double>{0.5} : std::vector<double>{}, 1, d, 1 + d).back());
      Root<4>(deg, U, 1 + k % 3, rat, k % 2, k, 1, 1, false);
    }
  }
  // many interior knots
  for (int rat = 0; rat < 2; ++rat)
    for (int p = 1; p <= 3; ++p) {
      Knots U(p + 1, 0.0);
      for (int i = 1; i <= 6; ++i) U.push_back(i * i / 49.0);
      for (int i = 0; i <= p; ++i) U.push_back(1);
      Root<1>({p}, {U}, 2, rat, 0, seed++ % 4, T ? 2 : 1, 3);
      Root<1>({p}, {U}, 2, rat, 1, seed++ % 4, T ? 2 : 1, 3);
    }
  // surfaces
  for (int rat = 0; rat < 2; ++rat)
    for (int p = 1; p <= 3; ++p)
      for (int q = 1; q <= 3; ++q)
        for (int pat = 0; pat < 3; ++pat) {
          std::vector<double> none, one{0.375}, two{0.25, 0.6875};
          auto U = sl::Clamped(p, pat == 0 ? none : one, std::min(p, pat == 2 ? 2 : 1)).back();
          auto V = sl::Clamped(q, pat == 2 ? two : none, 1, -1, 3).back();
          for (int mode = 0; mode < 4; ++mode) {
            if (mode == 2) continue;
            if (mode && !(P == "C06" || P == "C08" || P == "C11")) continue;
            ++seed;
            int dep = (P == "C07" || P == "C08") ? 3 : 2;
            if (!T && pat == 2) dep = std::min(dep, 2);
            if (!T && (p + q >= 5)) dep = std::min(dep, P == "C08" ? 3 : 2);
            Root<2>({p, q}, {U, V}, 1 + seed % 3, rat, mode, seed % 4, dep, 1);
          }
        }
  // volumes
  for (int rat = 0; rat < 2; ++rat)
    for (int m = 0; m < 8; ++m) {
      std::vector<int> deg;
      std::vector<Knots> U;
      for (int d = 0; d < 3; ++d) {
        deg.push_back(1 + (m >> d & 1));
        U.push_back(sl::Clamped(deg[d], d == m % 3 ? std::vector<double>{0.375} : std::vector<double>{}, 1, d, 1 + d).back());
      }
      ++seed;
      Root<3>(deg, U, 1 + seed % 3, rat, 0, seed % 4, T || P == "C08" || P == "C06" ? 2 : (P == "C07" ? 2 : 1), 1);
    }
  return Finish();
}

// C12 construction, C13 knot vectors, C14 multi-indices, C22 equality, C33 value types.
#include <set>
#include "any_casts.h"
#include "element_generator.h"
#include "sl.h"
using namespace mc;
using sl::Knots;
using ref::R;

// ---------------------------------------------------------------- C12
static bool ValidKnots(const Knots &k, int p) {
  int n = k.size();
  if (n < 2 * p + 2) return false;
  for (int i = 0; i <= p; ++i) if (k[i] != k[0] || k[n - 1 - i] != k[n - 1]) return false;
  return true;
}
template<class F> static int Outcome(F f, std::string *what) {  // 0 accepted, 1 runtime_error, 2 anything else
  try { f(); return 0; }
  catch (const std::runtime_error &e) { *what = e.what(); return 1; }
  catch (const std::exception &e) { *what = std::string("other exception: ") + e.what(); return 2; }
}
template<int D> static void Construct(const std::vector<Knots> &U, const std::vector<int> &deg, const std::vector<baf::ControlPoint> &cps,
                                      const std::vector<double> &w, bool ok, bool ok_rational, const char *why) {
  std::array<Degree, D> dg;
  for (int d = 0; d < D; ++d) dg[d] = Degree{deg[d]};
  auto kv = [&] { std::array<std::shared_ptr<baf::KnotVector>, D> r; for (int d = 0; d < D; ++d) r[d] = sl::KV(U[d]); return r; };
  for (int way = 0; way < 4; ++way) {
    std::string what;
    ref::Spline got;
    std::string err;
    int o = Outcome([&] {
      if (way == 0) { spl::BSpline<D> s(kv(), dg, cps); got = sl::Extract<D>(s, false, &err); }
      else if (way == 1) { spl::NURBS<D> s(kv(), dg, cps, w); got = sl::Extract<D>(s, true, &err); }
      else if (way == 2) { spl::BSplineGenerator<D> g(kv(), dg, cps); spl::BSpline<D> s(g); got = sl::Extract<D>(s, false, &err); }
      else { spl::NURBSGenerator<D> g(kv(), dg, cps, w); spl::NURBS<D> s(g); got = sl::Extract<D>(s, true, &err); }
    }, &what);
    G().transitions++;
    bool want = way % 2 ? ok_rational : ok;
    static const char *names[] = {"B-spline", "NURBS", "B-spline generator", "NURBS generator"};
    if (o == 2) Fail("%s %s: %s", names[way], why, what.c_str());
    else if (want && o == 1) Fail("%s rejected a valid spline (%s): %s", names[way], why, what.c_str());
    else if (!want && o == 0) Fail("%s accepted an invalid spline (%s)", names[way], why);
    else if (want) {
      if (!err.empty()) { Fail("%s: %s", names[way], err.c_str()); continue; }
      ref::Spline in;
      in.deg = deg; in.U = U; in.pdim = cps[0].GetDimension();
      for (size_t i = 0; i < cps.size(); ++i) {
        std::vector<R> q;
        for (int c = 0; c < in.pdim; ++c) q.push_back(cps[i].GetValue(c));
        in.cp.push_back(q);
        in.w.push_back(way % 2 ? w[i] : 1.0);
      }
      if (!sl::Same(in, got)) Fail("%s does not hold the data it was given", names[way]);
    }
  }
}
static std::vector<baf::ControlPoint> Points(int n, int pdim, int bad = -1, int baddim = 0) {
  std::vector<baf::ControlPoint> r;
  for (int i = 0; i < n; ++i) {
    std::vector<double> x;
    for (int c = 0; c < (i == bad ? baddim : pdim); ++c) x.push_back(sl::Coord(i, c, 1));
    r.push_back(baf::ControlPoint(x));
  }
  return r;
}
static std::vector<double> Weights(int n) { std::vector<double> r; for (int i = 0; i < n; ++i) r.push_back(sl::Weight(i, 2)); return r; }

static void C12() {
  int maxlen = Thorough() ? 11 : 9;
  for (int p = 0; p <= (Thorough() ? 4 : 3); ++p)
    for (int len = 0; len <= maxlen; ++len) {
      // all non-decreasing sequences over {0,1,2,3}
      std::vector<int> cnt(4, 0);
      for (cnt[0] = 0; cnt[0] <= len; ++cnt[0]) for (cnt[1] = 0; cnt[0] + cnt[1] <= len; ++cnt[1])
        for (cnt[2] = 0; cnt[0] + cnt[1] + cnt[2] <= len; ++cnt[2]) {
          cnt[3] = len - cnt[0] - cnt[1] - cnt[2];
          Knots k;
          for (int v = 0; v < 4; ++v) for (int i = 0; i < cnt[v]; ++i) k.push_back(v);
          if (!Begin(S("curve degree %d knots ", p) + Seq(k))) continue;
          bool valid = ValidKnots(k, p);
          if (valid && k[0] == k.back()) continue;  // empty range: nothing is claimed
          int n = static_cast<int>(k.size()) - p - 1;
          for (int m = 0; m <= std::max(n, 0) + 2; ++m) {
            Construct<1>({k}, {p}, Points(m, 2), Weights(m), valid && m == n, valid && m == n, "control point count");
            G().states++;
          }
          if (valid) {
            for (int m = 0; m <= n + 2; ++m) Construct<1>({k}, {p}, Points(n, 3), Weights(m), true, m == n, "weight count");
            for (int b = 1; b < n; ++b) for (int bd : {1, 2, 4}) Construct<1>({k}, {p}, Points(n, 3, b, bd), Weights(n), false, false, "mixed dimensions");
            if (n > 1) Construct<1>({k}, {p}, Points(n, 3, 0, 2), Weights(n), false, false, "mixed dimensions");
          }
          G().traces++;
        }
    }
  // one bad direction out of two or three
  struct Bad { const char *name; Knots k; };
  for (int p = 0; p <= 2; ++p)
    for (int dir = 0; dir < 3; ++dir) {
      auto good = [&](int d) { return sl::Clamped((p + d) % 3, {0.5}, 1, d, 1 + d).back(); };
      std::vector<int> deg{p, (p + 1) % 3, (p + 2) % 3};
      Knots g = good(dir);
      int q = deg[dir];
      std::vector<Bad> bad{{"valid", g}};
      Knots x = g; x[0] -= 0.5; if (q > 0) bad.push_back({"first knot", x});
      x = g; x[q] += 0.125; if (q > 0) bad.push_back({"last of the first knots", x});
      x = g; x.back() += 1; if (q > 0) bad.push_back({"last knot", x});
      x = g; x[x.size() - 1 - q] -= 0.125; if (q > 0) bad.push_back({"first of the last knots", x});
      for (double e : {1e-5, 1e-9}) {
        x = g; x[0] -= e; if (q > 0) bad.push_back({"first knot slightly different", x});
        x = g; x[q] += e; if (q > 0) bad.push_back({"last of the first knots slightly different", x});
        x = g; x.back() += e; if (q > 0) bad.push_back({"last knot slightly different", x});
        x = g; x[x.size() - 1 - q] -= e; if (q > 0) bad.push_back({"first of the last knots slightly different", x});
      }
      x = Knots(g.begin(), g.begin() + 2 * q + 1); bad.push_back({"too few knots", x});
      for (auto &b : bad) {
        if (!Begin(S("surface/volume degree %d direction %d: %s", p, dir, b.name))) continue;
        for (int pts = -2; pts <= 2; ++pts) {
          std::vector<Knots> U{good(0), good(1), good(2)};
          U[dir] = b.k;
          bool valid = ValidKnots(b.k, q);
          int n2 = 1, n3 = 1;
          for (int d = 0; d < 3; ++d) {
            int nd = std::max<int>(1, U[d].size() - deg[d] - 1);
            if (d < 2) n2 *= nd;
            n3 *= nd;
          }
          G().states++;
          if (dir < 2 && n2 + pts >= 0)
            Construct<2>({U[0], U[1]}, {deg[0], deg[1]}, Points(n2 + pts, 2), Weights(n2 + pts), valid && !pts, valid && !pts, b.name);
          Construct<3>(U, deg, Points(n3 + pts, 3), Weights(n3 + pts), valid && !pts, valid && !pts, b.name);
        }
        G().traces++;
      }
    }
}

// ---------------------------------------------------------------- C13
static void CheckKV(const baf::KnotVector &k, const std::multiset<double> &m, const std::string &tr) {
  std::vector<double> want(m.begin(), m.end());
  G().checks++;
  if (sl::Raw(k) != want) { Fail("%s: knots %s, want %s", tr.c_str(), Seq(sl::Raw(k)).c_str(), Seq(want).c_str()); return; }
  std::vector<double> it;
  for (auto &x : k) it.push_back(x.get());
  if (it != want) Fail("%s: iteration differs from indexing", tr.c_str());
  baf::KnotVector c(k);
  for (size_t i = 0; i < want.size(); ++i) if (c[i].get() != want[i]) Fail("%s: operator[]", tr.c_str());
  if (k.GetLastKnot().get() != want.back()) Fail("%s: last knot", tr.c_str());
  if (k.GetNumberOfKnots() != want.size()) Fail("%s: number of knots", tr.c_str());
  if (k.GetNumberOfDifferentKnots() != static_cast<int>(std::set<double>(m.begin(), m.end()).size())) Fail("%s: number of different knots", tr.c_str());
  std::vector<double> probe;
  for (double u : std::set<double>(m.begin(), m.end())) {
    for (double d : {-1e-3, -1e-8, 0.0, 1e-8, 1e-3}) probe.push_back(u + d);
    probe.push_back(std::nextafter(u, u - 1));
    probe.push_back(std::nextafter(u, u + 1));
  }
  for (double u : probe) {
    bool in = u >= want.front() && u <= want.back();
    if (k.IsInKnotVectorRange(ParamCoord{u}) != in) Fail("%s: range test at %g", tr.c_str(), u);
    if ((u == want.back() || std::fabs(u - want.back()) > 1e-12) && k.IsLastKnot(ParamCoord{u}) != (u == want.back())) Fail("%s: last knot test at %g", tr.c_str(), u);
    if (k.GetMultiplicity(ParamCoord{u}) != m.count(u)) Fail("%s: multiplicity of %g", tr.c_str(), u);
    if (in && want.front() < want.back() && k.GetKnotSpan(ParamCoord{u}).get() != ref::Span(want, u))
      Fail("%s: knot span of %g is %d", tr.c_str(), u, k.GetKnotSpan(ParamCoord{u}).get());
  }
  // copies are equal, independent, and equality sees every single knot
  if (!(c == k) || !k.AreEqual(c, 1e-12)) Fail("%s: a copy is not equal", tr.c_str());
  for (size_t i = 0; i < want.size(); ++i) {
    baf::KnotVector d(k);
    d[i] = ParamCoord{want[i] + 1e-3};
    if (d == k || k == d || k.AreEqual(d, 1e-4)) Fail("%s: knot %d changed but equal", tr.c_str(), (int) i);
    if (!k.AreEqual(d, 2e-3)) Fail("%s: knot %d changed within the tolerance but not equal", tr.c_str(), (int) i);
    if (sl::Raw(k) != want) Fail("%s: changing a copy changed the original", tr.c_str());
  }
  baf::KnotVector shorter(k.begin(), k.end() - 1), whole(k.begin(), k.end()), as, mv(std::move(c));
  if (shorter == k || k == shorter) Fail("%s: shorter vector equal", tr.c_str());
  if (!(whole == k) || !(mv == k)) Fail("%s: range or move construction", tr.c_str());
  as = whole;
  if (!(as == k)) Fail("%s: assignment", tr.c_str());
  as.InsertKnot(ParamCoord{want.back()});
  if (!(whole == k)) Fail("%s: assignment shares data", tr.c_str());
  baf::KnotVector ma;
  ma = std::move(whole);
  if (!(ma == k)) Fail("%s: move assignment", tr.c_str());
}
static void KvRec(const Knots &root, std::vector<std::pair<char, double>> *h, int depth) {
  baf::KnotVector k(sl::PC(root));
  std::multiset<double> m(root.begin(), root.end());
  std::string tr;
  for (auto &o : *h) {
    tr += S("%s(%g);", o.first == 'I' ? "insert" : "remove", o.second);
    auto Ask = [&](const char *when) {  // the same questions immediately before and after the operation
      std::vector<double> w(m.begin(), m.end());
      double u = o.second;
      if (w.empty() || u < w[0] || u > w.back()) return;
      if (k.GetMultiplicity(ParamCoord{u}) != m.count(u)) Fail("%s multiplicity of %g %s", tr.c_str(), u, when);
      if (w[0] < w.back() && k.GetKnotSpan(ParamCoord{u}).get() != ref::Span(w, u)) Fail("%s knot span of %g %s", tr.c_str(), u, when);
      if (k.IsLastKnot(ParamCoord{u}) != (u == w.back())) Fail("%s last knot test of %g %s", tr.c_str(), u, when);
      if (k.GetNumberOfDifferentKnots() != static_cast<int>(std::set<double>(m.begin(), m.end()).size())) Fail("%s different knots %s", tr.c_str(), when);
    };
    Ask("before");
    if (o.first == 'I') { k.InsertKnot(ParamCoord{o.second}); m.insert(o.second); }
    else { k.RemoveKnot(ParamCoord{o.second}); auto it = m.find(o.second); if (it != m.end()) m.erase(it); }
    Ask("after");
    G().transitions++;
  }
  CheckKV(k, m, tr);
  G().states++;
  if ((int) h->size() == depth) { G().traces++; return; }
  bool cluster = root.size() > 1 && root[1] - root[0] < 1e-6 && root[1] > root[0];
  for (double f : {0.0, cluster ? 1e-7 : 0.25, 0.5, cluster ? 1 - 1e-7 : 0.75, 1.0}) {
    double a = *m.begin(), b = *m.rbegin(), u = root.front() + f * (root.back() - root.front());
    if (u < a || u > b) continue;
    h->push_back({'I', u});
    KvRec(root, h, depth);
    h->back().first = 'R';
    if (m.size() > 2) KvRec(root, h, depth);
    h->pop_back();
  }
}
static void C13() {
  int depth = Thorough() ? 5 : 4;
  for (int dom = 0; dom < 3; ++dom) {
    double a = dom == 0 ? 0 : dom == 1 ? -3 : 100, L = dom == 0 ? 1 : dom == 1 ? 5 : 0.5;
    for (int c = 0; c < 3 * 3 * 3 * 4; ++c) {
      int q[4] = {c % 3 + 1, c / 3 % 3, c / 9 % 3, c / 27 % 4 + 1};
      Knots k;
      const double v[4] = {0, 0.25, 0.5, 1};
      for (int i = 0; i < 4; ++i) for (int j = 0; j < q[i]; ++j) k.push_back(a + L * v[i]);
      if (!Begin("knots " + Seq(k))) continue;
      std::vector<std::pair<char, double>> h;
      KvRec(k, &h, (dom == 0 || Thorough()) ? depth : 3);
      // difference of two knot vectors
      Knots k2;
      for (size_t i = 0; i < k.size(); ++i) k2.push_back(k[i] * 0.5 + i);
      auto d = baf::KnotVector(sl::PC(k2)) - baf::KnotVector(sl::PC(k));
      G().transitions++;
      for (size_t i = 0; i < k.size(); ++i) if (d.GetKnot(i).get() != k2[i] - k[i]) Fail("difference of knot vectors at %d", (int) i);
    }
  }
  for (auto &k : {Knots{0, 1e-7, 0.5, 1}, Knots{0, 1e-7, 1e-7, 1 - 1e-7, 1}, Knots{0, 1e-9, 2e-9, 1, 1}}) {
    if (!Begin(S("clustered knots %d ", (int) k.size()) + Seq(k))) continue;
    std::vector<std::pair<char, double>> h;
    KvRec(k, &h, 3);
  }
  // many knots
  for (int n : {20, 70, 300}) {
    if (!Begin(S("%d knots", n))) continue;
    Knots k;
    for (int i = 0; i < n; ++i) k.push_back(i / 3 * 0.75 - 5);
    std::vector<std::pair<char, double>> h;
    KvRec(k, &h, 1);
  }
  // averaging: knots from parameters
  for (int p = 1; p <= 4; ++p)
    for (int n = p + 1; n <= p + 5; ++n)
      for (int dom = 0; dom < 3; ++dom) {
        if (!Begin(S("averaged knots degree %d, %d parameters, domain %d", p, n, dom))) continue;
        Knots c;
        for (int i = 0; i < n; ++i) c.push_back((dom == 1 ? -2 : dom) + i * i * 0.5 / n);
        baf::KnotVector k(sl::PC(c), Degree{p}, n);
        Knots want(p + 1, c[0]);
        for (int j = 1; j <= n - 1 - p; ++j) { double s = 0; for (int i = j; i < j + p; ++i) s += c[i]; want.push_back(s / p); }
        want.insert(want.end(), p + 1, c.back());
        Knots got = sl::Raw(k);
        bool ok = got.size() == want.size();
        for (size_t i = 0; ok && i < got.size(); ++i) ok = Near(got[i], want[i], want[i], 1e-13L);
        if (!ok) Fail("averaged knots %s, want %s", Seq(got).c_str(), Seq(want).c_str());
        G().states++; G().transitions++; G().traces++;
      }
  // elements of a direction: the non-empty knot spans
  for (int p = 0; p <= 3; ++p)
    for (int q = 0; q <= 3; ++q)
      for (auto &U : sl::Clamped(p, {0.25, 0.5, 0.75}, std::min(p + 1, 2), -1, 4)) {
        Knots V = sl::Clamped(q, {0.125, 0.5}, 1, 2, 2).back();
        if (!Begin(S("elements p%d q%d ", p, q) + Seq(U))) continue;
        ref::Spline s = sl::Build({p, q}, {U, V}, 2, q % 2, 0);
        util::ElementGenerator<2> g(sl::Make<2>(s));
        for (int d = 0; d < 2; ++d) {
          auto e = g.GetElementList(d);
          auto k = ref::Distinct(s.U[d]);
          bool ok = e.size() + 1 == k.size();
          for (size_t i = 0; ok && i < e.size(); ++i) ok = e[i].GetLowerBound().get() == k[i] && e[i].GetUpperBound().get() == k[i + 1];
          if (!ok) Fail("direction %d: elements are not the non-empty knot spans", d);
          G().transitions++;
        }
        G().states++; G().traces++;
      }
  // elements of very short spans, of volumes
  for (int p = 0; p <= 3; ++p)
    for (double e : {1e-3, 1e-6, 1e-9, 1e-12}) {
      if (!Begin(S("short elements p%d %g", p, e))) continue;
      ref::Spline s = sl::Build({p, 1, 2}, {sl::Clamped(p, {e, 0.5, 0.5 + e}, 1).back(), sl::Clamped(1, {0.25}, 1, 7, e).back(), sl::Clamped(2, {1 - e}, 1).back()}, 2, p % 2, 0);
      util::ElementGenerator<3> g(sl::Make<3>(s));
      for (int d = 0; d < 3; ++d) {
        auto el = g.GetElementList(d);
        auto k = ref::Distinct(s.U[d]);
        bool ok = el.size() + 1 == k.size();
        for (size_t i = 0; ok && i < el.size(); ++i) ok = el[i].GetLowerBound().get() == k[i] && el[i].GetUpperBound().get() == k[i + 1];
        if (!ok) Fail("direction %d: elements are not the non-empty knot spans", d);
        G().transitions++;
      }
      G().states++; G().traces++;
    }
}

// ---------------------------------------------------------------- C14
template<int D> static void Mi(const std::array<int, D> &len) {
  std::string key = S("lengths");
  for (int x : len) key += S(" %d", x);
  if (!Begin(key)) return;
  int total = 1;
  for (int x : len) total *= x;
  auto Ix = [&](int lin) { std::array<int, D> r; for (int d = 0; d < D; ++d) { r[d] = lin % len[d]; lin /= len[d]; } return r; };
  util::MultiIndexHandler<D> h(len);
  if (h.Get1DLength() != total) Fail("length %d", h.Get1DLength());
  if (h.GetIndices() != Ix(0)) Fail("does not start at zero");
  for (int i = 0; i < total; ++i) {
    G().states++;
    if (h.GetIndices() != Ix(i) || h.Get1DIndex() != i) Fail("index %d", i);
    for (int d = 0; d < D; ++d) if (h[d] != Ix(i)[d]) Fail("component %d of index %d", d, i);
    if (h.Get1DIndex(Ix(i)) != i || h.Get1DIndex(len, Ix(i)) != i) Fail("linear index of %d", i);
    auto diff = h.GetDifferenceIndices();
    for (int d = 0; d < D; ++d) if (diff[d] != len[d] - 1 - Ix(i)[d]) Fail("difference of index %d", i);
    for (int d = 0; d < D; ++d) {
      int want = 0, stride = 1;
      for (int e = 0; e < D; ++e) if (e != d) { want += Ix(i)[e] * stride; stride *= len[e]; }
      if (h.ExtractDimension(d) != want) Fail("index %d without dimension %d is %d", i, d, h.ExtractDimension(d));
    }
    // from every state: post-increment, decrement, +, -, set
    util::MultiIndexHandler<D> g(len);
    g.SetIndices(Ix(i));
    auto old = g++;
    if (old.GetIndices() != Ix(i) || g.GetIndices() != Ix((i + 1) % total)) Fail("post-increment at %d", i);
    --g;
    if (g.GetIndices() != Ix(i)) Fail("decrement after increment at %d", i);
    --g;
    if (g.GetIndices() != Ix((i + total - 1) % total)) Fail("decrement at %d", i);
    for (int j = 0; j < total; ++j) {
      util::MultiIndexHandler<D> a(len), b(len), c(len);
      a.SetIndices(Ix(i)); b.SetIndices(Ix(i)); c.SetIndices(Ix(i));
      if ((a + j).GetIndices() != Ix((i + j) % total)) Fail("%d + %d", i, j);
      if ((b - j).GetIndices() != Ix((i + total - j) % total)) Fail("%d - %d", i, j);
      c.Set1DIndex(j);
      if (c.GetIndices() != Ix(j)) Fail("set to %d from %d", j, i);
      G().transitions += 3;
    }
    ++h;
  }
  if (h.GetIndices() != Ix(0)) Fail("does not wrap around");
  G().traces++;
}
static void C14() {
  int L = Thorough() ? 6 : 4;
  for (int a = 1; a <= L * 4; ++a) Mi<1>({a});
  for (int a = 1; a <= L + 2; ++a) for (int b = 1; b <= L + 2; ++b) Mi<2>({a, b});
  for (int a = 1; a <= L; ++a) for (int b = 1; b <= L; ++b) for (int c = 1; c <= L; ++c) {
    Mi<3>({a, b, c});
    if (a <= 3 || Thorough()) for (int d = 1; d <= 3; ++d) Mi<4>({a, b, c, d});
  }
}

// ---------------------------------------------------------------- C22
template<int D> static bool Eq(const ref::Spline &a, const ref::Spline &b, double tol, bool def) {
  if (a.rational) return def ? sl::MakeN<D>(a)->AreEqual(*sl::MakeN<D>(b)) : sl::MakeN<D>(a)->AreEqual(*sl::MakeN<D>(b), tol);
  return def ? sl::MakeB<D>(a)->AreEqual(*sl::MakeB<D>(b)) : sl::MakeB<D>(a)->AreEqual(*sl::MakeB<D>(b), tol);
}
template<int D> static R GridDeviation(const ref::Spline &a, const ref::Spline &b, int n) {
  std::vector<std::vector<double>> per(D);
  for (int d = 0; d < D; ++d) for (int i = 0; i <= n; ++i) per[d].push_back(a.U[d][0] + (a.U[d].back() - a.U[d][0]) * i / n);
  R worst = 0;
  for (auto &t : sl::Grid(per)) {
    auto tt = t;
    for (int d = 0; d < D; ++d) tt[d] = std::min(tt[d], a.U[d].back());
    auto x = a.Eval(tt), y = b.Eval(tt);
    R s = 0;
    for (int c = 0; c < a.pdim; ++c) s += (x[c] - y[c]) * (x[c] - y[c]);
    worst = std::max(worst, std::sqrt(s));
  }
  return worst;
}
template<int D> static void Geo(const ref::Spline &a, const ref::Spline &b, double tol, int want, const char *what) {  // want 0/1
  for (int order = 0; order < 2; ++order) {
    auto x = sl::Make<D>(order ? b : a), y = sl::Make<D>(order ? a : b);
    G().transitions++;
    bool got;
    try { got = x->AreGeometricallyEqual(*y, tol); }
    catch (const std::exception &e) { Fail("geometric equality (%s, order %d) threw: %s", what, order, e.what()); continue; }
    if (got != (want == 1)) Fail("geometric equality (%s, order %d) is %d, want %d", what, order, got, want);
  }
}
template<int D> static void Equality(const ref::Spline &s) {
  if (!Begin(sl::Str(s))) return;
  G().states++;
  const double tol = 1e-3;
  auto Both = [&](const ref::Spline &o, bool want, bool want_default, const char *what) {
    G().transitions++;
    if (Eq<D>(s, o, tol, false) != want || Eq<D>(o, s, tol, false) != want) Fail("equality with tolerance, %s: want %d", what, want);
    if (Eq<D>(s, o, tol, true) != want_default || Eq<D>(o, s, tol, true) != want_default) Fail("equality, %s: want %d", what, want_default);
  };
  Both(s, true, true, "same");
  Geo<D>(s, s, 1e-9, 1, "same");
  for (size_t i = 0; i < s.cp.size(); ++i)
    for (int c = 0; c < s.pdim; ++c)
      for (double e : {1e-2, -1e-2, 1e-4}) {
        ref::Spline o = s;
        o.cp[i][c] = (double) (o.cp[i][c] + e);
        Both(o, std::fabs(e) < tol, false, "control point moved");
        // a displacement of one control point seen on a coarse grid must be seen
        o.cp[i][c] = (double) (s.cp[i][c] + 100 * e);
        R dev = GridDeviation<D>(s, o, D == 1 ? 20 : D == 2 ? 5 : D == 3 ? 5 : 4);
        if (dev > 0.02) Geo<D>(s, o, 0.01, 0, "control point moved");
        o.cp[i][c] = (double) (s.cp[i][c] + 1e-4);
        if (e > 0.001) Geo<D>(s, o, 1e-3, 1, "control point moved within the tolerance");
      }
  // the displacement of a corner point is largest in that corner: the corner alone decides
  for (int corner = 0; corner < 1 << D; ++corner) {
    size_t i = 0, stride = 1;
    for (int d = 0; d < D; ++d) {
      size_t n = s.U[d].size() - s.deg[d] - 1;
      if (corner >> d & 1) i += stride * (n - 1);
      stride *= n;
    }
    for (int c = 0; c < s.pdim; ++c) {
      ref::Spline o = s;
      o.cp[i][c] = (double) (o.cp[i][c] + 0.25);
      Geo<D>(s, o, 0.2495, 0, "corner moved");
      Geo<D>(s, o, 0.2505, 1, "corner moved");
    }
  }
  if (s.rational) for (size_t i = 0; i < s.w.size(); ++i)
    for (double e : {1e-2, 1e-4}) {
      ref::Spline o = s;
      o.w[i] = (double) (o.w[i] + e);
      Both(o, e < tol, false, "weight changed");
    }
  for (int d = 0; d < D; ++d) {
    for (size_t i = s.deg[d] + 1; i + s.deg[d] + 1 < s.U[d].size(); ++i)
      for (double e : {1e-2, 1e-4}) {
        ref::Spline o = s;
        for (size_t j = i; j + s.deg[d] + 1 < s.U[d].size() && (j == i || s.U[d][j] == s.U[d][i]); ++j) o.U[d][j] += e;
        Both(o, e < tol, false, "knot moved");
      }
    // other domain
    ref::Spline o = s;
    for (auto &u : o.U[d]) u += 0.5;
    Both(o, false, false, "shifted domain");
    Geo<D>(s, o, 1e6, 0, "shifted domain");
    o = s;
    for (auto &u : o.U[d]) u = s.U[d][0] + 2 * (u - s.U[d][0]);
    Geo<D>(s, o, 1e6, 0, "longer domain");
    // representation changed, geometry not
    auto ins = sl::Make<D>(s);
    ins->InsertKnot(ParamCoord{s.U[d][0] + 0.4375 * (s.U[d].back() - s.U[d][0])}, d);
    std::string err;
    ref::Spline r = sl::Extract<D>(*ins, s.rational, &err);
    Both(r, false, false, "knot inserted");
    Geo<D>(s, r, 1e-9, 1, "knot inserted");
    auto el = sl::Make<D>(s);
    el->ElevateDegreeForDimension(d);
    r = sl::Extract<D>(*el, s.rational, &err);
    Both(r, false, false, "degree elevated");
    Geo<D>(s, r, 1e-9, 1, "degree elevated");
  }
  if (s.rational) {
    ref::Spline o = s;
    for (auto &w : o.w) w *= 2;
    Both(o, false, false, "weights doubled");
    Geo<D>(s, o, 1e-9, 1, "weights doubled");
  } else {
    ref::Spline o = s;
    o.rational = true;
    Geo<D>(s, o, 1e-9, 1, "NURBS with unit weights");
  }
  // planar against spatial
  ref::Spline z = s, y = s;
  z.pdim = y.pdim = s.pdim + 1;
  for (auto &p : z.cp) p.push_back(0);
  for (auto &p : y.cp) p.push_back(0.5);
  Geo<D>(s, z, 1e-9, 1, "extra zero coordinate");
  Geo<D>(s, y, 1e-2, 0, "extra non-zero coordinate");
  G().traces++;
}
static void C22() {
  bool T = Thorough();
  for (int rat = 0; rat < 2; ++rat) {
    int i = 0;
    for (int p = 1; p <= 3; ++p)
      for (int dom = 0; dom < 3; ++dom)
        for (auto &U : sl::Clamped(p, {0.25, 0.6875}, std::min(p, T ? 3 : 2), dom == 0 ? 0 : dom == 1 ? -2 : 0.1, dom == 0 ? 1 : dom == 1 ? 3 : 0.7))
          Equality<1>(sl::Build({p}, {U}, 1 + ++i % 3, rat, i % 4));
    for (int p = 1; p <= 2; ++p)
      for (int q = 1; q <= (T ? 3 : 2); ++q)
        Equality<2>(sl::Build({p, q}, {sl::Clamped(p, {0.375}, 1, 0.1, 0.7).back(), sl::Clamped(q, {}, 1, -1, 3).back()}, 1 + ++i % 3, rat, i % 4));
    for (int k = 0; k < 3; ++k) {
      std::vector<int> deg{1, 1, 1};
      if (T || k == 0) deg[k] = 2;
      std::vector<Knots> U;
      for (int d = 0; d < 3; ++d) U.push_back(sl::Clamped(deg[d], {}, 1, d - 0.5, 1 + d).back());
      if (T || k < 2) Equality<3>(sl::Build(deg, U, 1 + k, rat, k));
    }
  }
}
// ---------------------------------------------------------------- C33
typedef std::vector<double> Vec;
static bool SameVec(const Vec &a, const Vec &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!Near(a[i], b[i], b[i], 1e-14L)) return false;
  return true;
}
static Vec Coords(const baf::ControlPoint &p) {
  Vec r;
  for (int i = 0; i < p.GetDimension(); ++i) r.push_back(p.GetValue(i));
  return r;
}
static const double kVal[5] = {-2, -0.5, 0, 1, 3};
static Vec Digits(int code, int n, int base) {
  Vec r;
  for (int i = 0; i < n; ++i, code /= base) r.push_back(kVal[code % base]);
  return r;
}
static void Pairs(int n, int base) {
  typedef util::VectorUtils<double> V;
  int total = 1;
  for (int i = 0; i < n; ++i) total *= base;
  for (int c = 0; c < total; ++c) {
    Vec a = Digits(c, n, base);
    if (!Begin(S("vectors %d %s", n, Seq(a).c_str()))) continue;
    const baf::ControlPoint p(a);
    if (!SameVec(Coords(p), a)) Fail("a control point does not return its coordinates");
    if (!SameVec(Coords(baf::ControlPoint(static_cast<uint64_t>(n))), Vec(n, 0))) Fail("a new control point is not zero");
    for (int i = 0; i < n; ++i) {
      baf::ControlPoint q(p);
      q.SetValue(i, 7.5);
      Vec want = a;
      want[i] = 7.5;
      if (!SameVec(Coords(q), want) || !SameVec(Coords(p), a)) Fail("setting coordinate %d", i);
    }
    R nn = 0;
    for (double x : a) nn += static_cast<R>(x) * x;
    if (!Near(p.GetEuclideanNorm(), std::sqrt(nn), std::sqrt(nn), 1e-14L)) Fail("norm of the control point is %.17g", p.GetEuclideanNorm());
    if (!Near(V::ComputeTwoNorm(a), std::sqrt(nn), std::sqrt(nn), 1e-14L)) Fail("norm is %.17g", V::ComputeTwoNorm(a));
    for (double f : {-3.0, -0.5, 0.0, 1.0, 4.0}) {
      Vec want;
      for (double x : a) want.push_back(f * x);
      if (!SameVec(Coords(p * f), want)) Fail("control point times %g", f);
      if (!SameVec(V::ScaleVector(a, f), want)) Fail("vector times %g", f);
    }
    for (int d = 0; d < total; ++d) {
      Vec b = Digits(d, n, base), sum, diff;
      const baf::ControlPoint q(b);
      R dot = 0, dist = 0;
      for (int i = 0; i < n; ++i) {
        sum.push_back(a[i] + b[i]);
        diff.push_back(a[i] - b[i]);
        dot += static_cast<R>(a[i]) * b[i];
        dist += static_cast<R>(a[i] - b[i]) * (a[i] - b[i]);
      }
      if (!SameVec(Coords(p + q), sum)) Fail("sum with %s", Seq(b).c_str());
      if (!SameVec(Coords(p - q), diff)) Fail("difference with %s", Seq(b).c_str());
      if (!SameVec(Coords(p), a) || !SameVec(Coords(q), b)) Fail("an operand has changed, other %s", Seq(b).c_str());
      Vec x = a, y = b;
      if (!SameVec(V::ComputeDifference(x, y), diff)) Fail("vector difference with %s", Seq(b).c_str());
      if (!Near(V::ComputeScalarProduct(x, y), dot, dot, 1e-14L)) Fail("scalar product with %s", Seq(b).c_str());
      if (!Near(V::ComputeDistance(x, y), std::sqrt(dist), std::sqrt(dist), 1e-14L)) Fail("distance from %s", Seq(b).c_str());
      if (n == 3 && !SameVec(V::CrossProduct(x, y), {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}))
        Fail("cross product with %s", Seq(b).c_str());
      if (!SameVec(x, a) || !SameVec(y, b)) Fail("an argument has changed");
      if (n <= 2) {  // as knots
        std::vector<ParamCoord> ka, kb;
        for (double v : a) ka.emplace_back(v);
        for (double v : b) kb.emplace_back(v);
        baf::KnotVector k(ka), l(kb), m = k - l;
        Vec got;
        for (auto &v : m) got.push_back(v.get());
        if (!SameVec(got, diff)) Fail("knot vector difference with %s", Seq(b).c_str());
        ParamCoord u(a[0]), v(b[0]);
        if (!Near((u + v).get(), a[0] + b[0], 0) || !Near((u - v).get(), a[0] - b[0], 0) || !Near((u * v).get(), a[0] * b[0], 0)
            || (u == v) != (a[0] == b[0]) || (u < v) != (a[0] < b[0]) || (u > v) != (a[0] > b[0]) || (u <= v) != (a[0] <= b[0]) || (u >= v) != (a[0] >= b[0]))
          Fail("parameters %g and %g", a[0], b[0]);
      }
      G().transitions++;
    }
    if (n == 3) {  // every single entry of the matrix, and full ones
      for (int e = 0; e < 14; ++e) {
        std::array<std::array<double, 4>, 4> m{};
        for (int i = 0; i < 4; ++i) m[i].fill(0);
        if (e < 12) m[e / 4][e % 4] = 1.5;
        else for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) m[i][j] = sl::Weight(i + 3 * j + 5 * e, 2) - 1;
        m[3][3] = 1;
        for (int sc = 0; sc < 2; ++sc) {
          std::array<double, 3> f{1, 1, 1};
          if (sc) f = {2, -0.5, 3};
          Vec want(3);
          for (int i = 0; i < 3; ++i) { want[i] = m[i][3]; for (int j = 0; j < 3; ++j) want[i] += m[i][j] * f[j] * a[j]; }
          if (!SameVec(Coords(p.Transform(m, f)), want)) Fail("transformation %d scaling %d", e, sc);
          G().transitions++;
        }
      }
    }
    G().states++; G().traces++;
  }
}
static void Filter() {
  for (int n = 0; n <= 4; ++n) {
    std::vector<int> in;
    Vec vin;
    for (int i = 0; i < n; ++i) { in.push_back(10 + i); vin.push_back(0.5 + i); }
    for (int len = 0; len <= (Thorough() ? 4 : 3); ++len) {
      int total = 1;
      for (int i = 0; i < len; ++i) total *= n + 2;
      for (int c = 0; c < total; ++c) {
        std::vector<int> pos, want;
        bool ok = true;
        for (int i = 0, x = c; i < len; ++i, x /= n + 2) {
          pos.push_back(x % (n + 2) - 1);
          if (pos.back() < 0 || pos.back() >= n) ok = false;
          else want.push_back(10 + pos.back());
        }
        if (!Begin(S("select %d of %s", n, Seq(pos).c_str()))) continue;
        std::string what;
        std::vector<int> got;
        Vec vgot;
        int o = Outcome([&] { got = util::VectorUtils<int>::FilterVector(in, pos); vgot = util::VectorUtils<double>::FilterVector(vin, pos); }, &what);
        if ((o == 0) != ok) Fail("%s", ok ? "refused" : "a position outside the list is accepted");
        if (ok && o == 0) {
          if (got != want) Fail("selected %s", Seq(got).c_str());
          for (size_t i = 0; i < vgot.size(); ++i) if (vgot[i] != 0.5 + pos[i]) Fail("selected %s", Seq(vgot).c_str());
          if (vgot.size() != pos.size()) Fail("%zu selected", vgot.size());
        }
        G().states++; G().traces++;
      }
    }
  }
}
template<int D> static void Kind(int rat, int pdim) {
  if (!Begin(S("kind %d dimensions %s %d coordinates", D, rat ? "NURBS" : "B-spline", pdim))) return;
  std::vector<Knots> U(D, Knots{0, 0, 1, 1});
  ref::Spline s = sl::Build(std::vector<int>(D, 1), U, pdim, rat, 0);
  std::any a;
  std::shared_ptr<spl::Spline<D>> base;
  if (rat) { auto p = sl::MakeN<D>(s); a = p; base = p; }
  else { auto p = sl::MakeB<D>(s); a = p; base = p; }
  std::string w;
  if (util::AnyCasts::GetSplineDimension(a) != D) Fail("dimension %d", util::AnyCasts::GetSplineDimension(a));
  if (util::AnyCasts::GetSpline<D>(a) != base) Fail("another spline");
  if (util::AnyCasts::IsRational<D>(a) != static_cast<bool>(rat)) Fail("rational");
  const int E = D == 4 ? 1 : D + 1;
  if (Outcome([&] { util::AnyCasts::GetSpline<E>(a); }, &w) != 1) Fail("taken as a spline of dimension %d", E);
  if (Outcome([&] { util::AnyCasts::IsRational<E>(a); }, &w) != 1) Fail("taken as a spline of dimension %d", E);
  for (const std::any &o : {std::any(), std::any(1), std::any(std::string("spline")), std::any(std::make_shared<int>(2))}) {
    if (Outcome([&] { util::AnyCasts::GetSpline<D>(o); }, &w) != 1 || Outcome([&] { util::AnyCasts::GetSplineDimension(o); }, &w) != 1
        || Outcome([&] { util::AnyCasts::IsRational<D>(o); }, &w) != 1) Fail("something else is taken as a spline");
  }
  G().states++; G().traces++;
}
static void C33() {
  bool T = Thorough();
  Pairs(1, 5); Pairs(2, 5); Pairs(3, T ? 5 : 4); Pairs(4, T ? 4 : 3); Pairs(6, 2);
  Filter();
  for (int rat = 0; rat < 2; ++rat) for (int pd = 1; pd <= 4; ++pd) { Kind<1>(rat, pd); Kind<2>(rat, pd); Kind<3>(rat, pd); Kind<4>(rat, pd); }
}
int main(int argc, char **argv) {
  Init(argc, argv);
  if (Prop("C12")) C12();
  if (Prop("C13")) C13();
  if (Prop("C14")) C14();
  if (Prop("C22")) C22();
  if (Prop("C33")) C33();
  return Finish();
}

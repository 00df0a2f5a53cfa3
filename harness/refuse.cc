// C32: requests outside the parameter range (and other requests that cannot be met) are refused and change nothing: every
// sequence of up to two such requests, with valid operations in between, on the real splines.
#include <limits>
#include "sl.h"
using namespace mc;
using sl::Knots;
using ref::R;

struct Req { int kind, dir; double u; int m; };
static const char *kNames[] = {"InsertKnot", "InsertKnot x2", "RefineKnots", "RefineKnots bad first", "RefineKnots bad last", "subdivide", "RemoveKnot", "Evaluate",
                               "EvaluateDerivative", "ReduceDegree", "valid insertion", "valid elevation"};
static std::string Str(const Req &r) { return S("%s(%g,dir%d,x%d)", kNames[r.kind], r.u, r.dir, r.m); }

// Largest distance of two splines over a common grid
static R Distance(const ref::Spline &a, const ref::Spline &b) {
  std::vector<std::vector<double>> per;
  for (int d = 0; d < a.Dim(); ++d) per.push_back(ref::Probe(b.U[d], a.Dim() == 1 ? a.deg[d] + 1 : 1, false));
  R w = 0;
  for (auto &t : sl::Grid(per)) {
    auto x = a.Eval(t), y = b.Eval(t);
    for (int c = 0; c < a.pdim; ++c) { R e = std::fabs(x[c] - y[c]); if (!(e <= w)) w = std::isnan(e) ? INFINITY : e; }
  }
  return w;
}
template<int D> static bool Do(std::shared_ptr<spl::Spline<D>> s, bool rat, const Req &r, double good, std::string *bad) {
  bool thrown = false;
  std::array<ParamCoord, D> at;
  for (int d = 0; d < D; ++d) at[d] = d == r.dir ? ParamCoord{r.u} : s->GetKnotVector(d)->GetKnot(0);
  std::array<int, D> der{};
  der[r.dir] = 1;
  try {
    switch (r.kind) {
      case 0: s->InsertKnot(ParamCoord{r.u}, r.dir); break;
      case 1: s->InsertKnot(ParamCoord{r.u}, r.dir, 2); break;
      case 2: s->RefineKnots({ParamCoord{r.u}}, r.dir); break;
      case 3: s->RefineKnots({ParamCoord{r.u}, ParamCoord{good}}, r.dir); break;
      case 4: s->RefineKnots({ParamCoord{good}, ParamCoord{r.u}}, r.dir); break;
      case 5:
        if (rat) std::dynamic_pointer_cast<spl::NURBS<D>>(s)->SudivideSpline(ParamCoord{r.u}, r.dir);
        else std::dynamic_pointer_cast<spl::BSpline<D>>(s)->SudivideSpline(ParamCoord{r.u}, r.dir);
        break;
      case 6: { auto n = s->RemoveKnot(ParamCoord{r.u}, r.dir, 1e6, r.m); if (n) *bad = S("reports %d removals", (int) n); return true; }
      case 7: s->Evaluate(at, {0}); break;
      case 8: s->EvaluateDerivative(at, {0}, der); break;
      case 9: if (s->ReduceDegreeForDimension(r.dir, 1e6)) *bad = "reports a reduction"; return true;
      case 10: s->InsertKnot(ParamCoord{good}, r.dir); return true;
      case 11: s->ElevateDegreeForDimension(r.dir); return true;
    }
  } catch (const std::exception &) { thrown = true; }
  if (!thrown) *bad = "was not refused";
  return thrown;
}
template<int D> static void Run(const ref::Spline &root, const std::vector<Req> &seq) {
  auto s = sl::Make<D>(root);
  ref::Spline cur = root;
  std::string tr, bad, err;
  for (auto &r : seq) {
    tr += Str(r) + ";";
    G().transitions++;
    const Knots &U = cur.U[r.dir];
    double good = U[cur.deg[r.dir]] + 0.375 * (U[U.size() - 1] - U[0]);
    try { Do<D>(s, root.rational, r, good, &bad); } catch (const std::exception &e) { bad = std::string("throws ") + e.what(); }
    if (!bad.empty()) { Fail("%s %s", tr.c_str(), bad.c_str()); return; }
    ref::Spline now = sl::Extract<D>(*s, root.rational, &err);
    if (!err.empty()) { Fail("%s afterwards: %s", tr.c_str(), err.c_str()); return; }
    bool changes = r.kind == 4 || r.kind == 3 || r.kind >= 10;
    if (!changes && !sl::Same(cur, now)) { Fail("%s was refused but changed the spline", tr.c_str()); return; }
    if (changes && !(Distance(cur, now) <= 1e-9L)) { Fail("%s changed the geometry", tr.c_str()); return; }
    // it can still be evaluated
    std::vector<double> t(D);
    for (int d = 0; d < D; ++d) t[d] = (cur.U[d][0] + 2 * cur.U[d].back()) / 3;
    auto got = s->Evaluate(sl::At<D>(t), sl::Dims(root.pdim));
    auto want = root.Eval(t);
    for (int c = 0; c < root.pdim; ++c) if (!Near(got[c], want[c], 10, 1e-9L)) { Fail("%s afterwards the value at %s is %.17g, want %.17Lg", tr.c_str(), Seq(t).c_str(), got[c], want[c]); return; }
    cur = now;
  }
  G().traces++;
}
template<int D> static void Root(const ref::Spline &s, const std::string &name) {
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  for (int dir = 0; dir < D; ++dir) {
    if (!Begin(sl::Str(s) + name + S(" direction %d", dir))) continue;
    std::vector<Req> reqs;
    double lo = s.U[dir][0], hi = s.U[dir].back();
    std::vector<double> out{lo - 1, hi + 1, std::nextafter(lo, -inf), std::nextafter(hi, inf), lo - 1e-6, hi + 1e-6, -1e300, 1e300, -inf, inf, nan};
    std::vector<double> ends{lo, hi};
    for (int k = 0; k < 9; ++k) {
      auto v = out;
      if (k < 7) v.insert(v.end(), ends.begin(), ends.end());
      if (k == 6) {
        auto dk = ref::Distinct(s.U[dir]);
        for (size_t i = 0; i + 1 < dk.size(); ++i) for (double f : {0.5, 1e-9, 1 - 1e-9}) v.push_back(dk[i] + f * (dk[i + 1] - dk[i]));
      }
      for (double u : v) for (int m = 1; m <= (k == 6 ? 3 : 1); ++m) reqs.push_back({k, dir, u, m});
    }
    if (s.deg[dir] < 2) reqs.push_back({9, dir, 0, 1});
    G().states++;
    std::vector<Req> valid;
    if (s.deg[dir] > 0) for (int d = 0; d < D; ++d) { if (s.deg[d] > 0) { valid.push_back({10, d, 0, 1}); valid.push_back({11, d, 0, 1}); } }
    for (size_t i = 0; i < reqs.size(); ++i) {
      Run<D>(s, {reqs[i]});
      for (size_t v = 0; v < valid.size(); ++v) {
        bool few = !Thorough() && (i + v) % 3;
        if (few) continue;
        Run<D>(s, {reqs[i], valid[v]});
        bool twice = (reqs[i].kind == 3 || reqs[i].kind == 4) && s.deg[dir] == 1;  // would be split completely
        if (reqs[i].kind != 9 && !twice) Run<D>(s, {valid[v], reqs[i], valid[(v + 1) % valid.size()]});
      }
      for (size_t j = i % 2; j < reqs.size(); j += Thorough() ? 1 : D == 1 ? 17 : 37) Run<D>(s, {reqs[i], reqs[j]});
    }
  }
}
int main(int argc, char **argv) {
  Init(argc, argv);
  bool T = Thorough();
  int seed = 0;
  for (int rat = 0; rat < 2; ++rat) {
    for (int p = 0; p <= (T ? 5 : 4); ++p)
      for (int dom = 0; dom < 2; ++dom)
        for (auto &U : sl::Clamped(p, {0.25, 0.6875}, std::min(p, 2), dom ? -2 : 0, dom ? 3 : 1)) { ++seed; Root<1>(sl::Build({p}, {U}, 1 + seed % 3, rat, seed % 4), " curve"); }
    for (int p = 0; p <= 2; ++p) for (int q = 0; q <= 2; ++q)
      Root<2>(sl::Build({p, q}, {sl::Clamped(p, {0.5}, 1).back(), sl::Clamped(q, {}, 1, -1, 3).back()}, 1 + ++seed % 3, rat, seed % 4), " surface");
    for (int p = 1; p <= 2; ++p)
      Root<3>(sl::Build({p, 1, 3 - p}, {sl::Clamped(p, {}, 1).back(), sl::Clamped(1, {0.5}, 1, -1, 3).back(), sl::Clamped(3 - p, {}, 1, 2, 1).back()}, 3, rat, p), " volume");
  }
  return Finish();
}

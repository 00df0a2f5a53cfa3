// C10: every way of getting a second spline from a first one (copy, assignment, same knot vectors, subdivision pieces,
// replaced control points), followed by every interleaving of modifying operations on the handles: each handle must
// behave like an isolated spline that saw only its own operations.
#include <functional>
#include "sl.h"
using namespace mc;
using sl::Knots;

struct Step { int h; char op; int dir; };
static std::string Str(const std::vector<Step> &v) {
  std::string r;
  for (auto &s : v) r += S("%c(handle%d,dir%d);", s.op, s.h, s.dir);
  return r;
}
template<int D> using H = std::shared_ptr<spl::Spline<D>>;

template<int D> bool Continuous(const ref::Spline &s, int d) {
  for (double u : ref::Distinct(s.U[d])) if (u > s.U[d][0] && u < s.U[d].back() && ref::Mult(s.U[d], u) > s.deg[d]) return false;
  return true;
}
template<int D> void Do(spl::Spline<D> &s, const ref::Spline &cur, char op, int d, bool rat) {
  const Knots &U = cur.U[d];
  double mid = U[0] + 0.4375 * (U.back() - U[0]);
  switch (op) {
    case 'I': s.InsertKnot(ParamCoord{mid}, d); break;
    case 'R': {
      auto k = ref::Distinct(U);
      s.RemoveKnot(ParamCoord{k[1]}, d, rat ? 1e-7 : 1e6);
      break;
    }
    case 'E': s.ElevateDegreeForDimension(d); break;
    case 'D': s.ReduceDegreeForDimension(d, rat ? 1e-7 : 1e6); break;
    default:
      if (rat) dynamic_cast<spl::NURBS<D> &>(s).SudivideSpline(ParamCoord{mid}, d);
      else dynamic_cast<spl::BSpline<D> &>(s).SudivideSpline(ParamCoord{mid}, d);
  }
}
template<int D> bool Enabled(const ref::Spline &cur, char op, int d) {
  const Knots &U = cur.U[d];
  double mid = U[0] + 0.4375 * (U.back() - U[0]);
  if (op == 'I') return ref::Mult(U, mid) < cur.deg[d];
  if (op == 'S') return ref::Mult(U, mid) <= cur.deg[d];
  if (op == 'R') return ref::Distinct(U).size() > 2;
  if (op == 'D') return cur.deg[d] >= 2 && Continuous<D>(cur, d);
  return Continuous<D>(cur, d) && cur.deg[d] >= 1;
}
static const char *kModes[] = {"copy", "assignment", "same-knot-vectors", "pieces", "new-control-points", "copy-of-copy", "self-assignment"};

template<int D> std::vector<H<D>> Setup(const ref::Spline &root, int mode, std::vector<std::shared_ptr<baf::KnotVector>> *user) {
  bool rat = root.rational;
  auto other = sl::Build(std::vector<int>(D, 1), std::vector<Knots>(D, Knots{0, 0, 3, 3}), root.pdim, rat, 3);
  std::vector<H<D>> h;
  auto a = sl::Make<D>(root);
  h.push_back(a);
  auto B = [](H<D> x) { return std::dynamic_pointer_cast<spl::BSpline<D>>(x); };
  auto N = [](H<D> x) { return std::dynamic_pointer_cast<spl::NURBS<D>>(x); };
  switch (mode) {
    case 0:
      if (rat) h.push_back(std::make_shared<spl::NURBS<D>>(*N(a))); else h.push_back(std::make_shared<spl::BSpline<D>>(*B(a)));
      break;
    case 1: {
      auto b = sl::Make<D>(other);
      if (rat) *N(b) = *N(a); else *B(b) = *B(a);
      h.push_back(b);
      break;
    }
    case 2: {
      h.clear();
      auto kv = sl::Kvs<D>(root);
      for (int i = 0; i < 2; ++i) {
        if (rat) h.push_back(std::make_shared<spl::NURBS<D>>(kv, sl::Degs<D>(root), sl::Cps(root), sl::Ws(root)));
        else h.push_back(std::make_shared<spl::BSpline<D>>(kv, sl::Degs<D>(root), sl::Cps(root)));
      }
      for (int d = 0; d < D; ++d) user->push_back(kv[d]);
      break;
    }
    case 3: {
      const Knots &U = root.U[D - 1];
      ParamCoord u{U[0] + 0.625 * (U.back() - U[0])};
      if (rat) for (auto &x : N(a)->SudivideSpline(u, D - 1)) h.push_back(x);
      else for (auto &x : B(a)->SudivideSpline(u, D - 1)) h.push_back(x);
      break;
    }
    case 4: {
      ref::Spline o = root;
      for (auto &p : o.cp) for (auto &x : p) x = -x;
      h.push_back(std::make_shared<spl::NURBS<D>>(*N(a), sl::Cps(o)));
      break;
    }
    case 5: {
      if (rat) { spl::NURBS<D> t(*N(a)); spl::NURBS<D> t2(t); h.push_back(std::make_shared<spl::NURBS<D>>(t)); h.push_back(std::make_shared<spl::NURBS<D>>(t2)); }
      else { spl::BSpline<D> t(*B(a)); spl::BSpline<D> t2(t); h.push_back(std::make_shared<spl::BSpline<D>>(t)); h.push_back(std::make_shared<spl::BSpline<D>>(t2)); }
      break;
    }
    default: {
      if (rat) { auto &x = *N(a); x = *&x; h.push_back(std::make_shared<spl::NURBS<D>>(x)); }
      else { auto &x = *B(a); x = *&x; h.push_back(std::make_shared<spl::BSpline<D>>(x)); }
    }
  }
  return h;
}
template<int D> std::string Observe(const spl::Spline<D> &s, bool rat, ref::Spline *r) {
  std::string err;
  *r = sl::Extract<D>(s, rat, &err);
  if (!err.empty()) return err;
  std::vector<double> t;
  for (int d = 0; d < D; ++d) t.push_back(r->U[d][0] + 0.3 * (r->U[d].back() - r->U[d][0]));
  ref::R sc;
  auto w = r->Deriv(t, std::vector<int>(D, 0), &sc);
  auto g = s.Evaluate(sl::At<D>(t), sl::Dims(r->pdim));
  for (int c = 0; c < r->pdim; ++c) if (!Near(g[c], w[c], sc, 1e-9L)) return "evaluation does not follow the control points";
  return "";
}
template<int D> void Rec(const ref::Spline &root, int mode, std::vector<Step> *hist, int depth) {
  bool rat = root.rational;
  auto Run = [&](std::vector<ref::Spline> *st, std::string *err) {
    std::vector<std::shared_ptr<baf::KnotVector>> user;
    auto h = Setup<D>(root, mode, &user);
    std::vector<ref::Spline> initial(h.size());
    st->assign(h.size(), ref::Spline());
    for (size_t i = 0; i < h.size(); ++i) { *err = Observe<D>(*h[i], rat, &initial[i]); if (!err->empty()) return; }
    std::vector<H<D>> iso;
    for (auto &s : initial) iso.push_back(sl::Make<D>(s));
    *st = initial;
    for (auto &step : *hist) {
      Do<D>(*h[step.h], (*st)[step.h], step.op, step.dir, rat);
      Do<D>(*iso[step.h], (*st)[step.h], step.op, step.dir, rat);
      G().transitions++;
      for (size_t i = 0; i < h.size(); ++i) {
        ref::Spline now, want;
        *err = Observe<D>(*h[i], rat, &now);
        if (!err->empty()) { *err = S("handle %d: ", (int) i) + *err; return; }
        std::string e = Observe<D>(*iso[i], rat, &want);
        if (!e.empty()) { *err = "isolated spline: " + e; return; }
        if (!sl::Same(now, want)) { *err = S("handle %d differs from an isolated spline with the same history", (int) i); return; }
        (*st)[i] = now;
      }
      for (size_t d = 0; d < user.size(); ++d)
        if (sl::Raw(*user[d]) != root.U[d]) { *err = "the caller's knot vector was modified"; return; }
    }
  };
  std::vector<ref::Spline> st;
  std::string err;
  Run(&st, &err);
  if (!err.empty()) { Fail("%s", (Str(*hist) + " " + err).c_str()); return; }
  G().states++;
  if ((int) hist->size() == depth) { G().traces++; return; }
  for (int h = 0; h < (int) st.size(); ++h)
    for (char op : {'I', 'R', 'E', 'D', 'S'})
      for (int d = 0; d < D; ++d) {
        if (!Enabled<D>(st[h], op, d)) continue;
        hist->push_back({h, op, d});
        Rec<D>(root, mode, hist, depth);
        hist->pop_back();
      }
}
template<int D> void Root(const ref::Spline &s, int depth) {
  for (int mode = 0; mode < 7; ++mode) {
    if (mode == 4 && !s.rational) continue;
    // three handles or a high degree: one step less in the quick tier
    int dep = depth - (!Thorough() && D == 1 && (mode == 3 || mode >= 5 || s.deg[0] == 3) ? 1 : 0);
    if (!Begin(sl::Str(s) + " " + kModes[mode] + S(" depth%d", dep))) continue;
    std::vector<Step> h;
    Rec<D>(s, mode, &h, dep);
  }
}
int main(int argc, char **argv) {
  Init(argc, argv);
  bool T = Thorough();
  for (int rat = 0; rat < 2; ++rat) {
    for (int p = 1; p <= 3; ++p)
      for (auto &U : sl::Clamped(p, {0.25}, std::min(p, 2), -1, 2)) Root<1>(sl::Build({p}, {U}, 2, rat, p), T ? 4 : 3);
    for (int p = 1; p <= 2; ++p)
      for (int q = 1; q <= 2; ++q) {
        auto U = sl::Clamped(p, {0.25}, 1).back(), V = sl::Clamped(q, {}, 1, 1, 2).back();
        Root<2>(sl::Build({p, q}, {U, V}, 3, rat, p), T ? 3 : 2);
        Root<2>(sl::Build({q, p}, {V, U}, 3, rat, p), T ? 3 : 2);
      }
    for (int k = 0; k < 3; ++k) {
      std::vector<Knots> U;
      std::vector<int> deg;
      for (int d = 0; d < 3; ++d) {
        deg.push_back(d == k ? 2 : 1);
        U.push_back(sl::Clamped(deg[d], d == (k + 1) % 3 ? std::vector<double>{0.25} : std::vector<double>{}, 1, d, 1 + d).back());
      }
      Root<3>(sl::Build(deg, U, 1 + k, rat, k), T ? 2 : 1);
    }
  }
  return Finish();
}

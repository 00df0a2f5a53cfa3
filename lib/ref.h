// Reference model: B-splines and NURBS straight from the textbook definition, in long double and without any code of
// the library. A basis function is represented on one knot span by its polynomial (Cox-de Boor on polynomials), so
// values and derivatives of every order come from the same definition.
#ifndef VERIF_REF_H_
#define VERIF_REF_H_
#include <array>
#include <cmath>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace ref {
typedef long double R;
typedef std::vector<double> Knots;
typedef std::vector<R> Poly;  // coefficients in (x - left end of the span)

// Index k of the non-empty span that owns t: U[k] <= t < U[k+1]; the last knot belongs to the last non-empty span.
inline int Span(const Knots &U, double t) {
  int k = -1;
  for (int i = 0; i + 1 < static_cast<int>(U.size()); ++i)
    if (U[i] < U[i + 1] && U[i] <= t) k = i;
  return k;
}
inline Poly Lin(const Poly &a, R c0, R c1) {  // a * (c0 + c1 x)
  Poly r(a.size() + 1, 0);
  for (size_t i = 0; i < a.size(); ++i) { r[i] += a[i] * c0; r[i + 1] += a[i] * c1; }
  return r;
}
inline Poly Add(const Poly &a, const Poly &b) {
  Poly r(std::max(a.size(), b.size()), 0);
  for (size_t i = 0; i < a.size(); ++i) r[i] += a[i];
  for (size_t i = 0; i < b.size(); ++i) r[i] += b[i];
  return r;
}
inline Poly BasisPoly(const Knots &U, int i, int p, int k) {
  if (p == 0) return i == k ? Poly{1} : Poly{};
  Poly r;
  R o = U[k];
  if (U[i + p] > U[i]) {
    R d = static_cast<R>(U[i + p]) - U[i];
    Poly a = BasisPoly(U, i, p - 1, k);
    if (!a.empty()) r = Add(r, Lin(a, (o - U[i]) / d, 1 / d));
  }
  if (U[i + p + 1] > U[i + 1]) {
    R d = static_cast<R>(U[i + p + 1]) - U[i + 1];
    Poly a = BasisPoly(U, i + 1, p - 1, k);
    if (!a.empty()) r = Add(r, Lin(a, (U[i + p + 1] - o) / d, -1 / d));
  }
  return r;
}
inline R PolyDer(const Poly &a, R x, int d) {
  R r = 0;
  for (int i = static_cast<int>(a.size()) - 1; i >= d; --i) {
    R c = a[i];
    for (int j = 0; j < d; ++j) c *= (i - j);
    r = r * x + c;
  }
  return r;
}
// d-th derivative of N_{i,p} at t (on the span that owns t).
inline R Basis(const Knots &U, int p, int i, double t, int d = 0) {
  int k = Span(U, t);
  if (i < k - p || i > k) return 0;
  return PolyDer(BasisPoly(U, i, p, k), static_cast<R>(t) - U[k], d);
}
// The same in quadruple precision, for knots so close together that the polynomials are badly conditioned (abs: the sum of the magnitudes of the terms).
inline __float128 BasisQ(const Knots &U, int p, int i, int k, __float128 t, int d, bool abs = false) {
  typedef __float128 Q;
  if (d == 0) {
    if (p == 0) return i == k ? 1 : 0;
    Q r = 0;
    if (U[i + p] > U[i]) r += (t - U[i]) / (Q(U[i + p]) - U[i]) * BasisQ(U, p - 1, i, k, t, 0, abs);
    if (U[i + p + 1] > U[i + 1]) r += (U[i + p + 1] - t) / (Q(U[i + p + 1]) - U[i + 1]) * BasisQ(U, p - 1, i + 1, k, t, 0, abs);
    return r;
  }
  if (p == 0) return 0;
  Q r = 0;
  if (U[i + p] > U[i]) r += p / (Q(U[i + p]) - U[i]) * BasisQ(U, p - 1, i, k, t, d - 1, abs);
  if (U[i + p + 1] > U[i + 1]) r += (abs ? p : -p) / (Q(U[i + p + 1]) - U[i + 1]) * BasisQ(U, p - 1, i + 1, k, t, d - 1, abs);
  return r;
}

// A tensor-product (rational) spline: homogeneous control points, first direction fastest.
struct Spline {
  std::vector<int> deg;
  std::vector<Knots> U;
  int pdim = 0;
  bool rational = false;
  std::vector<std::vector<R>> cp;  // cartesian
  std::vector<R> w;                // weights (1 for B-splines)
  int Dim() const { return static_cast<int>(deg.size()); }
  int N(int d) const { return static_cast<int>(U[d].size()) - deg[d] - 1; }
  int Total() const { int r = 1; for (int d = 0; d < Dim(); ++d) r *= N(d); return r; }

  mutable std::map<std::pair<int, int>, std::vector<Poly>> cache;
  const std::vector<Poly> &Polys(int d, int k) const {
    auto it = cache.find({d, k});
    if (it != cache.end()) return it->second;
    std::vector<Poly> v;
    for (int i = k - deg[d]; i <= k; ++i) v.push_back(BasisPoly(U[d], i, deg[d], k));
    return cache[{d, k}] = v;
  }
  // Derivative of the homogeneous map: pdim numerators and the weight function; *abs gets the sums of |terms|.
  std::vector<R> Hom(const std::vector<double> &t, const std::vector<int> &der, std::vector<R> *abs = nullptr) const {
    // plain arrays and a single pass: this is the innermost loop of most comparisons
    const int D = Dim();
    int k[4], idx[4] = {0, 0, 0, 0}, n[4];
    std::vector<R> bv[4];
    for (int d = 0; d < D; ++d) {
      k[d] = Span(U[d], t[d]);
      n[d] = N(d);
      const auto &ps = Polys(d, k[d]);
      bv[d].reserve(ps.size());
      for (auto &p : ps) bv[d].push_back(PolyDer(p, static_cast<R>(t[d]) - U[d][k[d]], der[d]));
    }
    std::vector<R> r(pdim + 1, 0);
    if (abs) abs->assign(pdim + 1, 0);
    while (true) {
      R f = 1;
      int lin = 0, stride = 1;
      for (int d = 0; d < D; ++d) { f *= bv[d][idx[d]]; lin += (k[d] - deg[d] + idx[d]) * stride; stride *= n[d]; }
      R fw = f * w[lin];
      const std::vector<R> &point = cp[lin];
      for (int c = 0; c < pdim; ++c) r[c] += fw * point[c];
      r[pdim] += fw;
      if (abs) {
        fw = std::fabs(fw);
        for (int c = 0; c < pdim; ++c) (*abs)[c] += fw * std::fabs(point[c]);
        (*abs)[pdim] += fw;
      }
      int d = 0;
      while (d < D && ++idx[d] > deg[d]) idx[d++] = 0;
      if (d == D) break;
    }
    return r;
  }
  std::vector<R> Eval(const std::vector<double> &t) const { return Deriv(t, std::vector<int>(Dim(), 0)); }
  // Derivative of the projected (cartesian) map by the generalised quotient rule; *scale gets a conditioning estimate.
  std::vector<R> Deriv(const std::vector<double> &t, const std::vector<int> &der, R *scale = nullptr) const {
    R sc = 0;
    bool value = true;
    for (int k : der) value = value && k == 0;
    if (value) {  // the common case without the bookkeeping of the recursion
      std::vector<R> ab, h = Hom(t, der, scale ? &ab : nullptr);
      R w0 = rational ? h[pdim] : 1;
      h.pop_back();
      for (R &x : h) x /= w0;
      if (scale) { *scale = 0; for (int c = 0; c < pdim; ++c) *scale = std::max(*scale, ab[c] / std::fabs(w0)); }
      return h;
    }
    std::map<std::vector<int>, std::vector<R>> memo, memo_abs;
    auto r = DerivRec(t, der, &memo, &memo_abs);
    for (auto &kv : memo_abs) for (R x : kv.second) sc = std::max(sc, std::fabs(x));
    if (scale) *scale = sc;
    return r;
  }

 private:
  static R Binom(int n, int k) { R r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
  std::vector<R> DerivRec(const std::vector<double> &t, const std::vector<int> &der,
                          std::map<std::vector<int>, std::vector<R>> *memo,
                          std::map<std::vector<int>, std::vector<R>> *mabs) const {
    auto it = memo->find(der);
    if (it != memo->end()) return it->second;
    int D = Dim();
    std::vector<R> ab, h = Hom(t, der, &ab);
    std::vector<R> acc(h.begin(), h.begin() + pdim), acc_abs(ab.begin(), ab.begin() + pdim);
    R w0 = Hom(t, std::vector<int>(D, 0))[pdim];
    if (rational) {
      std::vector<int> beta(D, 0);
      while (true) {
        int d = 0;
        while (d < D && ++beta[d] > der[d]) beta[d++] = 0;
        if (d == D) break;
        R bin = 1;
        std::vector<int> rest(D);
        for (int e = 0; e < D; ++e) { bin *= Binom(der[e], beta[e]); rest[e] = der[e] - beta[e]; }
        std::vector<R> wab;
        R wb = Hom(t, beta, &wab)[pdim];
        auto sub = DerivRec(t, rest, memo, mabs);
        auto sub_abs = (*mabs)[rest];
        for (int c = 0; c < pdim; ++c) {
          acc[c] -= bin * wb * sub[c];
          acc_abs[c] += bin * wab[pdim] * sub_abs[c];
        }
      }
      for (int c = 0; c < pdim; ++c) { acc[c] /= w0; acc_abs[c] /= std::fabs(w0); }
    }
    (*mabs)[der] = acc_abs;
    return (*memo)[der] = acc;
  }
};

inline std::vector<double> Distinct(const Knots &U) {
  std::vector<double> r;
  for (double u : U) if (r.empty() || u != r.back()) r.push_back(u);
  return r;
}
inline int Mult(const Knots &U, double t) { int m = 0; for (double u : U) m += (u == t); return m; }

// Every distinct knot, both neighbouring doubles of every distinct knot (inside the range) and n points inside every
// span: enough points to determine every polynomial piece of degree < n + 2.
inline std::vector<double> Probe(const Knots &U, int n, bool neighbours = true) {
  std::vector<double> k = Distinct(U), r;
  static const double q[] = {0.5, 0.2, 0.85, 0.35, 0.7, 0.1, 0.95, 0.6, 0.3, 0.03, 0.45};
  for (size_t i = 0; i < k.size(); ++i) {
    r.push_back(k[i]);
    if (neighbours && i > 0) r.push_back(std::nextafter(k[i], k[i] - 1));
    if (neighbours && i + 1 < k.size()) r.push_back(std::nextafter(k[i], k[i] + 1));
    if (i + 1 < k.size()) for (int j = 0; j < n && j < 11; ++j) r.push_back(k[i] + q[j] * (k[i + 1] - k[i]));
  }
  return r;
}
}  // namespace ref
#endif

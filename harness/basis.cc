// C01 / C02: basis function values and derivatives against the Cox-de Boor definition.
#include "basis_function_factory.h"
#include "parameter_space.h"
#include "sl.h"
using namespace mc;
using sl::Knots;

static void Check(const Knots &U, int p, const std::string &name) {
  bool der = Prop("C02");
  if (!Begin(S("p=%d U=%s %s", p, Seq(U).c_str(), name.c_str()))) return;
  int n = static_cast<int>(U.size()) - p - 1;
  auto kv = sl::KV(U);
  std::vector<std::unique_ptr<baf::BasisFunction>> fs;
  for (int i = 0; i < n; ++i)
    fs.emplace_back(baf::BasisFunctionFactory::CreateDynamic(*kv, KnotSpan{i}, Degree{p}));
  spl::ParameterSpace<1> ps({kv}, {Degree{p}});
  // the same knot vector as second direction of a surface, next to a different first direction
  Knots other{-1, -1, -0.25, 3, 3};
  ref::Spline surf = sl::Build({1, p}, {other, U}, 1, false);
  auto sp = sl::MakeB<2>(surf);
  std::vector<double> pts = ref::Probe(U, p + 2);
  double L = U.back() - U[0];
  for (double t : pts) {
    G().states++;
    int k = ref::Span(U, t);
    int first = k - p;
    for (int d = der ? 1 : 0; d <= (der ? p + 2 : 0); ++d) {
      long double sum = 0, asum = 0;
      std::vector<long double> want;
      for (int i = 0; i < n; ++i) { want.push_back(name == "cluster" ? (long double) ref::BasisQ(U, p, i, k, t, d) : ref::Basis(U, p, i, t, d)); sum += want[i]; asum += name == "cluster" ? (long double) ref::BasisQ(U, p, i, k, t, d, true) : std::fabs(want[i]); }
      std::vector<double> got, got2;
      if (der) {
        got = ps.EvaluateAllNonZeroBasisFunctionDerivatives(0, ParamCoord{t}, d);
        got2 = sp->EvaluateAllNonZeroBasisFunctionDerivatives(1, ParamCoord{t}, d);
      } else {
        got = ps.EvaluateAllNonZeroBasisFunctions(0, ParamCoord{t});
        got2 = sp->EvaluateAllNonZeroBasisFunctions(1, ParamCoord{t});
      }
      if ((int) got.size() != p + 1 || (int) got2.size() != p + 1) { Fail("t=%.17g: %d values, want %d", t, (int) got.size(), p + 1); continue; }
      long double tot = 0;
      for (int j = 0; j <= p; ++j) {
        G().transitions += 2;
        long double w = want[first + j];
        if (!Near(got[j], w, asum) || !Near(got2[j], w, asum))
          Fail("t=%.17g d=%d: non-zero function %d is %.17g / %.17g, want %.17Lg", t, d, j, got[j], got2[j], w);
        tot += got[j];
        if (!der && got[j] < -1e-12) Fail("t=%.17g: negative basis value %.17g", t, got[j]);
      }
      if (!Near((double) tot, d == 0 ? 1.0L : 0.0L, asum)) Fail("t=%.17g d=%d: values sum to %.17Lg", t, d, tot);
      for (int i = 0; i < n; ++i) {
        G().transitions++;
        double g = der ? fs[i]->EvaluateDerivative(ParamCoord{t}, Derivative{d}) : fs[i]->Evaluate(ParamCoord{t});
        if (!Near(g, want[i], asum)) Fail("t=%.17g d=%d: N_%d is %.17g, want %.17Lg", t, d, i, g, want[i]);
        if (!der) {
          double z = fs[i]->EvaluateDerivative(ParamCoord{t}, Derivative{0});
          if (z != g) Fail("t=%.17g: zeroth derivative of N_%d differs from its value", t, i);
          if ((t < U[i] || t > U[i + p + 1]) && g != 0) Fail("t=%.17g: N_%d non-zero outside its support", t, i);
        }
      }
    }
  }
  for (double t : {U[0] - L, std::nextafter(U[0], U[0] - 1), std::nextafter(U.back(), U.back() + 1), U.back() + L}) {
    for (int i = 0; i < n; ++i) {
      G().transitions++;
      double g = der ? fs[i]->EvaluateDerivative(ParamCoord{t}, Derivative{1}) : fs[i]->Evaluate(ParamCoord{t});
      if (g != 0) Fail("t=%.17g outside the knot range: N_%d is %.17g", t, i, g);
    }
  }
  G().traces++;
}

int main(int argc, char **argv) {
  Init(argc, argv);
  int maxp = Thorough() ? 7 : 5;
  struct Dom { double a, L; };
  std::vector<Dom> doms = {{0, 1}, {-2, 3}, {100, 0.5}, {0, 1e-5}, {-4000, 8192}};
  std::vector<std::vector<double>> breaks = {{0.25, 0.5, 0.8125}};
  if (Thorough()) breaks.push_back({0.1, 0.125, 0.9});
  for (int p = 0; p <= maxp; ++p)
    for (auto &b : breaks)
      for (size_t d = 0; d < doms.size(); ++d) {
        if (p >= 5 && d > 1 && !Thorough()) continue;
        for (auto &U : sl::Clamped(p, p >= 6 ? std::vector<double>{b[0], b[1]} : b, p + 1, doms[d].a, doms[d].L)) Check(U, p, "");
      }
  // many simple interior knots
  for (int p = 0; p <= maxp; ++p)
    for (int n = 4; n <= (Thorough() ? 20 : 12); n += 4) {
      Knots U(p + 1, 0.0);
      for (int i = 1; i <= n; ++i) U.push_back(i * i);
      for (int i = 0; i <= p; ++i) U.push_back((n + 1) * (n + 1));
      Check(U, p, "many");
    }
  // clustered knots: very short spans next to long ones, every multiplicity 1..p of the cluster (short spans on 1e-5..1e-9)
  for (int p = 0; p <= std::min(maxp, 4); ++p)
    for (double e : {1e-5, 1e-7, 1e-9})
      for (int where = 0; where < 3; ++where) {
        std::vector<double> b = where == 0 ? std::vector<double>{e, 0.5} : where == 1 ? std::vector<double>{0.5, 0.5 + e, 0.75} : std::vector<double>{0.25, 1 - e};
        for (auto &U : sl::Clamped(p, b, std::max(1, std::min(p, 2)))) Check(U, p, "cluster");
      }
  // high degrees
  for (int p = maxp + 1; p <= (Thorough() ? 11 : 9); ++p)
    for (auto &U : sl::Clamped(p, {0.375}, p + 1, -1, 2)) if (ref::Mult(U, -0.25) <= 2 || ref::Mult(U, -0.25) >= p - 1) Check(U, p, "high");
  return Finish();
}

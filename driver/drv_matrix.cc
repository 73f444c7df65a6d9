// Histories of operations on a few matrices (property C30).
#include <valarray>

#include "common.h"
typedef AMatrix<double> M;

static json Snap(const M& m) {
  json e = json::array();
  for (auto it = m.cbegin(); it != m.cend(); ++it) e.push_back(Num(*it));
  return {{"r", m.NumRows()}, {"c", m.NumCols()}, {"e", e}};
}
static std::valarray<double> VA(const std::vector<double>& v) { return {v.data(), v.size()}; }
// Churns the heap so that a matrix that does not own its data loses it.
static double Churn() {
  double s = 0;
  std::vector<std::vector<double>> junk;
  for (int n = 1; n < 40; n++) junk.emplace_back(n, 1e9 + n);
  for (auto& j : junk) s += j.back();
  return s;
}
static M Make(const json& o) {
  auto e = Dbls(o["e"]);
  size_t r = o["r"], c = o["c"];
  const std::string how = o["how"];
  if (how == "vec") return M(e);
  if (how == "valarray") return M(VA(e));
  if (how == "span") return M(absl::Span<double>(e));
  if (how == "cols") {
    std::vector<std::vector<double>> v;
    for (size_t i = 0; i < c; i++) v.emplace_back(e.begin() + i * r, e.begin() + (i + 1) * r);
    return M(v);
  }
  if (how == "moved") {
    std::vector<double> tmp = e;
    return M(r, c, std::move(tmp));
  }
  if (how == "copied") {
    const std::vector<double> tmp = e;
    return M(r, c, tmp);
  }
  if (how == "filled") return M::Filled(r, c, e[0]);
  if (how == "arma") {
    arma::Mat<double> a(e.data(), r, c);
    return M(a);
  }
  M m(r, c);  // element by element
  for (size_t i = 0; i < e.size(); i++) {
    if (i % 2) m(i) = e[i];
    else m(i % r, i / r) = e[i];
  }
  return m;
}

json Run(const json& c) {
  std::vector<M> g(3, M::Filled(1, 1, 0.));
  json steps = json::array();
  for (auto& o : c["ops"]) {
    const std::string f = o["f"];
    M& d = g[o["d"].get<int>()];
    const M& a = g[o["a"].get<int>()];
    const M& b = g[o["b"].get<int>()];
    auto I = [&](const char* k) { return o[k].get<size_t>(); };
    json v = json::array();
    auto put = [&](double x) { v.push_back(Num(x)); };
    auto vec = [&](const std::vector<double>& x) { v = Nums(x); };
    auto dim = [&] { return I("i") ? Visqol::kDimension::ROW : Visqol::kDimension::COLUMN; };
    if (f == "make") d = Make(o);
    else if (f == "copy") d = a;
    else if (f == "copyctor") { M t(a); t(0, 0) = 77; d = M(a); }
    else if (f == "get") { put(a(I("i"), I("j"))); M t = a; put(t(I("i"), I("j"))); put(a(I("j") * a.NumRows() + I("i"))); }
    else if (f == "set") { d = a; d(I("i"), I("j")) = Dbl(o["x"]); }
    else if (f == "row") vec(a.GetRow(I("i")));
    else if (f == "rowsubset") vec(a.RowSubset(I("i"), I("j"), I("k")));
    else if (f == "rows") d = a.GetRows(I("i"), I("k"));
    else if (f == "column") d = a.GetColumn(I("j"));
    else if (f == "columns") d = a.GetColumns(I("j"), I("k"));
    else if (f == "span") d = a.GetSpan(I("i"), I("i2"), I("j"), I("k"));
    else if (f == "setrow") { d = a; d.SetRow(I("i"), Dbls(o["e"])); }
    else if (f == "setrowva") { d = a; d.SetRow(I("i"), VA(Dbls(o["e"]))); }
    else if (f == "setcol") { d = a; d.SetColumn(I("j"), M(Dbls(o["e"]))); }
    else if (f == "setcolvec") { d = a; d.SetColumn(I("j"), Dbls(o["e"])); }
    else if (f == "setcolva") { d = a; d.SetColumn(I("j"), VA(Dbls(o["e"]))); }
    else if (f == "join") d = a.JoinVertically(b);
    else if (f == "transpose") d = a.Transpose();
    else if (f == "flip") d = a.FlipUpDown();
    else if (f == "resize") { d = a; d.Resize(I("i"), I("j")); }
    else if (f == "mean") d = a.Mean(dim());
    else if (f == "stddev") d = a.StdDev(dim());
    else if (f == "add") d = a + b;
    else if (f == "sub") d = a - b;
    else if (f == "mul") d = a.PointWiseProduct(b);
    else if (f == "div") d = a.PointWiseDivide(b);
    else if (f == "adds") d = a + Dbl(o["x"]);
    else if (f == "subs") d = a - Dbl(o["x"]);
    else if (f == "muls") d = a * Dbl(o["x"]);
    else if (f == "divs") d = a / Dbl(o["x"]);
    else if (f == "eq") { put(a == b); put(b == a); put(a == a); }
    else if (f == "shape") { put(a.NumRows()); put(a.NumCols()); put(a.NumElements()); put(a.LongestDimensionLength()); }
    else if (f == "tovec") vec(a.ToVector());
    else if (f == "tova") { auto x = a.ToValArray(); vec(std::vector<double>(std::begin(x), std::end(x))); }
    else if (f == "iter") { M t = a; for (double& x : t) { put(x); x = 0; } for (size_t i = 0; i < a.NumElements(); i++) { put(a.data()[i]); put(a.MemPtr()[i]); } }
    else throw std::runtime_error("unknown operation " + f);
    Churn();
    steps.push_back({{"v", v}, {"g", {Snap(g[0]), Snap(g[1]), Snap(g[2])}}});
  }
  return {{"steps", steps}};
}

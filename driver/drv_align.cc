// Global alignment, aligned truncation, transforms and cross-correlation
// (properties C18, C19, C29).
#include <complex>
#include <memory>

#include "alignment.h"
#include "common.h"
#include "envelope.h"
#include "fast_fourier_transform.h"
#include "fft_manager.h"
#include "xcorr.h"
using namespace Visqol;

static bool Same(const AudioSignal& s, const json& v, size_t rate) {
  return s.data_matrix.NumCols() == 1 && s.sample_rate == rate &&
         s.data_matrix.ToVector() == Dbls(v);
}
static json Sig(const AudioSignal& s) {
  return {{"x", Nums(s.data_matrix.NumRows() ? s.data_matrix.ToVector() : std::vector<double>())},
          {"rate", s.sample_rate},
          {"cols", s.data_matrix.NumCols()}};
}
static json Lag(double lag, size_t rate) {
  return {{"s", Num(lag)}, {"n", std::llround(lag * rate)}};
}
static json Global(const json& c) {
  size_t rate = c["rate"];
  AudioSignal ref = MkSig(Dbls(c["ref"]), rate), deg = MkSig(Dbls(c["deg"]), rate);
  auto t = Alignment::GloballyAlign(ref, deg);
  return {{"out", Sig(std::get<0>(t))},
          {"lag", Lag(std::get<1>(t), rate)},
          {"kept", Same(ref, c["ref"], rate) && Same(deg, c["deg"], rate)}};
}
static json Trunc(const json& c) {
  size_t rate = c["rate"];
  AudioSignal ref = MkSig(Dbls(c["ref"]), rate), deg = MkSig(Dbls(c["deg"]), rate);
  auto t = Alignment::AlignAndTruncate(ref, deg);
  return {{"r", Sig(std::get<0>(t))},
          {"d", Sig(std::get<1>(t))},
          {"lag", Lag(std::get<2>(t), rate)},
          {"kept", Same(ref, c["ref"], rate) && Same(deg, c["deg"], rate)}};
}
static json Xcorr(const json& c) {
  auto a = MkCol(Dbls(c["a"])), b = MkCol(Dbls(c["b"]));
  return {{"lag", XCorr::FindLowestLagIndex(a, b)}, {"back", XCorr::FindLowestLagIndex(b, a)}};
}
static json Env(const json& c) {
  return {{"env", Mat(Envelope::CalcUpperEnv(MkCol(Dbls(c["x"]))))}};
}
static json Cplx(const AMatrix<std::complex<double>>& m, bool im) {
  json a = json::array();
  for (size_t i = 0; i < m.NumElements(); i++) a.push_back(Num(im ? m(i).imag() : m(i).real()));
  return a;
}
static json Fft(const json& c) {
  auto x = MkCol(Dbls(c["x"]));
  size_t points = c["points"];
  auto mgr = std::make_unique<FftManager>(points);
  json r;
  // an earlier use of the same manager must leave no trace
  if (c["warm"].get<bool>())
    FastFourierTransform::Inverse1d(
        mgr, FastFourierTransform::Forward1d(mgr, MkCol(std::vector<double>(points, 3.25))));
  auto f = x.NumRows() == points && !c["pad"].get<bool>()
               ? FastFourierTransform::Forward1d(mgr, x)
               : FastFourierTransform::Forward1d(mgr, x, points);
  r["re"] = Cplx(f, false);
  r["im"] = Cplx(f, true);
  auto inv = FastFourierTransform::Inverse1d(mgr, f);
  r["inv"] = Cplx(inv, false);
  r["invim"] = Cplx(inv, true);
  r["sym"] = Mat(FastFourierTransform::Inverse1dConjSym(mgr, f));
  r["kept"] = x.ToVector() == Dbls(c["x"]);
  return r;
}

// Long signals of a few bursts of samples, given and recorded sparsely.
static json Sparse(const AudioSignal& s) {
  json at = json::array();
  if (s.data_matrix.NumRows())
    for (size_t i = 0; i < s.data_matrix.NumRows(); i++)
      if (s.data_matrix(i, 0) != 0) at.push_back(json::array({i, Num(s.data_matrix(i, 0))}));
  return {{"n", s.data_matrix.NumRows()}, {"at", at}, {"rate", s.sample_rate}, {"cols", s.data_matrix.NumCols()}};
}
static json Far(const json& c) {
  const size_t rate = c["rate"];
  std::vector<double> a(c["n"].get<size_t>()), b(c["m"].get<size_t>());
  for (auto& e : c["at"]) {
    a[e[0].get<int64_t>()] = Dbl(e[1]);
    b[e[0].get<int64_t>() + c["delay"].get<int64_t>()] = Dbl(e[1]);
  }
  AudioSignal ref = MkSig(a, rate), deg = MkSig(b, rate);
  json r;
  if (c["how"] == "global") {
    auto t = Alignment::GloballyAlign(ref, deg);
    r = {{"out", Sparse(std::get<0>(t))}, {"lag", Lag(std::get<1>(t), rate)}};
  } else {
    auto t = Alignment::AlignAndTruncate(ref, deg);
    r = {{"r", Sparse(std::get<0>(t))}, {"d", Sparse(std::get<1>(t))}, {"lag", Lag(std::get<2>(t), rate)}};
  }
  r["kept"] = ref.data_matrix.ToVector() == a && deg.data_matrix.ToVector() == b;
  return r;
}

json Run(const json& c) {
  const std::string op = c["op"];
  if (op == "global") return Global(c);
  if (op == "trunc") return Trunc(c);
  if (op == "far") return Far(c);
  if (op == "xcorr") return Xcorr(c);
  if (op == "env") return Env(c);
  return Fft(c);
}

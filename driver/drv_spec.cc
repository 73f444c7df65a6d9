// Spectrograms: framing, filter bank, preparation (properties C20..C22).
#include "analysis_window.h"
#include "common.h"
#include "equivalent_rectangular_bandwidth.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "misc_audio.h"
#include "spectrogram.h"
using namespace Visqol;

static std::vector<double> Noise(uint32_t seed, size_t n) {
  std::vector<double> v(n);
  uint32_t s = seed * 2654435761u + 12345;
  for (auto& x : v) {
    s = s * 1664525u + 1013904223u;
    x = ((int)(s >> 16) - 32768) / 32768.0;
  }
  return v;
}
static json ColStr(const AMatrix<double>& m, size_t k) {
  json a = json::array();
  for (size_t b = 0; b < m.NumRows(); b++) a.push_back(Num(m(b, k)));
  return a;
}
// frames of a spectrogram: a list of columns
static json Frames(const AMatrix<double>& m) {
  json a = json::array();
  for (size_t k = 0; k < m.NumCols(); k++) a.push_back(ColStr(m, k));
  return a;
}
static AMatrix<double> FromFrames(const json& f) {
  AMatrix<double> m(f[0].size(), f.size());
  for (size_t k = 0; k < f.size(); k++)
    for (size_t b = 0; b < f[k].size(); b++) m(b, k) = Dbl(f[k][b]);
  return m;
}
static GammatoneSpectrogramBuilder Builder(const json& c) {
  return GammatoneSpectrogramBuilder(GammatoneFilterBank(c["bands"], Dbl(c["low"])), c["speech"]);
}

static json Build(const json& c) {
  auto b = Builder(c);
  size_t rate = c["rate"], size = c["size"], hop = c["hop"];
  AnalysisWindow w(rate, hop / (double)size, size / (double)rate);
  json r;
  auto s = b.Build(MkSig(Dbls(c["x"]), rate), w);
  r["code"] = Code(s.status());
  if (s.ok()) {
    r["rows"] = s->Data().NumRows();
    r["cols"] = s->Data().NumCols();
    r["cf"] = Nums(s->GetCenterFreqBands());
    r["data"] = Mat(s->Data());
  }
  return r;
}

static json FramesOp(const json& c) {
  size_t rate = c["rate"], n = c["n"];
  AnalysisWindow w(rate, .25, Dbl(c["dur"]));
  size_t size = w.size, hop = w.size / 4;
  auto x = Noise(c["seed"], n);
  json r;
  r["size"] = size;
  auto b = Builder(c);
  auto s = b.Build(MkSig(x, rate), w);
  r["code"] = Code(s.status());
  if (!s.ok()) return r;
  r["rows"] = s->Data().NumRows();
  r["cols"] = s->Data().NumCols();
  r["probe"] = json::array();
  for (auto& kk : c["probe"]) {
    size_t k = kk.get<size_t>() % s->Data().NumCols();
    json p;
    p["whole"] = ColStr(s->Data(), k);
    std::vector<double> win(x.begin() + k * hop, x.begin() + k * hop + size);
    auto alone = win;
    alone.push_back(.25);
    p["alone"] = ColStr(Builder(c).Build(MkSig(alone, rate), w)->Data(), 0);
    auto other = Noise(c["seed"].get<uint32_t>() + 77, n + hop);  // differs outside the window
    std::copy(win.begin(), win.end(), other.begin() + k * hop);
    p["other"] = ColStr(b.Build(MkSig(other, rate), w)->Data(), k);
    // the same window at another place
    std::vector<double> copy = Noise(c["seed"].get<uint32_t>() + 5, 3 * size + 2 * hop + 1);
    std::copy(win.begin(), win.end(), copy.begin() + 2 * hop);
    p["copy"] = ColStr(b.Build(MkSig(copy, rate), w)->Data(), 2);
    auto changed = x;
    changed[k * hop + size / 2] += .5;
    p["changed"] = ColStr(b.Build(MkSig(changed, rate), w)->Data(), k);
    r["probe"].push_back(p);
  }
  return r;
}

static AMatrix<double> Coeffs(const json& c, json* cf) {
  auto e = EquivalentRectangularBandwidth::MakeFilters(c["rate"], c["bands"], Dbl(c["low"]), Dbl(c["high"]));
  if (cf) *cf = Nums(e.centerFreqs);
  return AMatrix<double>(e.filterCoeffs).FlipUpDown();
}
static std::valarray<double> Va(const std::vector<double>& v) {
  return std::valarray<double>(v.data(), v.size());
}

static json Bank(const json& c) {
  json r;
  GammatoneFilterBank fb(c["bands"], Dbl(c["low"]));
  fb.SetFilterCoefficients(Coeffs(c, &r["cf"]));
  r["out"] = r["pieces"] = r["again"] = json::array();
  for (auto& s : c["signals"]) {
    fb.ResetFilterConditions();
    r["out"].push_back(Mat(fb.ApplyFilter(Va(Dbls(s)))));
  }
  for (auto& s : c["signals"]) {
    auto v = Dbls(s);
    fb.ResetFilterConditions();
    json rows = json::array();
    for (size_t b = 0; b < c["bands"].get<size_t>(); b++) rows.push_back(json::array());
    size_t cut = c["cut"].get<size_t>() % v.size();
    for (auto part : {std::vector<double>(v.begin(), v.begin() + cut),
                      std::vector<double>(v.begin() + cut, v.end())}) {
      if (part.empty()) continue;
      json m = Mat(fb.ApplyFilter(Va(part)));
      for (size_t b = 0; b < rows.size(); b++)
        for (auto& z : m[b]) rows[b].push_back(z);
    }
    r["pieces"].push_back(rows);
  }
  GammatoneFilterBank fresh(c["bands"], Dbl(c["low"]));
  fresh.SetFilterCoefficients(Coeffs(c, nullptr));
  for (auto& s : c["signals"]) {
    fresh.ResetFilterConditions();
    r["again"].push_back(Mat(fresh.ApplyFilter(Va(Dbls(s)))));
    fresh.ApplyFilter(Va({1, -1, 1}));
  }
  return r;
}

static json Tones(const json& c) {
  json r;
  size_t n = c["bands"], rate = c["rate"];
  GammatoneFilterBank fb(n, Dbl(c["low"]));
  json cf;
  fb.SetFilterCoefficients(Coeffs(c, &cf));
  r["level"] = json::array();
  for (size_t b = 0; b < n; b++) {
    double f = Dbl(cf[n - 1 - b]);
    size_t len = rate / 2;
    std::valarray<double> x(len);
    for (size_t i = 0; i < len; i++) x[i] = std::sin(2 * M_PI * f * i / rate);
    fb.ResetFilterConditions();
    auto y = fb.ApplyFilter(x);
    json row = json::array();
    for (size_t q = 0; q < n; q++) {
      double s = 0;
      for (size_t i = len / 2; i < len; i++) s += y(q, i) * y(q, i);
      row.push_back(Num(std::sqrt(s / (len - len / 2))));
    }
    r["level"].push_back(row);
  }
  return r;
}

static json Prep(const json& c) {
  json r;
  auto mk = [](const json& f) { return Spectrogram(FromFrames(f)); };
  {
    auto a = mk(c["ref"]), b = mk(c["deg"]);
    MiscAudio::PrepareSpectrogramsForComparison(a, b);
    r["ref"] = Frames(a.Data());
    r["deg"] = Frames(b.Data());
  }
  {
    auto a = mk(c["deg"]), b = mk(c["ref"]);
    MiscAudio::PrepareSpectrogramsForComparison(a, b);
    r["swapref"] = Frames(a.Data());
    r["swapdeg"] = Frames(b.Data());
  }
  auto a = mk(c["ref"]);
  r["min"] = Num(a.Minimum());
  a.ConvertToDb();
  r["db"] = Frames(a.Data());
  return r;
}

json Run(const json& c) {
  const std::string op = c["op"];
  if (op == "build") return Build(c);
  if (op == "frames") return FramesOp(c);
  if (op == "bank") return Bank(c);
  if (op == "tones") return Tones(c);
  return Prep(c);
}

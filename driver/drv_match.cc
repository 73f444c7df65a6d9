// Patch matching, realignment and slicing (properties C14..C17).
#include "alignment.h"
#include "analysis_window.h"
#include "common.h"
#include "comparison_patches_selector.h"
#include "patch_similarity_comparator.h"
#include "spectrogram.h"
#include "spectrogram_builder.h"

namespace Visqol {
class ComparisonPatchesSelectorPeer {
 public:
  static size_t CalcMax(const ComparisonPatchesSelector& s, const std::vector<size_t>& idx,
                        size_t n, size_t w) {
    return s.CalcMaxNumPatches(idx, n, w);
  }
  static AudioSignal Slice(const AudioSignal& x, double a, double b) {
    return ComparisonPatchesSelector::Slice(x, a, b);
  }
};
}  // namespace Visqol
using namespace Visqol;
using Peer = ComparisonPatchesSelectorPeer;

static AMatrix<double> Col(std::vector<double> v) { return MkCol(v); }
constexpr int kRows = 2;

// Reference patch i holds i+1 everywhere (plus 1000 per band); column j of the
// degraded spectrogram holds j+1 (plus 1000 per band).
struct TableComparator : PatchSimilarityComparator {
  json sim;
  size_t n, w;
  double unit = 1;  // a power of two: what 1 stands for
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch& ref,
                                               const ImagePatch& deg) const override {
    PatchSimilarityResult r{};
    int i = (int)ref(0, 0) - 1, j = (int)deg(0, 0) - 1;
    bool ok = ref.NumRows() == kRows && deg.NumRows() == kRows && ref.NumCols() == w &&
              deg.NumCols() == w && i >= 0 && i < (int)sim.size() && j >= 0 && j < (int)n;
    for (size_t b = 0; ok && b < kRows; b++)
      for (size_t k = 0; ok && k < w; k++) {
        ok = ok && ref(b, k) == i + 1 + 1000. * b;
        ok = ok && deg(b, k) == (j + k < n ? j + k + 1 + 1000. * b : 0.);
      }
    double s = ok ? sim[i][j].get<double>() / unit : 1e6;  // never a legal value
    r.similarity = s;
    r.freq_band_means = Col({s, (double)i, (double)j});
    r.freq_band_stddevs = Col({(double)j, (double)i});
    r.freq_band_deg_energy = Col({(double)i, (double)j, 7});
    r.ref_patch_start_time = r.ref_patch_end_time = 77;
    r.deg_patch_start_time = r.deg_patch_end_time = 78;
    return r;
  }
};

static json IntOr(double d) {
  if (d == std::floor(d) && std::fabs(d) < 1e9) return (int)d;
  return Num(d);
}
static json Ints(const AMatrix<double>& m) {
  json a = json::array();
  for (size_t i = 0; i < m.NumElements(); i++) a.push_back(IntOr(m(i)));
  return a;
}
static json Res(const PatchSimilarityResult& p) {
  return {{"rs", Num(p.ref_patch_start_time)}, {"re", Num(p.ref_patch_end_time)},
          {"ds", Num(p.deg_patch_start_time)}, {"de", Num(p.deg_patch_end_time)},
          {"sim", Num(p.similarity)},
          {"means", Ints(p.freq_band_means)},
          {"stds", Ints(p.freq_band_stddevs)},
          {"energy", Ints(p.freq_band_deg_energy)}};
}

static json Match(const json& c) {
  size_t n = c["n"], w = c["w"];
  std::vector<size_t> idx;
  for (auto& v : c["r"]) idx.push_back(v);
  std::vector<ImagePatch> refs;
  for (size_t i = 0; i < idx.size(); i++) {
    ImagePatch p(kRows, w);
    for (size_t b = 0; b < kRows; b++)
      for (size_t k = 0; k < w; k++) p(b, k) = i + 1 + 1000. * b;
    refs.push_back(p);
  }
  AMatrix<double> spec(kRows, n);
  for (size_t b = 0; b < kRows; b++)
    for (size_t k = 0; k < n; k++) spec(b, k) = k + 1 + 1000. * b;
  auto cmp = std::make_unique<TableComparator>();
  cmp->sim = c["sim"];
  const double unit = cmp->unit = c.value("unit", 1.0);
  cmp->n = n;
  cmp->w = w;
  ComparisonPatchesSelector sel(std::move(cmp));
  json r;
  auto res = sel.FindMostOptimalDegPatches(refs, idx, spec, Dbl(c["fd"]), c["rad"]);
  r["code"] = Code(res.status());
  r["res"] = json::array();
  if (res.ok())
    for (auto& p : *res) {
      p.similarity *= unit;
      if (p.freq_band_means.NumElements()) p.freq_band_means(0) *= unit;
      r["res"].push_back(Res(p));
    }
  r["maxp"] = Peer::CalcMax(sel, idx, n, w);
  return r;
}

static json SliceOp(const json& c) {
  AudioSignal s = MkSig(Dbls(c["x"]), c["rate"]);
  double rate = c["rate"].get<double>();
  AudioSignal y = Peer::Slice(s, c["q0"].get<double>() / 4 / rate, c["q1"].get<double>() / 4 / rate);
  json r;
  r["rate"] = y.sample_rate;
  r["y"] = Ints(y.data_matrix);
  return r;
}

// --- realignment -----------------------------------------------------------
struct Seg {
  std::vector<double> ref, deg;
};
static bool Eq(const AMatrix<double>& m, const std::vector<double>& v) {
  if (m.NumElements() != v.size()) return false;
  for (size_t i = 0; i < v.size(); i++)
    if (m(i) != v[i]) return false;
  return true;
}
// Turns an audio segment into a tiny spectrogram naming the patch and side it
// belongs to, in levels that survive the preparation for comparison.
struct IdBuilder : SpectrogramBuilder {
  std::vector<Seg> segs;
  std::vector<bool> fail;
  double rate;
  absl::StatusOr<Spectrogram> Build(const AudioSignal& s, const AnalysisWindow&) override {
    int id = 19, flag = 2;
    for (size_t i = 0; i < segs.size(); i++) {
      if (Eq(s.data_matrix, segs[i].ref)) id = i, flag = 0;
      else if (Eq(s.data_matrix, segs[i].deg)) id = i, flag = 1;
      else continue;
      break;
    }
    if (s.sample_rate != rate) flag = 2;
    if (id < (int)fail.size() && fail[id]) return absl::InternalError("injected");
    AMatrix<double> m(2, 2);
    m(0, 0) = m(1, 0) = 1e-4;
    m(0, 1) = std::pow(10., id * .02);
    m(1, 1) = std::pow(10., flag * .1);
    Spectrogram sp(std::move(m));
    sp.SetCenterFreqBands({100, 200});
    return sp;
  }
};
struct IdComparator : PatchSimilarityComparator {
  std::vector<double> newsim;
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch& a,
                                               const ImagePatch& b) const override {
    auto id = [](const ImagePatch& p) { return (p(0, 1) - 40) / .2; };
    auto flag = [](const ImagePatch& p) { return p(1, 1) - 40; };
    auto near = [](double x, double y) { return std::fabs(x - y) < 1e-6; };
    int i = (int)std::lround(id(a));
    bool ok = a.NumRows() == 2 && a.NumCols() == 2 && b.NumRows() == 2 && b.NumCols() == 2 &&
              near(id(a), i) && near(id(b), i) && near(flag(a), 0) && near(flag(b), 1) &&
              near(a(0, 0), 0) && near(b(0, 0), 0) && i >= 0 && i < (int)newsim.size();
    PatchSimilarityResult r{};
    r.similarity = ok ? newsim[i] : 1e6;
    r.freq_band_means = Col({r.similarity, i + 1., i + 1.});
    r.freq_band_stddevs = Col({0});
    r.freq_band_deg_energy = Col({0});
    return r;
  }
};

static json Realign(const json& c) {
  double rate = c["rate"].get<double>();
  AudioSignal ref = MkSig(Dbls(c["ref"]), c["rate"]), deg = MkSig(Dbls(c["deg"]), c["rate"]);
  std::vector<PatchSimilarityResult> coarse;
  IdBuilder b;
  b.rate = rate;
  auto cmp = std::make_unique<IdComparator>();
  json al = json::array();
  for (auto& o : c["coarse"]) {
    PatchSimilarityResult p{};
    p.ref_patch_start_time = Dbl(o["rs"]);
    p.ref_patch_end_time = Dbl(o["re"]);
    p.deg_patch_start_time = Dbl(o["ds"]);
    p.deg_patch_end_time = Dbl(o["de"]);
    p.similarity = Dbl(o["sim"]);
    p.freq_band_means = Col(Dbls(o["means"]));
    p.freq_band_stddevs = Col(Dbls(o["stds"]));
    p.freq_band_deg_energy = Col(Dbls(o["energy"]));
    coarse.push_back(p);
    Seg s;
    if (p.deg_patch_start_time != 0 || p.deg_patch_end_time != 0) {
      auto t = Alignment::AlignAndTruncate(
          Peer::Slice(ref, p.ref_patch_start_time, p.ref_patch_end_time),
          Peer::Slice(deg, p.deg_patch_start_time, p.deg_patch_end_time));
      s.ref = std::get<0>(t).data_matrix.ToVector();
      s.deg = std::get<1>(t).data_matrix.ToVector();
      al.push_back({{"lag", Num(std::get<2>(t))}, {"nref", s.ref.size()}, {"ndeg", s.deg.size()}});
    } else {
      al.push_back({{"lag", "0"}, {"nref", 0}, {"ndeg", 0}});
      s.ref = {12345};
      s.deg = {54321};
    }
    b.segs.push_back(s);
  }
  // Two of the segments may happen to be alike; then the builder cannot tell
  // them apart, and the specification accepts whatever it recorded.
  bool alike = false;
  for (size_t i = 0; i < b.segs.size(); i++)
    for (size_t j = 0; j < b.segs.size(); j++) {
      alike = alike || (i != j && b.segs[i].ref.size() > 1 && (b.segs[i].ref == b.segs[j].ref || b.segs[i].deg == b.segs[j].deg));
      alike = alike || b.segs[i].ref == b.segs[j].deg;
    }
  for (auto& v : c["newsim"]) cmp->newsim.push_back(Dbl(v));
  for (auto& v : c["fail"]) b.fail.push_back(v);
  ComparisonPatchesSelector sel(std::move(cmp));
  AnalysisWindow w(c["rate"].get<size_t>(), .25);
  auto res = sel.FinelyAlignAndRecreatePatches(coarse, ref, deg, &b, w);
  json r;
  r["al"] = al;
  r["alike"] = alike;
  r["code"] = Code(res.status());
  r["res"] = json::array();
  if (res.ok())
    for (auto& p : *res) r["res"].push_back(Res(p));
  return r;
}

json Run(const json& c) {
  const std::string op = c["op"];
  if (op == "match") return Match(c);
  if (op == "slice") return SliceOp(c);
  return Realign(c);
}

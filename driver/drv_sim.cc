// Similarity index, aggregation, exponential mapping, level matching
// (properties C23..C26).
#include "analysis_window.h"
#include "common.h"
#include "comparison_patches_selector.h"
#include "image_patch_creator.h"
#include "misc_audio.h"
#include "neurogram_similiarity_index_measure.h"
#include "similarity_to_quality_mapper.h"
#include "spectrogram.h"
#include "spectrogram_builder.h"
#include "speech_similarity_to_quality_mapper.h"
#include "visqol.h"
using namespace Visqol;

static json Vec(const AMatrix<double>& m) {
  json a = json::array();
  for (size_t i = 0; i < m.NumElements(); i++) a.push_back(Num(m(i)));
  return a;
}
static json Sim(const PatchSimilarityResult& p) {
  return {{"sim", Num(p.similarity)},
          {"means", Vec(p.freq_band_means)},
          {"stds", Vec(p.freq_band_stddevs)},
          {"energy", Vec(p.freq_band_deg_energy)}};
}

static json Nsim(const json& c) {
  NeurogramSimiliarityIndexMeasure m;
  auto ref = MkMat(c["ref"]), deg = MkMat(c["deg"]);
  json r = Sim(m.MeasurePatchSimilarity(ref, deg));
  r["swapped"] = Num(m.MeasurePatchSimilarity(deg, ref).similarity);
  r["same"] = Sim(m.MeasurePatchSimilarity(ref, ref));
  r["samedeg"] = Sim(m.MeasurePatchSimilarity(deg, deg));
  r["kept"] = Mat(ref) == Mat(MkMat(c["ref"])) && Mat(deg) == Mat(MkMat(c["deg"]));
  return r;
}

// --- one comparison with stand-ins for everything but Visqol itself, the
// patch selection and the alignment ------------------------------------------
static int Find(const std::vector<double>& hay, const AMatrix<double>& m, double k) {
  size_t n = m.NumElements();
  for (size_t o = 0; o + n <= hay.size(); o++) {
    bool ok = true;
    for (size_t i = 0; ok && i < n; i++)
      ok = std::fabs(m(i) - k * hay[o + i]) <= 1e-9 * (1 + std::fabs(m(i)));
    if (ok) return (int)o;
  }
  return -1;
}
struct PipeBuilder : SpectrogramBuilder {
  std::vector<double> ref, deg;
  double k;  // level matching factor
  size_t cols, plen;
  std::vector<size_t> starts;  // in samples
  std::vector<double> cf;
  bool scaled = true;
  absl::StatusOr<Spectrogram> Build(const AudioSignal& s, const AnalysisWindow&) override {
    size_t n = s.data_matrix.NumRows();
    int o = Find(ref, s.data_matrix, 1);
    bool isref = o >= 0;
    if (!isref) o = Find(deg, s.data_matrix, k);
    if (o < 0) scaled = false;
    AMatrix<double> m;
    if (n == ref.size()) {
      m = AMatrix<double>(2, cols);
      for (size_t q = 0; q < cols; q++) {
        m(0, q) = 1e-4;
        m(1, q) = std::pow(10., q * .002);
      }
    } else {
      int id = -1;
      for (size_t i = 0; i < starts.size(); i++)
        if (o >= (int)starts[i] && o < (int)(starts[i] + plen)) id = i;
      m = AMatrix<double>(2, 2);
      m(0, 0) = m(1, 0) = 1e-4;
      m(0, 1) = std::pow(10., (id + 1) * .002);
      m(1, 1) = std::pow(10., isref ? .1 : .2);
    }
    Spectrogram sp(std::move(m));
    sp.SetCenterFreqBands(cf);
    return sp;
  }
};
struct PipeComparator : PatchSimilarityComparator {
  json coarse, fine;
  size_t w;
  std::vector<size_t> starts;  // in columns
  static PatchSimilarityResult Of(const json& d) {
    PatchSimilarityResult r{};
    r.similarity = Dbl(d["sim"]);
    r.freq_band_means = MkCol(Dbls(d["means"]));
    r.freq_band_stddevs = MkCol(Dbls(d["stds"]));
    r.freq_band_deg_energy = MkCol(Dbls(d["energy"]));
    return r;
  }
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch& a,
                                               const ImagePatch& b) const override {
    auto dec = [](double v) { return (int)std::lround((v - 40) / .02); };
    PatchSimilarityResult none = Of(coarse[0]);
    none.similarity = 1e-6;
    if (a.NumCols() == w) {
      int ri = dec(a(1, 0)), dj = dec(b(1, 0));
      for (size_t i = 0; i < starts.size(); i++)
        if ((int)starts[i] == ri) {
          if (dj == ri) return Of(coarse[i]);
          auto r = Of(coarse[i]);
          r.similarity = 1e-6;
          return r;
        }
      return none;
    }
    int i = dec(a(0, 1)) - 1, j = dec(b(0, 1)) - 1;
    if (i < 0 || i >= (int)fine.size() || i != j) return none;
    return Of(fine[i]);
  }
};
struct FixedStarts : ImagePatchCreator {
  std::vector<size_t> starts;
  explicit FixedStarts(size_t w) : ImagePatchCreator(w) {}
  absl::StatusOr<std::vector<size_t>> CreateRefPatchIndices(const AMatrix<double>&, const AudioSignal&,
                                                            const AnalysisWindow&) const override {
    return starts;
  }
};
struct RecordingMapper : SimilarityToQualityMapper {
  double mos;
  mutable json calls = json::array();
  double PredictQuality(const std::vector<double>& a, const std::vector<double>& b,
                        const std::vector<double>& c, const std::vector<double>& d) const override {
    calls.push_back(json::array({Nums(a), Nums(b), Nums(c), Nums(d)}));
    return mos;
  }
  absl::Status Init() override { return absl::OkStatus(); }
};

static json Pipe(const json& c) {
  size_t rate = 64, hop = 4, w = c["w"];
  AnalysisWindow win(rate, .25, 16. / 64);
  PipeBuilder b;
  b.ref = Dbls(c["ref"]);
  b.deg = Dbls(c["deg"]);
  double rs = 0, ds = 0;
  for (double v : b.ref) rs += v * v;
  for (double v : b.deg) ds += v * v;
  b.k = std::sqrt(rs / ds);
  b.cols = c["cols"];
  b.plen = w * hop;
  b.cf = Dbls(c["cf"]);
  FixedStarts pc(w);
  auto cmp = std::make_unique<PipeComparator>();
  for (auto& s : c["starts"]) {
    pc.starts.push_back(s);
    b.starts.push_back(s.get<size_t>() * hop);
    cmp->starts.push_back(s);
  }
  cmp->coarse = c["coarse"];
  cmp->fine = c["fine"];
  cmp->w = w;
  ComparisonPatchesSelector sel(std::move(cmp));
  RecordingMapper mapper;
  mapper.mos = Dbl(c["mos"]);
  AudioSignal ref = MkSig(b.ref, rate), deg = MkSig(b.deg, rate);
  Visqol::Visqol v;
  auto res = v.CalculateSimilarity(ref, deg, &b, win, &pc, &sel, &mapper, c["radius"],
                                   !c["realign"].get<bool>());
  json r;
  r["code"] = Code(res.status());
  if (!res.ok()) return r;
  r["patches"] = json::array();
  for (auto& p : res->debug_info.patch_sims) {
    json q = Sim(p);
    q["rs"] = Num(p.ref_patch_start_time);
    q["re"] = Num(p.ref_patch_end_time);
    r["patches"].push_back(q);
  }
  r["fd"] = Num(hop / (double)rate);
  r["fvnsim"] = Nums(res->fvnsim);
  r["fvnsim10"] = Nums(res->fvnsim10);
  r["fstdnsim"] = Nums(res->fstdnsim);
  r["fvdegenergy"] = Nums(res->fvdegenergy);
  r["vnsim"] = Num(res->vnsim);
  r["moslqo"] = Num(res->moslqo);
  r["cf"] = Nums(res->center_freq_bands);
  r["mapper"] = mapper.calls;
  r["scaled"] = b.scaled;
  r["refkept"] = ref.data_matrix.ToVector() == b.ref && ref.sample_rate == rate;
  return r;
}

static json Quantile(const json& c) {
  std::vector<PatchSimilarityResult> p;
  for (auto& q : c["patches"]) {
    PatchSimilarityResult x{};
    x.freq_band_means = MkCol(Dbls(q["means"]));
    p.push_back(x);
  }
  Visqol::Visqol v;
  json r;
  r["q"] = Vec(v.CalcPerPatchFreqBandQuantile(p, c["pct"].get<int>() / 100.));
  return r;
}

static json MapOp(const json& c) {
  json r;
  SpeechSimilarityToQualityMapper sc(true), un(false);
  sc.Init();
  un.Init();
  r["scaled"] = r["unscaled"] = r["perm"] = r["flat"] = r["otherfeatures"] = json::array();
  for (auto& l : c["v"]) {
    auto v = Dbls(l);
    std::vector<double> z(v.size(), 0.);
    r["scaled"].push_back(Num(sc.PredictQuality(v, z, z, z)));
    r["unscaled"].push_back(Num(un.PredictQuality(v, z, z, z)));
    std::vector<double> rev(v.rbegin(), v.rend());
    r["perm"].push_back(Num(sc.PredictQuality(rev, z, z, z)));
    double m = 0;
    for (double d : v) m += d;
    r["flat"].push_back(Num(sc.PredictQuality(std::vector<double>(v.size(), m / v.size()), z, z, z)));
    r["otherfeatures"].push_back(Num(sc.PredictQuality(v, rev, v, rev)));
  }
  return r;
}

static json Level(const json& c) {
  auto ref = MkSig(Dbls(c["ref"]), c["rref"]), deg = MkSig(Dbls(c["deg"]), c["rdeg"]);
  auto y = MiscAudio::ScaleToMatchSoundPressureLevel(ref, deg);
  json r;
  r["y"] = Vec(y.data_matrix);
  r["rows"] = y.data_matrix.NumRows();
  r["cols"] = y.data_matrix.NumCols();
  r["rate"] = y.sample_rate;
  r["kept"] = ref.data_matrix.ToVector() == Dbls(c["ref"]) && deg.data_matrix.ToVector() == Dbls(c["deg"]);
  r["more"] = json::array();
  for (auto& g : c["gains"]) {
    auto d2 = deg;
    d2.data_matrix = deg.data_matrix * Dbl(g);
    r["more"].push_back(Vec(MiscAudio::ScaleToMatchSoundPressureLevel(ref, d2).data_matrix));
  }
  return r;
}

json Run(const json& c) {
  const std::string op = c["op"];
  if (op == "nsim") return Nsim(c);
  if (op == "pipe") return Pipe(c);
  if (op == "quantile") return Quantile(c);
  if (op == "map") return MapOp(c);
  return Level(c);
}

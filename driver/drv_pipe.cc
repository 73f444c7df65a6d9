// Whole comparisons (C03, C11, C23, C31, C32): a manager's result, and the same
// pair put through the stages of a plan (spec/Pipeline.tla), one component at a time.
#include <memory>
#include <tuple>

#include "alignment.h"
#include "analysis_window.h"
#include "common.h"
#include "comparison_patches_selector.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "misc_audio.h"
#include "neurogram_similiarity_index_measure.h"
#include "result.h"
#include "speech_similarity_to_quality_mapper.h"
#include "svr_similarity_to_quality_mapper.h"
#include "synth.h"
#include "tensorflow/lite/c/c_api_types.h"
#include "tflite_quality_mapper.h"
#include "vad_patch_creator.h"
#include "visqol_api.h"
#include "visqol_manager.h"

using namespace Visqol;

static json Vec(const AMatrix<double>& m) {
  json a = json::array();
  for (size_t i = 0; i < m.NumElements(); i++) a.push_back(Num(m(i)));
  return a;
}
static json Patches(const std::vector<PatchSimilarityResult>& v) {
  json a = json::array();
  for (auto& p : v)
    a.push_back({{"sim", Num(p.similarity)},
                 {"means", Vec(p.freq_band_means)},
                 {"stds", Vec(p.freq_band_stddevs)},
                 {"energy", Vec(p.freq_band_deg_energy)},
                 {"rs", Num(p.ref_patch_start_time)},
                 {"re", Num(p.ref_patch_end_time)},
                 {"ds", Num(p.deg_patch_start_time)},
                 {"de", Num(p.deg_patch_end_time)}});
  return a;
}
static std::vector<double> Get(const google::protobuf::RepeatedField<double>& v) { return {v.begin(), v.end()}; }

// The stages of the plan.  Stops at the first stage that fails.
static json Stages(const json& c, AudioSignal ref, AudioSignal deg, const SimilarityResultMsg* m) {
  json r = {{"code", "OK"}, {"failed", ""}};
  std::unique_ptr<AnalysisWindow> win;
  std::unique_ptr<GammatoneSpectrogramBuilder> sb;
  std::unique_ptr<ImagePatchCreator> pc;
  ComparisonPatchesSelector sel(std::make_unique<NeurogramSimiliarityIndexMeasure>());
  std::unique_ptr<Spectrogram> rs, ds;
  std::vector<size_t> starts;
  std::vector<PatchSimilarityResult> patches;
  double lag = 0;
  for (auto& s : c["plan"]) {
    const std::string f = s["do"];
    auto fail = [&](const absl::Status& st) {
      r["code"] = Code(st);
      r["failed"] = f;
      return r;
    };
    if (f == "align") {
      std::tie(deg, lag) = Alignment::GloballyAlign(ref, deg);
    } else if (f == "level") {
      deg = MiscAudio::ScaleToMatchSoundPressureLevel(ref, deg);
    } else if (f == "analyse") {
      if (!win) win = std::make_unique<AnalysisWindow>(ref.sample_rate, 1.0 / s["perwindow"].get<int>(), s["ms"].get<int>() / 1000.0);
      if (!sb) sb = std::make_unique<GammatoneSpectrogramBuilder>(GammatoneFilterBank(s["bands"].get<int>(), s["low"].get<int>()), s["capped"].get<bool>());
      auto q = sb->Build(s["what"] == "ref" ? ref : deg, *win);
      if (!q.ok()) return fail(q.status());
      (s["what"] == "ref" ? rs : ds) = std::make_unique<Spectrogram>(q.value());
    } else if (f == "prepare") {
      MiscAudio::PrepareSpectrogramsForComparison(*rs, *ds);
    } else if (f == "segment") {
      if (s["by"] == "voice")
        pc = std::make_unique<VadPatchCreator>(s["frames"].get<int>());
      else
        pc = std::make_unique<ImagePatchCreator>(s["frames"].get<int>());
      auto q = pc->CreateRefPatchIndices(rs->Data(), ref, *win);
      if (!q.ok()) return fail(q.status());
      starts = q.value();
      r["starts"] = starts;
      r["cols"] = rs->Data().NumCols();
    } else if (f == "match") {
      const size_t hop = win->size * win->overlap;
      const double fd = hop / (double)ref.sample_rate;
      auto q = sel.FindMostOptimalDegPatches(pc->CreatePatchesFromIndices(rs->Data(), starts), starts, ds->Data(), fd,
                                             s["radius"].get<int>());
      if (!q.ok()) return fail(q.status());
      patches = q.value();
    } else if (f == "realign") {
      auto q = sel.FinelyAlignAndRecreatePatches(patches, ref, deg, sb.get(), *win);
      if (!q.ok()) return fail(q.status());
      patches = q.value();
    } else if (f == "map") {
      if (!m) continue;
      std::unique_ptr<SimilarityToQualityMapper> map;
      const std::string by = s["by"];
      if (by == "svr")
        map = std::make_unique<SvrSimilarityToQualityMapper>(FilePath(c["opt"]["model"].get<std::string>()));
      else if (by == "lattice")
        map = std::make_unique<TFLiteQualityMapper>(c["opt"]["model"].get<std::string>(), 21);
      else
        map = std::make_unique<SpeechSimilarityToQualityMapper>(by == "scaled");
      if (!map->Init().ok()) throw std::runtime_error("mapper");
      r["mapped"] = Num(map->PredictQuality(Get(m->fvnsim()), Get(m->fvnsim10()), Get(m->fstdnsim()), Get(m->fvdegenergy())));
    }  // "aggregate" and "bound" are evaluated by the specification
  }
  r["lag"] = Num(lag);
  r["cf"] = Nums(rs->GetCenterFreqBands());
  r["patches"] = Patches(patches);
  return r;
}

json Run(const json& c) {
  auto load = [](const json& s) {
    if (s.contains("file")) return MiscAudio::LoadAsMono(FilePath(s["file"].get<std::string>()));
    const auto x = Synth(s);
    if (!x.empty()) return MkSig(x, s["rate"]);
    AudioSignal a;
    a.sample_rate = s["rate"];
    return a;
  };
  const json& q = c["opt"];
  json out = {{"runs", json::array()}};
  for (auto& p : c["pairs"]) {
    AudioSignal ref = load(p["ref"]), deg = load(p["deg"]);
    const AudioSignal deg0 = deg;
    auto& log = verif_tflite::TheLog();
    const int n0 = log.invokes;
    json r;
    VisqolManager m;
    r["init"] = Code(m.Init(FilePath(q["model"].get<std::string>()), q["speech"], q["unscaled"], q["radius"], q["lattice"],
                            q["noalign"], q["norealign"]));
    auto s = m.Run(ref, deg);
    r["code"] = Code(s.status());
    r["lattice"] = log.invokes - n0;
    r["ref"] = {{"n", ref.data_matrix.NumRows()}, {"rate", ref.sample_rate}};
    r["deg"] = {{"n", deg0.data_matrix.NumRows()}, {"rate", deg0.sample_rate}};
    if (s.ok()) r["full"] = Full(*s);
    if (c.contains("plan") && ref.data_matrix.NumElements() && deg0.data_matrix.NumElements()) r["stages"] = Stages(c, ref, deg0, s.ok() ? &*s : nullptr);
    out["runs"].push_back(r);
  }
  return out;
}

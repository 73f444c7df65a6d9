// Histories of initialisations and comparisons on managers and API objects.
#include <filesystem>
#include <map>
#include <memory>

#include <unistd.h>

#include "common.h"
#include "conformance.h"
#include "misc_audio.h"
#include "result.h"
#include "synth.h"
#include "tensorflow/lite/c/c_api_types.h"
#include "visqol_api.h"
#include "visqol_manager.h"

using namespace Visqol;

static void Put(json& r, const absl::StatusOr<SimilarityResultMsg>& s, bool full) {
  r["code"] = Code(s.status());
  if (!s.ok()) return;
  r["hash"] = Digest(*s);
  r["mos"] = Num(s->moslqo());
  if (full) r["full"] = Full(*s);
}

json Run(const json& c) {
  std::map<int, std::unique_ptr<VisqolManager>> mgr;
  std::map<int, std::unique_ptr<VisqolApi>> api;
  std::map<std::string, std::vector<double>> sig;
  std::map<std::string, size_t> rate;
  for (auto& kv : c["sigs"].items()) {
    const json& s = kv.value();
    if (s.contains("file")) {
      auto a = MiscAudio::LoadAsMono(FilePath(s["file"].get<std::string>()));
      sig[kv.key()] = a.data_matrix.NumElements() ? a.data_matrix.ToVector() : std::vector<double>();
      rate[kv.key()] = a.sample_rate;
    } else {
      auto& x = sig[kv.key()] = Synth(s);
      // the last samples are missing from the file: they count as silence
      for (size_t i = 0; i < s.value("lost", size_t{0}); i++) x[x.size() - 1 - i] = 0;
      rate[kv.key()] = s["rate"];
    }
  }
  auto path = [&](const json& o, const char* k) -> std::string {
    const std::string name = o[k];
    // the same file again and again, with changing contents
    const bool slot = o["as"] == "slot";
    if (slot && !sig.count(name)) {
      const std::string p = Scratch() + "/slot-" + k + ".wav";
      std::filesystem::remove(p);
      return p;
    }
    if (!sig.count(name)) return Scratch() + "/no_such_dir/" + name;  // unreadable
    if (c["sigs"][name].contains("file")) return c["sigs"][name]["file"];
    const std::string p = Scratch() + "/" + (slot ? std::string("slot-") + k : name) + ".wav";
    WriteWav(p, sig[name], rate[name]);
    if (size_t lost = c["sigs"][name].value("lost", size_t{0}))
      std::filesystem::resize_file(p, std::filesystem::file_size(p) - 2 * lost);
    return p;
  };
  auto signal = [&](const std::string& name) {
    AudioSignal s;
    if (sig.count(name) && !sig[name].empty()) return MkSig(sig[name], rate[name]);
    if (sig.count(name)) s.sample_rate = rate[name];
    return s;
  };
  const bool full = c.value("full", false);
  json out = json::array();
  // with "times", the operations after the first "prefix" are repeated, and
  // what is held after each time is recorded
  const size_t prefix = c.value("prefix", size_t{0}), times = c.value("times", size_t{1});
  std::vector<HeldNow> held(times);
  for (size_t t = 0; t < times; t++) {
  for (size_t oi = t ? prefix : 0; oi < c["ops"].size(); oi++) {
    const json& o = c["ops"][oi];
    const std::string f = o["f"];
    const int d = o["o"];
    json r = {{"f", f}};
    if (f == "init") {
      if (!mgr[d] || o.value("fresh", false)) mgr[d].reset(new VisqolManager());
      const json& q = o["opt"];
      r["code"] = Code(mgr[d]->Init(FilePath(q["model"].get<std::string>()), q["speech"], q["unscaled"],
                                    q["radius"], q["lattice"], q["noalign"], q["norealign"]));
    } else if (f == "run") {
      if (!mgr[d]) mgr[d].reset(new VisqolManager());
      auto& log = verif_tflite::TheLog();
      const int n0 = log.invokes;
      if (o["as"] != "sig") {
        const std::string rp = path(o, "ref"), dp = path(o, "deg");
        auto s = mgr[d]->Run(FilePath(rp), FilePath(dp));
        Put(r, s, full);
        if (s.ok()) r["paths"] = s->reference_filepath() == rp && s->degraded_filepath() == dp;
      } else {
        AudioSignal ref = signal(o["ref"]), deg = signal(o["deg"]);
        auto before = ref.data_matrix;
        Put(r, mgr[d]->Run(ref, deg), full);
        r["kept"] = ref.data_matrix == before && ref.sample_rate == signal(o["ref"]).sample_rate;
      }
      r["lattice"] = log.invokes - n0;
    } else if (f == "drop") {
      mgr[d].reset();
    } else if (f == "create") {
      if (!api[d] || o.value("fresh", false)) api[d].reset(new VisqolApi());
      const json& q = o["cfg"];
      VisqolConfig cfg;
      if (q.contains("rate")) cfg.mutable_audio()->set_sample_rate(q["rate"]);
      if (q.contains("emptyaudio")) cfg.mutable_audio();
      if (q.contains("options")) {
        auto* p = cfg.mutable_options();
        const json& z = q["options"];
        if (z.contains("model")) p->set_svr_model_path(z["model"].get<std::string>());
        if (z.contains("speech")) p->set_use_speech_scoring(z["speech"]);
        if (z.contains("override")) p->set_allow_unsupported_sample_rates(z["override"]);
        if (z.contains("unscaled")) p->set_use_unscaled_speech_mos_mapping(z["unscaled"]);
        if (z.contains("radius")) p->set_search_window_radius(z["radius"]);
        if (z.contains("lattice")) p->set_use_lattice_model(z["lattice"]);
      }
      // default models are looked for under the current directory
      char cwd[4096];
      if (!getcwd(cwd, sizeof cwd)) throw std::runtime_error("getcwd");
      if (o.contains("cwd") && chdir(o["cwd"].get<std::string>().c_str())) throw std::runtime_error("chdir");
      r["code"] = Code(api[d]->Create(cfg));
      if (chdir(cwd)) throw std::runtime_error("chdir back");
    } else if (f == "measure") {
      if (!api[d]) api[d].reset(new VisqolApi());
      auto a = signal(o["ref"]), b = signal(o["deg"]);
      std::vector<double> x = a.data_matrix.NumElements() ? a.data_matrix.ToVector() : std::vector<double>();
      std::vector<double> y = b.data_matrix.NumElements() ? b.data_matrix.ToVector() : std::vector<double>();
      const auto x0 = x, y0 = y;
      Put(r, api[d]->Measure(absl::Span<double>(x), absl::Span<double>(y)), full);
      r["kept"] = x == x0 && y == y0;
    } else {
      throw json::other_error::create(501, "op " + f, nullptr);
    }
    if (!t) out.push_back(r);
  }
    held[t] = Held();
  }
  json lens = json::object();
  for (auto& kv : sig) lens[kv.first] = {{"n", kv.second.size()}, {"rate", rate[kv.first]}};
  return json{{"out", out}, {"lens", lens}, {"held", HeldJson(held)}};
}

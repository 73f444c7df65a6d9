// Reference patch selection and voice activity (properties C12, C13).
#include "analysis_window.h"
#include "common.h"
#include "image_patch_creator.h"
#include "rms_vad.h"
#include "vad_patch_creator.h"
using namespace Visqol;

static json Ints(const AMatrix<double>& m) {
  json a = json::array();
  for (size_t i = 0; i < m.NumRows(); i++) {
    json row = json::array();
    for (size_t k = 0; k < m.NumCols(); k++) row.push_back((int)m(i, k));
    a.push_back(row);
  }
  return a;
}
static AMatrix<double> Spec(size_t n) {
  AMatrix<double> m(2, n);
  for (size_t k = 0; k < n; k++) m(0, k) = 1000001 + k, m(1, k) = 2000001 + k;
  return m;
}
static json Flags(const std::vector<double>& v) {
  json a = json::array();
  for (double d : v) a.push_back((int)d);
  return a;
}

json Run(const json& c) {
  json r;
  const std::string op = c["op"];
  if (op == "audio" || op == "speech") {
    size_t p = c["p"], n = c["n"];
    std::unique_ptr<ImagePatchCreator> pc;
    AudioSignal sig;
    size_t rate = 1000;
    if (op == "audio") {
      pc = std::make_unique<ImagePatchCreator>(p);
      sig = MkSig({1}, rate);
    } else {
      pc = std::make_unique<VadPatchCreator>(p);
      sig = MkSig(Dbls(c["x"]), rate);
    }
    double win = op == "speech" ? c["win"].get<double>() : 16;
    AnalysisWindow w(rate, .25, win / rate);
    AMatrix<double> spec = Spec(n);
    auto st = pc->CreateRefPatchIndices(spec, sig, w);
    r["code"] = Code(st.status());
    r["starts"] = json::array();
    r["patches"] = json::array();
    if (st.ok()) {
      r["starts"] = *st;
      for (auto& m : pc->CreatePatchesFromIndices(spec, *st)) r["patches"].push_back(Ints(m));
    }
  } else if (op == "vad") {
    RmsVad v;
    json rms = json::array();
    for (auto& ch : c["chunks"]) rms.push_back(Num(v.ProcessChunk(ch.get<std::vector<int16_t>>())));
    r["rms"] = rms;
    r["voiced"] = Flags(v.GetVadResults());
  } else {
    VadPatchCreator v(20);
    r["voiced"] = Flags(v.GetVoiceActivity(MkSig(Dbls(c["x"]), 1000), c["start"], c["total"], c["len"]));
  }
  return r;
}

// What single stages need while they run, at growing lengths (property C34).
#include <memory>
#include <sys/resource.h>
#include <time.h>

#include "alignment.h"
#include "analysis_window.h"
#include "audio_signal.h"
#include "commandline_parser.h"
#include "common.h"
#include "envelope.h"
#include "file_path.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "image_patch_creator.h"
#include "misc_audio.h"
#include "synth.h"
#include "tensorflow/lite/c/c_api_types.h"
#include "vad_patch_creator.h"
#include "visqol_manager.h"
#include "xcorr.h"
using namespace Visqol;

static double CpuMs() {
  timespec t;
  clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
  return t.tv_sec * 1e3 + t.tv_nsec / 1e6;
}

// {"stage", "law", "sizes": [[n, m], ...], "rate", "base", "repeat"}
json Run(const json& c) {
  const std::string f = c["stage"];
  const size_t rate = c["rate"];
  json needs = json::array();
  for (auto& nm : c["sizes"]) {
    const size_t n = nm[0], m = nm[1];
    json sr = {{"base", c["base"]}, {"seed", c.value("seed", 1)}, {"n", n}, {"rate", rate}};
    json sd = sr;
    sd["n"] = m;
    auto ref = MkSig(Synth(sr), rate), deg = MkSig(Synth(sd), rate);
    const std::string p = Scratch() + "/need.wav";
    if (f == "load") WriteWav(p, Synth(sr), rate);
    if (f == "batch") {
      std::ofstream b(Scratch() + "/need.csv");
      b << "reference,degraded\n";
      for (size_t i = 0; i < n; i++) b << "/some/where/ref" << i << ".wav,/some/where/deg" << i << ".wav\n";
    }
    std::unique_ptr<VisqolManager> mgr;
    if (f == "compare") {
      mgr.reset(new VisqolManager());
      const json& q = c["opt"];
      auto st = mgr->Init(FilePath(q["model"].get<std::string>()), q["speech"], q["unscaled"], q["radius"],
                          q["lattice"], q["noalign"], q["norealign"]);
      if (!st.ok()) return json{{"needs", needs}, {"code", Code(st)}};
    }
    double best = 1e300;
    long peak = 0;
    for (int i = 0; i < c.value("repeat", 2); i++) {
      if (verif_reset_peak) verif_reset_peak();
      const long p0 = Peak();
      const double t0 = CpuMs();
      if (f == "load") {
        MiscAudio::LoadAsMono(FilePath(p));
      } else if (f == "align") {
        Alignment::AlignAndTruncate(ref, deg);
      } else if (f == "global") {
        Alignment::GloballyAlign(ref, deg);
      } else if (f == "envelope") {
        Envelope::CalcUpperEnv(ref.data_matrix);
      } else if (f == "xcorr") {
        XCorr::FindLowestLagIndex(ref.data_matrix, deg.data_matrix);
      } else if (f == "spectrogram") {
        GammatoneSpectrogramBuilder b(GammatoneFilterBank{21, 50}, true);
        AnalysisWindow w(rate, 0.25);
        (void)b.Build(ref, w);
      } else if (f == "vad") {
        VadPatchCreator v(20);
        AnalysisWindow w(rate, 0.25);
        const size_t frames = 1 + (n - w.size) / (size_t)(w.size * 0.25);
        (void)v.CreateRefPatchIndices(AMatrix<double>(2, frames), ref, w);
      } else if (f == "batch") {
        CommandLineArgs a;
        a.batch_input_csv = FilePath(Scratch() + "/need.csv");
        VisqolCommandLineParser::BuildFilePairPaths(a);
      } else if (f == "compare") {
        (void)mgr->Run(ref, deg);
      } else {
        throw json::other_error::create(501, "stage " + f, nullptr);
      }
      best = std::min(best, CpuMs() - t0);
      peak = std::max(peak, Peak() - p0);
    }
    needs.push_back({{"n", n}, {"m", m}, {"peak", Num((double)peak)}, {"cpu", Num(best)}});
  }
  return json{{"needs", needs}};
}

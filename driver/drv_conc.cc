// Several threads, each with objects of its own, under a given schedule: a
// thread stops before each of its operations and inside the model loader until
// it is let go on.  Records who entered and left the loader, in order.
#include <time.h>

#include <chrono>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <thread>

#include "alignment.h"
#include "commandline_parser.h"
#include "common.h"
#include "fast_fourier_transform.h"
#include "fft_manager.h"
#include "gammatone_spectrogram_builder.h"
#include "misc_audio.h"
#include "result.h"
#include "support_vector_regression_model.h"
#include "svm.h"
#include "synth.h"
#include "tensorflow/lite/c/c_api_types.h"
#include "visqol_api.h"
#include "visqol_manager.h"

using namespace Visqol;
using Clock = std::chrono::steady_clock;

struct Ctl {
  std::mutex mu;
  std::condition_variable cv;
  std::vector<int> tokens;
  std::vector<bool> gate, done;
  bool free = false;
  int jitter = 0;
  json log = json::array();
  std::vector<int> inside;
};
static Ctl* ctl = nullptr;
static thread_local int me = -1;
static int races = 0;

extern "C" void __tsan_on_report(void*) { __atomic_add_fetch(&races, 1, __ATOMIC_SEQ_CST); }

#ifdef __SANITIZE_THREAD__
// absl's locks are not instrumented: say what they order.
extern "C" {
void __tsan_acquire(void*);
void __tsan_release(void*);
#define M(n) _ZN4absl7debian35Mutex##n
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(__real_, M(4LockEv))(void*);
void CAT(__real_, M(6UnlockEv))(void*);
bool CAT(__real_, M(7TryLockEv))(void*);
void CAT(__real_, M(10ReaderLockEv))(void*);
void CAT(__real_, M(12ReaderUnlockEv))(void*);
void CAT(__wrap_, M(4LockEv))(void* m) { CAT(__real_, M(4LockEv))(m), __tsan_acquire(m); }
void CAT(__wrap_, M(6UnlockEv))(void* m) { __tsan_release(m), CAT(__real_, M(6UnlockEv))(m); }
bool CAT(__wrap_, M(7TryLockEv))(void* m) {
  const bool b = CAT(__real_, M(7TryLockEv))(m);
  if (b) __tsan_acquire(m);
  return b;
}
void CAT(__wrap_, M(10ReaderLockEv))(void* m) { CAT(__real_, M(10ReaderLockEv))(m), __tsan_acquire(m); }
void CAT(__wrap_, M(12ReaderUnlockEv))(void* m) { __tsan_release(m), CAT(__real_, M(12ReaderUnlockEv))(m); }
}
#endif

// What this driver does to keep threads in step must not look to
// ThreadSanitizer as if it ordered what the threads do themselves.
#ifdef __SANITIZE_THREAD__
extern "C" {
void AnnotateIgnoreSyncBegin(const char*, int);
void AnnotateIgnoreSyncEnd(const char*, int);
void AnnotateIgnoreReadsBegin(const char*, int);
void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
}
struct Unseen {
  Unseen() {
    AnnotateIgnoreSyncBegin(__FILE__, __LINE__);
    AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
    AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
  }
  ~Unseen() {
    AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
    AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
    AnnotateIgnoreSyncEnd(__FILE__, __LINE__);
  }
};
#else
struct Unseen {
  Unseen() {}
};
#endif

static void Gate() {
  Unseen u;
  std::unique_lock<std::mutex> l(ctl->mu);
  ctl->gate[me] = true;
  ctl->cv.notify_all();
  ctl->cv.wait(l, [] { return ctl->free || ctl->tokens[me] > 0; });
  if (ctl->tokens[me] > 0) ctl->tokens[me]--;
  ctl->gate[me] = false;
}

extern "C" svm_model* __real_svm_load_model(const char*);
extern "C" svm_model* __wrap_svm_load_model(const char* p) {
  if (!ctl || me < 0) return __real_svm_load_model(p);
  int jitter;
  {
    Unseen u;
    std::lock_guard<std::mutex> l(ctl->mu);
    ctl->log.push_back({{"e", "enter"}, {"t", me}});
    ctl->inside.push_back(me);
    jitter = ctl->free ? ctl->jitter : 0;
  }
  if (jitter) std::this_thread::sleep_for(std::chrono::milliseconds(jitter));
  Gate();
  // the library itself is not for concurrent use; what matters was recorded above
  static std::mutex real;
  svm_model* m;
  {
    std::lock_guard<std::mutex> l(real);
    m = __real_svm_load_model(p);
  }
  Unseen u;
  std::lock_guard<std::mutex> l(ctl->mu);
  ctl->log.push_back({{"e", "leave"}, {"t", me}});
  ctl->inside.erase(std::find(ctl->inside.begin(), ctl->inside.end(), me));
  return m;
}

// Waiting is over after a long time, or when no thread has done anything for a while.
struct Patience {
  Clock::time_point start = Clock::now(), since = start;
  double used = Cpu();
  static double Cpu() {
    timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
  }
  bool Over() {
    const auto now = Clock::now();
    if (now - start > std::chrono::seconds(60)) return true;
    if (Cpu() - used > 0.02) used = Cpu(), since = now;
    return now - since > std::chrono::seconds(6);
  }
};

static std::string DigestOf(const double* p, size_t n) {
  uint64_t h = 14695981039346656037ull;
  const unsigned char* c = reinterpret_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n * sizeof(double); i++) h = (h ^ c[i]) * 1099511628211ull;
  return std::to_string(n) + ":" + std::to_string(h);
}
static std::string DigestOf(const AMatrix<double>& m) { return DigestOf(m.data(), m.NumElements()); }

// Files are written before the threads start; all of them may read the same one.
static std::string Dir() { return Scratch() + "/c" + std::to_string(getpid()); }
static void Files(const json& c, const json& programs) {
  std::filesystem::create_directories(Dir());
  for (auto& prog : programs)
    for (auto& o : prog) {
      const std::string f = o["f"];
      if (f == "wav") {
        const json& g = c["sigs"][o["ref"].get<std::string>()];
        WriteWav(Dir() + "/" + o["ref"].get<std::string>() + ".wav", Synth(g), g["rate"].get<uint32_t>());
      } else if (f == "pairs") {
        std::ofstream(Dir() + "/" + o["name"].get<std::string>()) << o["text"].get<std::string>();
      }
    }
}

static json Program(const json& prog, const json& sigs) {
  std::map<int, std::unique_ptr<SupportVectorRegressionModel>> svr;
  std::map<int, std::unique_ptr<VisqolManager>> mgr;
  std::map<int, std::unique_ptr<VisqolApi>> api;
  json out = json::array();
  for (auto& o : prog) {
    if (me >= 0) Gate();
    const std::string f = o["f"];
    const int d = o["o"];
    json r = json::object();
    if (f == "load") {
      svr[d].reset(new SupportVectorRegressionModel());
      r["code"] = Code(svr[d]->Init(FilePath(o["path"].get<std::string>())));
    } else if (f == "predict") {
      r["y"] = svr[d] ? Num(svr[d]->Predict(Dbls(o["x"]))) : "none";
    } else if (f == "free") {
      svr.erase(d);
      mgr.erase(d);
      api.erase(d);
    } else if (f == "init") {
      mgr[d].reset(new VisqolManager());
      const json& q = o["opt"];
      r["code"] = Code(mgr[d]->Init(FilePath(q["model"].get<std::string>()), q["speech"], q["unscaled"], q["radius"],
                                    q["lattice"], q["noalign"], q["norealign"]));
    } else if (f == "create") {
      api[d].reset(new VisqolApi());
      const json& q = o["opt"];
      VisqolConfig cfg;
      cfg.mutable_audio()->set_sample_rate(sigs[o["ref"].get<std::string>()]["rate"]);
      auto* p = cfg.mutable_options();
      p->set_svr_model_path(q["model"].get<std::string>());
      p->set_use_speech_scoring(q["speech"]);
      p->set_allow_unsupported_sample_rates(true);
      p->set_use_unscaled_speech_mos_mapping(q["unscaled"]);
      p->set_search_window_radius(q["radius"]);
      p->set_use_lattice_model(q["lattice"]);
      r["code"] = Code(api[d]->Create(cfg));
    } else if (f == "run") {
      const json &a = sigs[o["ref"].get<std::string>()], &b = sigs[o["deg"].get<std::string>()];
      absl::StatusOr<SimilarityResultMsg> s = absl::AbortedError("");
      auto x = Synth(a), y = Synth(b);
      if (mgr.count(d)) {
        AudioSignal ref = MkSig(x, a["rate"]), deg = MkSig(y, b["rate"]);
        s = mgr[d]->Run(ref, deg);
      } else if (api.count(d)) {
        s = api[d]->Measure(absl::Span<double>(x), absl::Span<double>(y));
      }
      r["code"] = Code(s.status());
      if (s.ok()) r["hash"] = Digest(*s);
    } else if (f == "align") {
      const json &a = sigs[o["ref"].get<std::string>()], &b = sigs[o["deg"].get<std::string>()];
      const AudioSignal ref = MkSig(Synth(a), a["rate"]), deg = MkSig(Synth(b), b["rate"]);
      const auto g = Alignment::GloballyAlign(ref, deg);
      const auto t = Alignment::AlignAndTruncate(ref, deg);
      r["lag"] = Num(std::get<1>(g));
      r["hash"] = json::array({DigestOf(std::get<0>(g).data_matrix), DigestOf(std::get<0>(t).data_matrix),
                               DigestOf(std::get<1>(t).data_matrix)});
    } else if (f == "spectrogram") {
      const json& a = sigs[o["ref"].get<std::string>()];
      const AudioSignal ref = MkSig(Synth(a), a["rate"]);
      GammatoneSpectrogramBuilder b(GammatoneFilterBank{o["bands"].get<size_t>(), 50}, o["speech"]);
      auto s = b.Build(ref, AnalysisWindow{ref.sample_rate, 0.25});
      r["code"] = Code(s.status());
      if (s.ok()) r["hash"] = DigestOf(s->Data());
    } else if (f == "fft") {
      auto m = std::make_unique<FftManager>(o["n"].get<size_t>());
      r["size"] = m->GetFftSize();
      if (o["go"]) {
        const auto x = FastFourierTransform::Forward1d(m, MkCol(Synth(o["x"])));
        r["hash"] = DigestOf(reinterpret_cast<const double*>(x.data()), 2 * x.NumElements());
      }
    } else if (f == "wav") {
      const AudioSignal s = MiscAudio::LoadAsMono(FilePath(Dir() + "/" + o["ref"].get<std::string>() + ".wav"));
      r["rate"] = s.sample_rate;
      r["hash"] = DigestOf(s.data_matrix);
    } else if (f == "pairs") {
      json p = json::array();
      CommandLineArgs a{};
      a.batch_input_csv = FilePath(Dir() + "/" + o["name"].get<std::string>());
      for (auto& q : VisqolCommandLineParser::BuildFilePairPaths(a))
        p.push_back(json::array({q.reference.Path(), q.degraded.Path()}));
      r["pairs"] = p;
    } else {
      throw json::other_error::create(501, "op " + f, nullptr);
    }
    out.push_back(r);
  }
  return out;
}

json Run(const json& c) {
  if (c.contains("alone")) {
    Files(c, json::array({c["alone"]}));
    json r = {{"out", Program(c["alone"], c["sigs"])}};
    std::filesystem::remove_all(Dir());
    return r;
  }
  Files(c, c["threads"]);
  const size_t n = c["threads"].size();
  ctl = new Ctl();
  ctl->tokens.assign(n, 0);
  ctl->gate.assign(n, false);
  ctl->done.assign(n, false);
  ctl->jitter = c.value("jitter", 0);
  std::vector<json> out(n);
  std::vector<std::thread> th;
  for (size_t t = 0; t < n; t++)
    th.emplace_back([&, t] {
      me = (int)t;
      json r = Program(c["threads"][t], c["sigs"]);
      Unseen u;
      std::lock_guard<std::mutex> l(ctl->mu);
      out[t] = r;
      ctl->done[t] = true;
      ctl->cv.notify_all();
    });
  bool stuck = false;
  {
    std::unique_lock<std::mutex> l(ctl->mu);
    {
      Patience p;
      while (!ctl->cv.wait_for(l, std::chrono::milliseconds(200), [&] {
        for (size_t t = 0; t < n; t++)
          if (!ctl->gate[t] && !ctl->done[t]) return false;
        return true;
      }))
        if (p.Over()) break;
    }
    for (auto& s : c["schedule"]) {
      const int t = s;
      if (stuck) break;
      if (ctl->done[t] || !ctl->gate[t]) continue;  // finished, or waiting for the loader
      ctl->tokens[t]++;
      ctl->cv.notify_all();
      // it runs to its next stop, unless it has to wait for a thread inside the loader
      auto arrived = [&] { return ctl->tokens[t] == 0 && (ctl->gate[t] || ctl->done[t]); };
      Patience p;
      while (!arrived() && !p.Over()) {
        bool others = false;
        for (int x : ctl->inside) others |= x != t;
        if (ctl->cv.wait_for(l, std::chrono::milliseconds(others ? 8 : 200), arrived)) break;
        if (others) break;
      }
      if (!arrived() && p.Over()) stuck = true;
    }
    ctl->free = true;
    ctl->cv.notify_all();
    Patience p;
    while (!stuck && !ctl->cv.wait_for(l, std::chrono::milliseconds(200), [&] {
      for (size_t t = 0; t < n; t++)
        if (!ctl->done[t]) return false;
      return true;
    }))
      stuck = p.Over();
  }
  json r = {{"stuck", stuck}};
  if (!stuck) {
    for (auto& t : th) t.join();
    std::filesystem::remove_all(Dir());
  }
  if (stuck) {  // the case is run in a process of its own, which ends here
    for (auto& t : th) t.detach();
    std::lock_guard<std::mutex> l(ctl->mu);
    r["log"] = ctl->log;
    r["out"] = json::array();
    r["races"] = 0;
    return r;
  }
  r["log"] = ctl->log;
  r["out"] = out;
  r["races"] = races;
  return r;
}

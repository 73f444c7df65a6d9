#ifndef VERIF_SHIM_TFL_INTERP_H
#define VERIF_SHIM_TFL_INTERP_H
#include <cmath>
#include "tensorflow/lite/model_builder.h"
namespace tflite {
class SignatureRunner {
 public:
  SignatureRunner() {
    static const char* base[] = {"fvnsim", "fvnsim10_", "fstdnsim",
                                 "fvdegenergy"};
    for (auto b : base)
      for (int i = 0; i < 21; i++) Add(std::string(b) + std::to_string(i));
    Add("tau");
    out_.data.f = &out_val_;
    spare_.data.f = &spare_val_;
  }
  TfLiteTensor* input_tensor(const char* name) {
    auto it = in_.find(name);
    if (it == in_.end()) {
      verif_tflite::TheLog().unknown_names++;
      return &spare_;
    }
    return &it->second->t;
  }
  TfLiteStatus AllocateTensors() { return kTfLiteOk; }
  size_t input_size() const { return in_.size(); }
  size_t output_size() const { return 1; }
  std::vector<const char*> input_names() const {
    std::vector<const char*> v;
    for (auto& kv : in_) v.push_back(kv.first.c_str());
    return v;
  }
  std::vector<const char*> output_names() const { return {"predictions"}; }
  TfLiteStatus Invoke() {
    std::map<std::string, float> m;
    for (auto& kv : in_) m[kv.first] = kv.second->v;
    out_val_ = verif_tflite::Predict(m);
    auto& l = verif_tflite::TheLog();
    std::lock_guard<std::mutex> g(l.mu);
    l.last_inputs = m;
    l.last_output = out_val_;
    l.invokes++;
    return kTfLiteOk;
  }
  const TfLiteTensor* output_tensor(const char* name) const {
    if (std::string(name) != "predictions") {
      verif_tflite::TheLog().unknown_names++;
      return &spare_;
    }
    return &out_;
  }

 private:
  struct Slot {
    float v = 0;
    TfLiteTensor t;
  };
  void Add(const std::string& n) {
    auto s = std::make_unique<Slot>();
    s->t.data.f = &s->v;
    in_[n] = std::move(s);
  }
  std::map<std::string, std::unique_ptr<Slot>> in_;
  TfLiteTensor out_, spare_;
  float out_val_ = 0, spare_val_ = 0;
};
class Interpreter {
 public:
  TfLiteStatus AllocateTensors() { return kTfLiteOk; }
  TfLiteStatus ModifyGraphWithDelegate(TfLiteDelegate*) { return kTfLiteOk; }
  SignatureRunner* GetSignatureRunner(const char* name) {
    return std::string(name) == "predict" ? &runner_ : nullptr;
  }

 private:
  SignatureRunner runner_;
};
}  // namespace tflite
#endif

/* Stand-in for TensorFlow Lite (absent in this sandbox): a recording model. */
#ifndef VERIF_SHIM_TFLITE_TYPES_H
#define VERIF_SHIM_TFLITE_TYPES_H
#include <cmath>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

enum TfLiteStatus { kTfLiteOk = 0, kTfLiteError = 1, kTfLiteDelegateError = 2 };
enum TfLiteType { kTfLiteNoType = 0, kTfLiteFloat32 = 1 };
struct TfLiteTensor {
  TfLiteType type = kTfLiteFloat32;
  size_t bytes = sizeof(float);
  union {
    float* f;
    void* raw;
  } data;
};
struct TfLiteDelegate {
  int64_t flags = 0;
};
enum { kTfLiteDelegateFlagsAllowDynamicTensors = 1 };

namespace verif_tflite {
// What the last Invoke() of any interpreter saw, for the conformance driver.
struct Log {
  std::mutex mu;
  std::map<std::string, float> last_inputs;
  float last_output = 0;
  int invokes = 0;
  int unknown_names = 0;
  int writes_between = 0;
  std::string last_signature;
};
inline Log& TheLog() {
  static Log l;
  return l;
}
inline uint32_t Hash(const std::string& s) {
  uint32_t h = 2166136261u;
  for (unsigned char c : s) h = (h ^ c) * 16777619u;
  return h;
}
// The recording model's prediction: a fixed, name-dependent function of its
// inputs, squashed to (1, 5).
inline float Predict(const std::map<std::string, float>& in) {
  double acc = 0;
  for (auto& kv : in) acc += (1 + Hash(kv.first) % 97) / 97.0 * kv.second;
  double v = acc - std::floor(acc / 4.0) * 4.0;
  return (float)(1.0 + v);
}
}  // namespace verif_tflite
#endif

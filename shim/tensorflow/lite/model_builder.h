#ifndef VERIF_SHIM_TFL_MODEL_H
#define VERIF_SHIM_TFL_MODEL_H
#include "tensorflow/lite/c/c_api_types.h"
namespace tflite {
class FlatBufferModel {
 public:
  // A TFLite flatbuffer carries the identifier "TFL3" at byte 4.
  static std::unique_ptr<FlatBufferModel> BuildFromFile(const char* path) {
    std::ifstream f(path, std::ios::binary);
    char b[8] = {0};
    if (!f.read(b, 8) || std::memcmp(b + 4, "TFL3", 4) != 0) return nullptr;
    return std::unique_ptr<FlatBufferModel>(new FlatBufferModel);
  }
};
}  // namespace tflite
#endif

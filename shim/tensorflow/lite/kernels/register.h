#ifndef VERIF_SHIM_TFL_REG_H
#define VERIF_SHIM_TFL_REG_H
#include "tensorflow/lite/interpreter.h"
namespace tflite {
namespace ops {
namespace builtin {
class BuiltinOpResolver {};
}  // namespace builtin
}  // namespace ops
class InterpreterBuilder {
 public:
  InterpreterBuilder(const FlatBufferModel&,
                     const ops::builtin::BuiltinOpResolver&) {}
  TfLiteStatus SetNumThreads(int) { return kTfLiteOk; }
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* i) {
    i->reset(new Interpreter);
    return kTfLiteOk;
  }
};
}  // namespace tflite
#endif

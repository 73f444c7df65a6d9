#ifndef VERIF_SHIM_XNN_H
#define VERIF_SHIM_XNN_H
#include "tensorflow/lite/c/c_api_types.h"
#define TFLITE_XNNPACK_DELEGATE_FLAG_QU8 2
struct TfLiteXNNPackDelegateOptions {
  int32_t num_threads;
  uint32_t flags;
};
inline TfLiteDelegate* TfLiteXNNPackDelegateCreate(
    const TfLiteXNNPackDelegateOptions*) {
  return new TfLiteDelegate;
}
inline void TfLiteXNNPackDelegateDelete(TfLiteDelegate* d) { delete d; }
#endif

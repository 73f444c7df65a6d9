// A similarity result as JSON, and as a digest of every field.
#ifndef VERIF_RESULT_H
#define VERIF_RESULT_H
#include "common.h"
#include "src/proto/similarity_result.pb.h"
using Visqol::SimilarityResultMsg;

inline json Reps(const google::protobuf::RepeatedField<double>& v) {
  json a = json::array();
  for (double d : v) a.push_back(Num(d));
  return a;
}
inline std::string Digest(SimilarityResultMsg m) {
  m.clear_reference_filepath();
  m.clear_degraded_filepath();
  const std::string s = m.SerializeAsString();
  uint64_t h = 14695981039346656037ull, g = 7;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull, g = g * 31 + c;
  char b[60];
  std::snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)h, (unsigned long long)g);
  return b;
}
inline json Full(const SimilarityResultMsg& m) {
  json p = json::array();
  for (auto& q : m.patch_sims())
    p.push_back({{"sim", Num(q.similarity())},
                 {"means", Reps(q.freq_band_means())},
                 {"rs", Num(q.ref_patch_start_time())},
                 {"re", Num(q.ref_patch_end_time())},
                 {"ds", Num(q.deg_patch_start_time())},
                 {"de", Num(q.deg_patch_end_time())}});
  return {{"mos", Num(m.moslqo())},      {"vnsim", Num(m.vnsim())},
          {"fvnsim", Reps(m.fvnsim())},  {"fvnsim10", Reps(m.fvnsim10())},
          {"fstd", Reps(m.fstdnsim())},  {"fen", Reps(m.fvdegenergy())},
          {"bands", Reps(m.center_freq_bands())}, {"lag", Num(m.alignment_lag_s())},
          {"patches", p}};
}
#endif

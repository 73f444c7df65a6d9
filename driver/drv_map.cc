// Histories of operations on quality mappers and support-vector models.
#include <memory>

#include "common.h"
#include "file_path.h"
#include "libsvm_target_observation_convertor.h"
#include "machine_learning.h"
#include "support_vector_regression_model.h"
#include "svm.h"
#include "svr_similarity_to_quality_mapper.h"
#include "tensorflow/lite/c/c_api_types.h"
#include "tflite_quality_mapper.h"
#include "training_data_file_reader.h"

using namespace Visqol;

static std::vector<std::vector<double>> Rows(const json& j) {
  std::vector<std::vector<double>> v;
  for (auto& x : j) v.push_back(Dbls(x));
  return v;
}

// Trains with libsvm directly, with the parameters the case gives.
static json Reference(const json& o) {
  auto obs = Rows(o["obs"]);
  auto y = Dbls(o["targets"]);
  const json& q = o["param"];
  std::vector<std::vector<svm_node>> nodes;
  std::vector<svm_node*> ptr;
  for (auto& r : obs) {
    std::vector<svm_node> n;
    for (size_t i = 0; i < r.size(); i++) n.push_back({(int)i + 1, r[i]});
    n.push_back({-1, 0});
    nodes.push_back(n);
  }
  for (auto& n : nodes) ptr.push_back(n.data());
  svm_problem pr;
  pr.l = (int)y.size();
  pr.y = y.data();
  pr.x = ptr.data();
  svm_parameter p = {};
  p.svm_type = NU_SVR;
  p.kernel_type = RBF;
  p.C = Dbl(q["C"]);
  p.nu = Dbl(q["nu"]);
  p.gamma = Dbl(q["gamma"]);
  p.eps = Dbl(q["eps"]);
  p.degree = 3;
  p.cache_size = 100;
  p.p = 0.1;
  p.shrinking = 1;
  svm_model* m = svm_train(&pr, &p);
  const int n = svm_get_nr_sv(m);
  std::vector<int> idx(n);
  svm_get_sv_indices(m, idx.data());
  json sv = json::array();
  std::vector<double> coef;
  for (int i = 0; i < n; i++) {
    coef.push_back(m->sv_coef[0][i]);
    sv.push_back(Nums(obs[idx[i] - 1]));
  }
  json r = {{"coef", Nums(coef)}, {"sv", sv}, {"rho", Num(m->rho[0])}, {"gamma", q["gamma"]}};
  svm_free_and_destroy_model(&m);
  return r;
}

static std::string PathOf(const json& o) {
  std::string p = o["path"];
  if (o.contains("text")) {
    p = Scratch() + "/" + p;
    std::ofstream f(p, std::ios::binary);
    f << o["text"].get<std::string>();
  }
  return p;
}

json Run(const json& c) {
  std::map<int, std::unique_ptr<SupportVectorRegressionModel>> svr;
  std::map<int, std::unique_ptr<SvrSimilarityToQualityMapper>> maps;
  std::map<int, std::unique_ptr<TFLiteQualityMapper>> lat;
  json out = json::array();
  // with "times", the operations after the first "prefix" are repeated, and
  // what is held after each time is recorded
  const size_t prefix = c.value("prefix", size_t{0}), times = c.value("times", size_t{1});
  std::vector<HeldNow> held(times);
  for (size_t t = 0; t < times; t++) {
  for (size_t oi = t ? prefix : 0; oi < c["ops"].size(); oi++) {
    const json& o = c["ops"][oi];
    const std::string f = o["f"];
    const int d = o["o"];
    json r = {{"f", f}};
    if (f == "new") {
      svr[d].reset(new SupportVectorRegressionModel());
    } else if (f == "free") {
      svr[d].reset();
    } else if (f == "load") {
      // `again`: into an object that already holds a model
      if (!o.value("again", false) || !svr[d]) svr[d].reset(new SupportVectorRegressionModel());
      r["code"] = Code(svr[d]->Init(FilePath(PathOf(o))));
    } else if (f == "train") {
      if (!o.value("again", false) || !svr[d]) svr[d].reset(new SupportVectorRegressionModel());
      svr[d]->Init(Rows(o["obs"]), Dbls(o["targets"]));
      r["model"] = Reference(o);
    } else if (f == "predict") {
      r["y"] = Num(svr[d]->Predict(Dbls(o["x"])));
    } else if (f == "mapper") {
      maps[d].reset(new SvrSimilarityToQualityMapper(FilePath(PathOf(o))));
      r["code"] = Code(maps[d]->Init());
    } else if (f == "quality") {
      r["y"] = Num(maps[d]->PredictQuality(Dbls(o["x"]), Dbls(o["x10"]), Dbls(o["xs"]), Dbls(o["xe"])));
    } else if (f == "lattice") {
      lat[d].reset(new TFLiteQualityMapper(PathOf(o), o["bands"].get<int>()));
      r["code"] = Code(lat[d]->Init());
    } else if (f == "lquality") {
      auto& l = verif_tflite::TheLog();
      l.last_inputs.clear();
      const int n0 = l.invokes, u0 = l.unknown_names;
      r["y"] = Num(lat[d]->PredictQuality(Dbls(o["x"]), Dbls(o["x10"]), Dbls(o["xs"]), Dbls(o["xe"])));
      json in = json::object();
      for (auto& kv : l.last_inputs) in[kv.first] = Num(kv.second);
      r["inputs"] = in;
      r["answer"] = Num(l.last_output);
      r["invokes"] = l.invokes - n0;
      r["unknown"] = l.unknown_names - u0;
    } else if (f == "read") {
      json rows = json::array();
      for (auto& v : TrainingDataFileReader::Read(FilePath(PathOf(o)), o["delim"].get<std::string>()[0]))
        rows.push_back(Nums(v));
      r["rows"] = rows;
    } else {
      throw json::other_error::create(501, "op " + f, nullptr);
    }
    if (!t) out.push_back(r);
  }
    held[t] = Held();
  }
  return json{{"out", out}, {"held", HeldJson(held)}};
}

// The command line: option parsing, batch files, result files, the program.
#include <map>
#include <set>

#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "commandline_parser.h"
#include "google/protobuf/util/json_util.h"
#include "misc_audio.h"
#include "result.h"
#include "sim_results_writer.h"
#include "synth.h"

using namespace Visqol;
namespace fs = std::filesystem;

static std::string Slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static void Spit(const std::string& p, const std::string& t) {
  fs::create_directories(fs::path(p).parent_path());
  std::ofstream(p, std::ios::binary | std::ios::trunc) << t;
}
static json Split(const std::string& s, char d) {
  json a = json::array();
  size_t i = 0;
  for (size_t k; (k = s.find(d, i)) != std::string::npos; i = k + 1) a.push_back(s.substr(i, k - i));
  a.push_back(s.substr(i));
  return a;
}
// Lines of fields; "whole" if the last line is ended.
static json Csv(const std::string& t) {
  json rows = json::array();
  size_t i = 0;
  for (size_t k; (k = t.find('\n', i)) != std::string::npos; i = k + 1) {
    std::string line = t.substr(i, k - i);
    if (!line.empty() && line.back() == '\r') line.pop_back();
    rows.push_back(Split(line, ','));
  }
  return {{"rows", rows}, {"whole", i == t.size()}};
}
// Concatenated JSON objects, each read back as a result message.
static json Objects(const std::string& t) {
  json objs = json::array();
  size_t i = 0;
  bool whole = true;
  while (true) {
    while (i < t.size() && std::isspace((unsigned char)t[i])) i++;
    if (i == t.size()) break;
    size_t k = i;
    int depth = 0;
    bool str = false;
    for (; k < t.size(); k++) {
      const char ch = t[k];
      if (str) {
        if (ch == '\\') k++;
        else if (ch == '"') str = false;
      } else if (ch == '"') {
        str = true;
      } else if (ch == '{' || ch == '[') {
        depth++;
      } else if (ch == '}' || ch == ']') {
        if (--depth == 0) break;
      } else if (!depth) {
        break;
      }
    }
    SimilarityResultMsg m;
    if (k >= t.size() || !google::protobuf::util::JsonStringToMessage(t.substr(i, k + 1 - i), &m).ok()) {
      whole = false;
      break;
    }
    json o = Full(m);
    o["ref"] = m.reference_filepath();
    o["deg"] = m.degraded_filepath();
    o["hash"] = Digest(m);
    objs.push_back(o);
    i = k + 1;
  }
  return {{"objs", objs}, {"whole", whole}};
}
// What the console shows: score lines, labelled paths, table rows.
static json Console(const std::string& t) {
  json scores = json::array(), bands = json::array(), patches = json::array(), paths = json::array(), modes = json::array();
  for (auto& l : Split(t, '\n')) {
    std::string s = l;
    const bool bar = !s.empty() && s[0] == '|';
    if (s.rfind("MOS-LQO:", 0) == 0) {
      std::istringstream in(s.substr(8));
      std::string v, more;
      in >> v >> more;
      scores.push_back(more.empty() ? v : s);
    } else if (s.rfind("Speech mode, ", 0) == 0 || s.rfind("Audio mode, ", 0) == 0) {
      modes.push_back(s);
    } else if (s.rfind("Reference Filepath:\t", 0) == 0 || s.rfind("Degraded Filepath:\t", 0) == 0) {
      paths.push_back(s.substr(s.find('\t') + 1));
    } else if (bar) {
      for (auto& ch : s)
        if (ch == '|') ch = ' ';
      std::istringstream in(s);
      std::vector<std::string> w;
      std::string x;
      while (in >> x) {
        if (x.size() > 2 && x.compare(x.size() - 2, 2, "Hz") == 0) x.resize(x.size() - 2);
        if (x != "-") w.push_back(x);
      }
      if (w.empty() || std::string("0123456789-in").find(w[0][0]) == std::string::npos) continue;  // titles
      if (w.size() == 3) bands.push_back(w);
      else patches.push_back(w);
    }
  }
  return {{"scores", scores}, {"modes", modes}, {"paths", paths}, {"bands", bands}, {"patches", patches}};
}

static SimilarityResultMsg Msg(const json& m) {
  SimilarityResultMsg r;
  r.set_reference_filepath(m["ref"].get<std::string>());
  r.set_degraded_filepath(m["deg"].get<std::string>());
  r.set_moslqo(Dbl(m["mos"]));
  r.set_vnsim(Dbl(m["vnsim"]));
  r.set_alignment_lag_s(Dbl(m["lag"]));
  for (double d : Dbls(m["fvnsim"])) r.add_fvnsim(d);
  for (double d : Dbls(m["fvnsim10"])) r.add_fvnsim10(d);
  for (double d : Dbls(m["fstd"])) r.add_fstdnsim(d);
  for (double d : Dbls(m["fen"])) r.add_fvdegenergy(d);
  for (double d : Dbls(m["bands"])) r.add_center_freq_bands(d);
  for (auto& q : m["patches"]) {
    auto* p = r.add_patch_sims();
    p->set_similarity(Dbl(q["sim"]));
    p->set_ref_patch_start_time(Dbl(q["rs"]));
    p->set_ref_patch_end_time(Dbl(q["re"]));
    p->set_deg_patch_start_time(Dbl(q["ds"]));
    p->set_deg_patch_end_time(Dbl(q["de"]));
    for (double d : Dbls(q["means"])) p->add_freq_band_means(d);
  }
  return r;
}

static json Histories(const json& c, const std::string& dir) {
  const std::string outp = dir + "/stdout";
  auto at = [&](const std::string& n) { return n.empty() ? n : dir + "/" + n; };
  json out = json::array();
  for (auto& o : c["steps"]) {
    const std::string f = o["f"];
    std::map<std::string, std::string> was;
    std::map<std::string, bool> had;
    for (auto& n : c["files"]) had[n] = fs::exists(at(n)), was[n] = Slurp(at(n));
    json r = {{"f", f}};
    if (f == "put") {
      Spit(at(o["file"]), o["text"]);
    } else if (f == "del") {
      fs::remove(at(o["file"]));
    } else {
      const SimilarityResultMsg m = Msg(o["msg"]);
      std::cout.flush();
      fflush(stdout);
      const int save = dup(1), fd = open(outp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(fd, 1);
      SimilarityResultsWriter::Write(o["verbose"], FilePath(at(o["csv"])), FilePath(at(o["json"])), m,
                                     o["speech"], o["lattice"]);
      std::cout.flush();
      fflush(stdout);
      dup2(save, 1);
      close(fd);
      close(save);
      r["console"] = Console(Slurp(outp));
    }
    json files = json::object();
    for (auto& n : c["files"]) {
      const std::string now = Slurp(at(n)), k = n;
      json x = {{"exists", fs::exists(at(n))}};
      x["kept"] = now.compare(0, was[k].size(), was[k]) == 0;
      const std::string more = now.size() >= was[k].size() ? now.substr(was[k].size()) : "";
      x["grew"] = !more.empty();
      if (f == "write") {
        if (o["csv"] == n) x["csv"] = Csv(more);
        if (o["json"] == n) x["json"] = Objects(more);
      }
      files[k] = x;
    }
    r["files"] = files;
    json others = json::array();  // files nobody asked for
    for (auto& e : fs::directory_iterator(dir)) {
      const std::string n = e.path().filename();
      if (n != "stdout" && std::find(c["files"].begin(), c["files"].end(), n) == c["files"].end()) others.push_back(n);
    }
    r["others"] = others;
    out.push_back(r);
  }
  return json{{"out", out}};
}

static json Pairs(const std::vector<ReferenceDegradedPathPair>& v) {
  json a = json::array();
  for (auto& p : v) a.push_back(json::array({p.reference.Path(), p.degraded.Path()}));
  return a;
}
static std::string Subst(std::string s, const std::string& dir) {  // "@" stands for the case's directory
  for (size_t i = 0; (i = s.find('@', i)) != std::string::npos; i += dir.size()) s.replace(i, 1, dir);
  return s;
}
static std::string Unsubst(std::string s, const std::string& dir) {
  for (size_t i = 0; (i = s.find(dir, i)) != std::string::npos; i++) s.replace(i, dir.size(), "@");
  return s;
}

static json Parsed(const json& c, const std::string& dir) {
  for (auto& m : c["make"]) Spit(dir + "/" + m.get<std::string>(), c.value("texts", json::object()).value(m.get<std::string>(), "x"));
  fs::create_directories(dir + "/cwd");
  fs::create_symlink("loop", dir + "/loop");
  if (chdir((dir + "/cwd").c_str())) throw std::runtime_error("chdir");
  if (c.value("nocwd", false)) fs::remove(dir + "/cwd");  // the working directory goes away
  std::vector<std::string> a = {"visqol"};
  for (auto& x : c["args"]) a.push_back(Subst(x, dir));
  std::vector<char*> argv;
  for (auto& x : a) argv.push_back(x.data());
  argv.push_back(nullptr);
  auto s = VisqolCommandLineParser::Parse(a.size(), argv.data());
  json r = {{"code", Code(s.status())}};
  if (s.ok()) {
    r["got"] = {{"ref", Unsubst(s->reference_signal_path.Path(), dir)},
                {"deg", Unsubst(s->degraded_signal_path.Path(), dir)},
                {"model", Unsubst(s->similarity_to_quality_mapper_model.Path(), dir)},
                {"csv", Unsubst(s->results_output_csv.Path(), dir)},
                {"batch", Unsubst(s->batch_input_csv.Path(), dir)},
                {"debug", Unsubst(s->debug_output_path.Path(), dir)},
                {"verbose", s->verbose},
                {"speech", s->use_speech_mode},
                {"unscaled", s->use_unscaled_speech_mos_mapping},
                {"radius", s->search_window_radius},
                {"lattice", s->use_lattice_model},
                {"noalign", s->disable_global_alignment},
                {"norealign", s->disable_realignment}};
    json p = json::array();
    for (auto& q : Pairs(VisqolCommandLineParser::BuildFilePairPaths(*s)))
      p.push_back(json::array({Unsubst(q[0], dir), Unsubst(q[1], dir)}));
    r["pairs"] = p;
  }
  if (chdir("/")) throw std::runtime_error("chdir");
  return r;
}

// Runs the real program.
static json Program(const json& c, const std::string& dir) {
  for (auto& kv : c["sigs"].items())
    WriteWav(dir + "/" + kv.key() + ".wav", Synth(kv.value()), kv.value()["rate"].get<uint32_t>());
  const json texts = c.value("texts", json::object());
  for (auto& kv : texts.items()) Spit(dir + "/" + kv.key(), Subst(kv.value(), dir));
  std::vector<std::string> a = {c["exe"]};
  for (auto& x : c["args"]) a.push_back(Subst(x, dir));
  std::vector<char*> argv;
  for (auto& x : a) argv.push_back(x.data());
  argv.push_back(nullptr);
  const std::string outp = dir + "/stdout";
  const pid_t pid = fork();
  if (pid == 0) {
    const int fd = open(outp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), nul = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(nul, 2);
    if (chdir(c["cwd"].get<std::string>().c_str())) _exit(126);
    execv(argv[0], argv.data());
    _exit(127);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  json r = {{"rc", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)}};
  json con = Console(Slurp(outp));
  for (auto& p : con["paths"]) p = Unsubst(p, dir);
  r["console"] = con;
  json csv = Csv(Slurp(dir + "/out.csv"));
  for (auto& row : csv["rows"])
    for (auto& x : row) x = Unsubst(x, dir);
  r["csv"] = csv;
  json js = Objects(Slurp(dir + "/out.json"));
  for (auto& o : js["objs"]) {
    o["ref"] = Unsubst(o["ref"], dir);
    o["deg"] = Unsubst(o["deg"], dir);
  }
  r["json"] = js;
  return r;
}

json Run(const json& c) {
  const std::string op = c["op"];
  const std::string dir = fs::canonical(Scratch()).string() + "/w" + std::to_string(getpid());
  fs::remove_all(dir);
  fs::create_directories(dir);
  json r;
  if (op == "write") {
    r = Histories(c, dir);
  } else if (op == "pairs") {
    json all = json::array();
    for (auto& t : c["texts"]) {
      Spit(dir + "/b.csv", t);
      CommandLineArgs a{};
      a.batch_input_csv = FilePath(dir + "/b.csv");
      all.push_back(Pairs(VisqolCommandLineParser::BuildFilePairPaths(a)));
    }
    r["pairs"] = all;
  } else if (op == "parse") {
    r = Parsed(c, dir);
  } else if (op == "main") {
    r = Program(c, dir);
  } else {
    throw json::other_error::create(501, "op " + op, nullptr);
  }
  fs::remove_all(dir);
  return r;
}

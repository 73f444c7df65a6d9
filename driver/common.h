// Shared by the conformance drivers: reads one JSON case per line, runs it on
// the real code, writes one JSON record per line (flushed, so that a crash is
// attributed to the right case).
#ifndef VERIF_DRIVER_COMMON_H
#define VERIF_DRIVER_COMMON_H
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <nlohmann/json.hpp>

#include "absl/status/status.h"
#include "amatrix.h"
#include "audio_signal.h"

using nlohmann::json;
using Visqol::AMatrix;
using Visqol::AudioSignal;

inline std::string Num(double d) {
  if (std::isnan(d)) return "nan";
  if (std::isinf(d)) return d > 0 ? "inf" : "-inf";
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", d);
  return b;
}
inline double Dbl(const json& j) {
  if (j.is_string()) {
    const std::string s = j.get<std::string>();
    if (s == "nan") return NAN;
    if (s == "inf") return INFINITY;
    if (s == "-inf") return -INFINITY;
    return std::strtod(s.c_str(), nullptr);
  }
  return j.get<double>();
}
inline json Nums(const std::vector<double>& v) {
  json a = json::array();
  for (double d : v) a.push_back(Num(d));
  return a;
}
inline std::vector<double> Dbls(const json& j) {
  std::vector<double> v;
  for (auto& x : j) v.push_back(Dbl(x));
  return v;
}
// Matrix as rows of numbers.
inline json Mat(const AMatrix<double>& m) {
  json a = json::array();
  for (size_t r = 0; r < m.NumRows(); r++) {
    json row = json::array();
    for (size_t c = 0; c < m.NumCols(); c++) row.push_back(Num(m(r, c)));
    a.push_back(row);
  }
  return a;
}
inline AMatrix<double> MkMat(const json& rows) {
  const size_t nr = rows.size(), nc = nr ? rows[0].size() : 0;
  AMatrix<double> m(nr, nc);
  for (size_t r = 0; r < nr; r++)
    for (size_t c = 0; c < nc; c++) m(r, c) = Dbl(rows[r][c]);
  return m;
}
inline AMatrix<double> MkCol(const std::vector<double>& v) {
  AMatrix<double> m(v.size(), 1);
  for (size_t i = 0; i < v.size(); i++) m(i, 0) = v[i];
  return m;
}
inline AudioSignal MkSig(const std::vector<double>& v, size_t rate) {
  AudioSignal s;
  s.data_matrix = MkCol(v);
  s.sample_rate = rate;
  return s;
}
inline std::string Code(const absl::Status& s) {
  return absl::StatusCodeToString(s.code());
}
inline std::string Scratch() {
  const char* s = std::getenv("VERIF_SCRATCH");
  return s ? s : ".";
}

json Run(const json& c);  // supplied by each driver

// What the process holds, when lib/c/held.c is preloaded: heap blocks, bytes,
// and open files.
extern "C" {
__attribute__((weak)) void verif_held(long* blocks, long* bytes, long* peak);
__attribute__((weak)) void verif_reset_peak(void);
}
using HeldNow = std::array<long, 3>;
inline HeldNow Held() {
  long b = 0, y = 0, p = 0, fds = 0;
  if (verif_held) verif_held(&b, &y, &p);
  for (int i = 0; i < 512; i++) fds += fcntl(i, F_GETFD) != -1;
  return {b, y, fds};
}
inline json HeldJson(const std::vector<HeldNow>& v) {
  json h = json::array();
  for (auto& x : v) h.push_back(json::array({x[0], x[1], x[2]}));
  return h;
}
inline long Peak() {
  long b = 0, y = 0, p = 0;
  if (verif_held) verif_held(&b, &y, &p);
  return p;
}
// With VERIF_HELD=n every case is run n times over in one process; what is
// held after each.
inline int Passes() {
  const char* s = std::getenv("VERIF_HELD");
  return s ? std::atoi(s) : 0;
}
inline json RunHeld(const json& c, int n) {
  std::vector<HeldNow> v(n);
  for (auto& x : v) {
    try {
      Run(c);
    } catch (const json::exception&) {
      throw;
    } catch (const std::exception&) {
    }
    x = Held();
  }
  return json{{"held", HeldJson(v)}};
}

// In a child process of its own (cases with "fork": true): nothing an earlier
// case did can matter, and nothing this one does outlives it.
inline json RunForked(const json& c) {
  int fd[2];
  if (pipe(fd)) throw std::runtime_error("pipe");
  const pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::string s;
    try {
      s = "R" + Run(c).dump(-1, ' ', false, json::error_handler_t::replace);
    } catch (const json::exception& e) {
      s = std::string("J") + e.what();
    } catch (const std::exception& e) {
      s = std::string("E") + e.what();
    }
    size_t at = 0;
    while (at < s.size()) {
      const ssize_t k = write(fd[1], s.data() + at, s.size() - at);
      if (k <= 0) break;
      at += k;
    }
    close(fd[1]);
    _exit(0);
  }
  close(fd[1]);
  std::string s;
  char b[65536];
  ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) return json{{"crash", "signal " + std::to_string(WTERMSIG(st))}};
  if (s.empty()) return json{{"crash", "exit " + std::to_string(WEXITSTATUS(st))}};
  if (s[0] == 'J') throw json::other_error::create(501, s.substr(1), nullptr);
  if (s[0] == 'E') throw std::runtime_error(s.substr(1));
  return json::parse(s.substr(1));
}

int main(int argc, char** argv) {
  if (argc < 3) return 78;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2], std::ios::trunc);
  std::string line;
  int stuck = 0;
  const int passes = Passes();
  while (std::getline(in, line)) {
    json c, r;
    if (stuck > 3) {  // enough evidence
      out << "{\"skipped\":true}\n";
      continue;
    }
    try {
      c = json::parse(line);
    } catch (...) {
      return 77;
    }
    try {
      r = passes ? RunHeld(c, passes) : c.is_object() && c.value("fork", false) ? RunForked(c) : Run(c);
      r["in"] = c;
    } catch (const json::exception& e) {
      std::fprintf(stderr, "driver: %s\n", e.what());
      return 77;
    } catch (const std::exception& e) {
      r = json{{"in", c}, {"exc", e.what()}};
    }
    if (r.value("stuck", false)) stuck++;
    out << r.dump(-1, ' ', false, json::error_handler_t::replace) << "\n" << std::flush;
  }
  return 0;
}
#endif

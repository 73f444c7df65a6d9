// Deterministic test signals from small recipes:
//   {"base": kind, "seed": s, "n": samples, "rate": r, "ops": [[name, args...], ...]}
// The result is on the 16-bit grid unless "raw" is set.
#ifndef VERIF_SYNTH_H
#define VERIF_SYNTH_H
#include <random>

#include "common.h"

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 2654435761u + 88172645463325252ull) {}
  double U() {  // (0, 1)
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return ((s >> 11) + 0.5) / 9007199254740992.0;
  }
  double N() { return std::sqrt(-2 * std::log(U())) * std::cos(2 * M_PI * U()); }
};

inline std::vector<double> Synth(const json& c) {
  const std::string b = c["base"];
  const size_t n = c["n"];
  const double rate = c["rate"];
  Rng r(c.value("seed", 1));
  std::vector<double> x(n, 0.0);
  if (b == "noise") {
    for (auto& v : x) v = 0.1 * r.N();
  } else if (b == "tones") {
    double f[6], a[6], p[6];
    for (int k = 0; k < 6; k++) {
      f[k] = 80 * std::pow(rate / 2 / 100, r.U());
      a[k] = 0.05 + 0.1 * r.U();
      p[k] = 6.28 * r.U();
    }
    for (size_t i = 0; i < n; i++)
      for (int k = 0; k < 6; k++)
        x[i] += a[k] * std::sin(2 * M_PI * f[k] * i / rate + p[k]) * (0.6 + 0.4 * std::sin(2 * M_PI * (1 + k) * i / rate));
  } else if (b == "speech") {  // voiced syllables, fricatives and pauses
    size_t i = 0;
    while (i < n) {
      const size_t len = (size_t)(rate * (0.08 + 0.25 * r.U()));
      const double kind = r.U(), f0 = 90 + 120 * r.U(), lvl = 0.1 + 0.5 * r.U(), form = 300 + 2500 * r.U();
      for (size_t k = 0; k < len && i + k < n; k++) {
        const double env = std::sin(M_PI * k / len), t = (i + k) / rate;
        double v = 0;
        if (kind < 0.65) {
          for (int h = 1; h * f0 < 0.45 * rate && h < 40; h++)
            v += std::exp(-std::pow((h * f0 - form) / 700, 2)) * std::sin(2 * M_PI * h * f0 * t) + 0.1 / h * std::sin(2 * M_PI * h * f0 * t);
          v *= 0.3;
        } else if (kind < 0.85) {
          v = 0.15 * r.N();
        }
        x[i + k] = lvl * env * v;
      }
      i += len;
    }
  } else if (b == "burst") {  // noise bursts between silences
    for (size_t i = 0; i < n; i++)
      if ((size_t)(i / (0.35 * rate)) % 2) x[i] = 0.2 * r.N();
  } else if (b == "const") {
    for (auto& v : x) v = 0.25;
  } else if (b == "impulse") {
    if (n) x[n / 2] = 0.9;
  } else if (b == "square") {
    for (size_t i = 0; i < n; i++) x[i] = (i / 37) % 2 ? 0.999 : -1;
  } else if (b != "silence") {
    throw json::other_error::create(501, "base " + b, nullptr);
  }
  for (auto& o : c.value("ops", json::array())) {
    const std::string f = o[0];
    if (f == "gain") {
      for (auto& v : x) v *= Dbl(o[1]);
    } else if (f == "delay") {
      x.insert(x.begin(), o[1].get<size_t>(), 0.0);
    } else if (f == "cut") {
      x.erase(x.begin(), x.begin() + std::min(x.size(), o[1].get<size_t>()));
    } else if (f == "trim") {
      x.resize(std::min(x.size(), o[1].get<size_t>()));
    } else if (f == "pad") {
      x.insert(x.end(), o[1].get<size_t>(), 0.0);
    } else if (f == "noise") {
      for (auto& v : x) v += Dbl(o[1]) * r.N();
    } else if (f == "lp") {
      double y = 0;
      for (auto& v : x) v = y += Dbl(o[1]) * (v - y);
    } else if (f == "clip") {
      const double m = Dbl(o[1]);
      for (auto& v : x) v = std::max(-m, std::min(m, v));
    } else if (f == "mute") {
      for (size_t i = o[1]; i < o[2].get<size_t>() && i < x.size(); i++) x[i] = 0;
    } else if (f == "insert") {  // other content in the middle: what follows comes late
      std::vector<double> y(o[2].get<size_t>());
      for (auto& v : y) v = Dbl(o[3]) * r.N();
      x.insert(x.begin() + std::min(x.size(), o[1].get<size_t>()), y.begin(), y.end());
    } else if (f == "neg") {
      for (auto& v : x) v = -v;
    } else if (f == "dc") {
      for (auto& v : x) v += Dbl(o[1]);
    } else {
      throw json::other_error::create(501, "op " + f, nullptr);
    }
  }
  if (!c.value("raw", false))
    for (auto& v : x) v = std::max(-32768., std::min(32767., std::floor(v * 32768 + 0.5))) / 32768;
  return x;
}

inline void WriteWav(const std::string& path, const std::vector<double>& x, uint32_t rate) {
  std::ofstream f(path, std::ios::binary);
  auto u32 = [&](uint32_t v) { f.write((char*)&v, 4); };
  auto u16 = [&](uint16_t v) { f.write((char*)&v, 2); };
  f << "RIFF";
  u32(36 + 2 * x.size());
  f << "WAVEfmt ";
  u32(16), u16(1), u16(1), u32(rate), u32(rate * 2), u16(2), u16(16);
  f << "data";
  u32(2 * x.size());
  for (double v : x) u16((uint16_t)(int16_t)std::lround(v * 32768));
}
#endif

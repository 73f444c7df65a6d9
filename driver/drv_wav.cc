#include "common.h"
#include "file_path.h"
#include "misc_audio.h"
#include "wav_reader.h"
using namespace Visqol;

static json Pair(uint32_t v) { return json::array({v >> 16, v & 0xffff}); }

static json Sig(const AudioSignal& s) {
  json o;
  o["rows"] = s.data_matrix.NumRows();
  o["cols"] = s.data_matrix.NumCols();
  json d = json::array();
  for (size_t i = 0; i < s.data_matrix.NumElements(); i++)
    d.push_back(Num(s.data_matrix(i)));
  o["data"] = d;
  if (s.data_matrix.NumElements()) {
    o["rate"] = Pair((uint32_t)s.sample_rate);
    o["dur"] = Num(s.GetDuration());
  }
  return o;
}

json Run(const json& c) {
  std::string bytes;
  for (auto& b : c.at("bytes")) bytes.push_back((char)b.get<int>());
  json r;
  {
    std::stringstream ss(bytes);
    r["stream"] = Sig(MiscAudio::LoadAsMono(&ss));
  }
  {
    std::string p = Scratch() + "/x.wav";
    std::ofstream(p, std::ios::binary | std::ios::trunc) << bytes;
    r["file"] = Sig(MiscAudio::LoadAsMono(FilePath(p)));
  }
  {
    // The reader itself, with the given sequence of read sizes.
    std::stringstream ss(bytes);
    WavReader w(&ss);
    r["valid"] = w.IsHeaderValid();
    json reads = json::array();
    if (w.IsHeaderValid()) {
      r["total"] = w.GetNumTotalSamples();
      r["channels"] = w.GetNumChannels();
      r["rrate"] = Pair((uint32_t)w.GetSampleRateHz());
      r["rdur"] = Num(w.GetDuration());
      for (auto& n : c.at("reads")) {
        std::vector<int16_t> buf(n.get<size_t>() + 8, 0x5a5a);
        size_t k = w.ReadSamples(n.get<size_t>(), buf.data());
        json v = json::array();
        for (size_t i = 0; i < k && i < n.get<size_t>(); i++) v.push_back(buf[i]);
        bool over = false;
        for (size_t i = n.get<size_t>(); i < buf.size(); i++) over |= buf[i] != 0x5a5a;
        reads.push_back({{"n", n}, {"k", k}, {"v", v}, {"over", over}});
      }
    }
    r["reads"] = reads;
  }
  return r;
}

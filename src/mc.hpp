// Common part of the exploration harnesses: case bookkeeping, violation reports, coverage counts.
//
// A harness enumerates cases in a fixed order. A case is a short text from which it can be re-run alone
// (--replay FILE). The text of the case being run is kept in a shared mapping (--cur FILE), so that
// the driver knows which case crashed or hung.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace mc {

struct CurPage {
  volatile uint64_t seq;
  volatile uint64_t len;
  char text[1 << 16];
};

struct Session {
  int shard = 0, nshards = 1;
  bool thorough = false;
  bool replaying = false;
  std::string out, replay_text, part;
  CurPage *cur = nullptr;
  uint64_t case_index = 0;
  uint64_t cases = 0, states = 0, transitions = 0, validated = 0;
  std::map<std::string, uint64_t> extra;
  std::vector<std::string> samples;
  std::vector<std::string> known, known_hit;
  std::string case_text;
  time_t deadline = 0;          // no case is begun after it
};

inline Session& S() { static Session s; return s; }

inline std::string json_escape(const std::string& s)
{
  std::string r;
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
    else r += c;
  }
  return r;
}

inline void write_out(const std::string& violation)
{
  Session& s = S();
  if (s.out.empty()) return;
  std::ofstream f(s.out + ".tmp");
  f << "{\"cases\":" << s.cases << ",\"states\":" << s.states << ",\"transitions\":" << s.transitions
    << ",\"validated\":" << s.validated << ",\"extra\":{";
  bool first = true;
  for (auto& p : s.extra) { f << (first ? "" : ",") << "\"" << json_escape(p.first) << "\":" << p.second; first = false; }
  f << "},\"samples\":[";
  first = true;
  for (auto& p : s.samples) { f << (first ? "" : ",") << "\"" << json_escape(p) << "\""; first = false; }
  f << "],\"known_hit\":[";
  first = true;
  for (auto& p : s.known_hit) { f << (first ? "" : ",") << "\"" << json_escape(p) << "\""; first = false; }
  f << "]";
  if (!violation.empty())
    f << ",\"violation\":\"" << json_escape(violation) << "\",\"case\":\"" << json_escape(s.case_text) << "\"";
  f << "}\n";
  f.close();
  rename((s.out + ".tmp").c_str(), s.out.c_str());
}

inline bool late() { return S().deadline && time(nullptr) >= S().deadline; }

// True if this shard has to run the case.
inline bool mine()
{
  Session& s = S();
  if ((int)(s.case_index++ % s.nshards) != s.shard) return false;
  if (!late()) return true;
  s.extra["cases_left_out_for_time"]++;
  return false;
}

inline void begin_case(const std::string& text)
{
  Session& s = S();
  s.cases++;
  s.case_text = text;
  if (s.cur) {
    size_t n = std::min(text.size(), sizeof(s.cur->text) - 1);
    memcpy(s.cur->text, text.data(), n);
    s.cur->len = n;
    s.cur->seq = s.cur->seq + 1;
  }
}

inline void tick() { if (S().cur) S().cur->seq = S().cur->seq + 1; }

inline void sample(const std::string& text, size_t max = 4)
{
  if (S().samples.size() < max) S().samples.push_back(text);
}

// Reports that the current case breaks the property. Returns only for a listed finding.
inline void violation(const std::string& msg)
{
  Session& s = S();
  for (auto& k : s.known)
    if (k == s.case_text) {
      for (auto& h : s.known_hit) if (h == k) return;
      s.known_hit.push_back(k);
      return;
    }
  std::cerr << "case: " << s.case_text << "\nviolation: " << msg << std::endl;
  if (getenv("MC_CONTINUE")) return;      // for looking around only
  write_out(msg);
  _exit(3);
}

inline void init(int argc, char **argv)
{
  Session& s = S();
  if (getenv("MC_DEADLINE")) s.deadline = atol(getenv("MC_DEADLINE"));
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--shard") { std::string v = next(); s.shard = atoi(v.c_str()); s.nshards = atoi(v.substr(v.find('/') + 1).c_str()); }
    else if (a == "--tier") s.thorough = next() == "thorough";
    else if (a == "--out") s.out = next();
    else if (a == "--part") s.part = next();
    else if (a == "--known") {
      std::ifstream f(next());
      std::string l;
      while (std::getline(f, l)) if (!l.empty()) s.known.push_back(l);
    }
    else if (a == "--replay") {
      std::ifstream f(next(), std::ios::binary);
      s.replay_text.assign(std::istreambuf_iterator<char>(f), {});
      s.replaying = true;
    }
    else if (a == "--cur") {
      int fd = open(next().c_str(), O_RDWR | O_CREAT, 0600);
      if (ftruncate(fd, sizeof(CurPage))) abort();
      s.cur = (CurPage *)mmap(NULL, sizeof(CurPage), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      close(fd);
    }
  }
}

inline int finish()
{
  write_out("");
  return 0;
}

// Text encoding used in case texts: printable ASCII stays, everything else (and '%') becomes %XX.
inline std::string enc(const std::string& s)
{
  std::string r;
  char buf[4];
  for (unsigned char c : s) {
    if (c <= 0x20 || c >= 0x7f || c == '%') { snprintf(buf, sizeof buf, "%%%02X", c); r += buf; }
    else r += c;
  }
  return r;
}
inline std::string dec(const std::string& s)
{
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%' && i + 2 < s.size() + 0 && i + 2 <= s.size() - 1) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else r += s[i];
  }
  return r;
}

} // namespace mc

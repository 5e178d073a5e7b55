// Enumerations of grammar texts shared by the harnesses.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <fstream>
#include <cstdlib>

// Every body of up to `len` tokens
inline void for_each_body(int len, const std::vector<std::string>& atoms, const std::function<void(const std::string&)>& f)
{
  std::function<void(const std::string&, int, int, int)> rec = [&](const std::string& text, int left, int depth, int last) {
    // last: 0 nothing to repeat, 1 an item that may take a quantifier
    if (depth == 0) f(text);
    if (left <= depth) {
      if (left > 0) rec(text + " )", left - 1, depth - 1, 1);
      return;
    }
    for (auto& a : atoms) rec(text + " " + a, left - 1, depth, 1);
    if (left >= 2 + depth) rec(text + " (", left - 1, depth + 1, 0);
    if (depth > 0) rec(text + " )", left - 1, depth - 1, 1);
    rec(text + " |", left - 1, depth, 0);
    rec(text + " |>", left - 1, depth, 0);
    if (last == 1) for (const char *q : {"*", "+", "?"}) rec(text + q, left - 1, depth, 0);
  };
  rec("", len, 0, 0);
}

inline std::vector<std::pair<std::string, std::string>> sample_files()
{
  std::vector<std::pair<std::string, std::string>> r;
  const char *repo = getenv("MC_REPO");
  for (const char *n : {"calc", "citylots", "citylots_eager", "dblp", "dblp_schema", "json", "lua", "xml"}) {
    std::string path = std::string(repo ? repo : "/repo") + "/grammars/" + n + ".cgr";
    std::ifstream f(path, std::ios::binary);
    if (!f) continue;
    std::string text(std::istreambuf_iterator<char>(f), {});
    // an included sample is spliced in (the include directive itself is C08's)
    for (size_t at; (at = text.find("include \"")) != std::string::npos;) {
      size_t q = text.find('"', at + 9), e = text.find(';', q);
      std::ifstream in(std::string(repo ? repo : "/repo") + "/grammars/" + text.substr(at + 9, q - at - 9), std::ios::binary);
      text.replace(at, e + 1 - at, std::string(std::istreambuf_iterator<char>(in), {}));
    }
    r.emplace_back(n, text);
  }
  return r;
}

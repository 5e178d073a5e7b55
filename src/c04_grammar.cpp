// C04, C05, C08, C09: what loading a grammar gives.
//
// Grammar texts are enumerated exhaustively within the bounds, loaded by the real loader, and compared with a reader
// of the notation written independently (grammar_model.hpp): the machines by exploring the product of the two symbol
// automata (sentences of any length), the tables of names and numbers, the verdict, and the line of an error.
#include "grammar_impl.hpp"
#include "grammar_text.hpp"
#include <sys/resource.h>

using namespace gi;

static std::string mode;

static const char *DEFS = " A : 'x' ; B : /y+/ ;";
static std::string grammar_of(const std::string& body) { return "grammar G; R : " + body + " ;" + DEFS; }

static bool take(const std::string& ct)
{
  if (S().replaying ? S().replay_text != ct : !mine()) return false;
  begin_case(ct);
  return true;
}

// ---------------------------------------------------------------- rule bodies

static void body_c04(const std::string& body)
{
  std::string ct = "body " + enc(body);
  if (!take(ct)) return;
  std::string text = grammar_of(body), err;
  GrammarModel m(text);
  if (m.verdict != GrammarModel::OK) { violation("the model does not read it"); return; }
  auto g = load<char>(write_file(text), err);
  if (!g) { violation("a well-formed grammar is rejected: " + err); return; }
  std::string e = compare_rules(*g, m, true);
  if (!e.empty()) violation(e);
  sample(ct);
}

static void text_c04(const std::string& text, const std::string& ct)
{
  if (!take(ct)) return;
  std::string err;
  GrammarModel m(text);
  if (m.verdict != GrammarModel::OK) { violation("the model does not read it"); return; }
  std::string path = write_file(text);
  auto g = load<char>(path, err);
  if (!g) { violation("a well-formed grammar is rejected: " + err); return; }
  std::string e = compare_rules(*g, m, true);
  if (e.empty()) {
    auto w = load<wchar_t>(path, err);
    if (!w) e = "rejected for wide characters: " + err;
    else e = compare_rules(*w, m, true);
  }
  if (e.empty()) {
    auto w = load<unsigned char>(path, err);
    if (!w) e = "rejected for unsigned characters: " + err;
    else e = compare_rules(*w, m, true);
  }
  if (!e.empty()) violation(e);
}

static void optimise_c05(const std::string& text, const std::string& ct)
{
  if (!take(ct)) return;
  std::string err;
  GrammarModel m(text);
  if (m.verdict != GrammarModel::OK) return;
  std::string path = write_file(text);
  auto raw = load<char>(path, err), once = load<char>(path, err), twice = load<char>(path, err);
  if (!raw || !once || !twice) return;     // C08's
  once->optimize();
  twice->optimize();
  twice->optimize();
  Grammar<char> direct(path.c_str());
  std::string alphabet = regex_alphabet(m);
  std::string before = dump(*raw);
  std::string e;
  const std::pair<const char *, Grammar<char> *> others[] = {{"optimised", once.get()}, {"optimised twice", twice.get()}, {"the grammar loaded from a path", &direct}};
  for (auto& o : others) {
    e = compare_tables(*o.second, m);
    for (auto& r : m.rules) {
      if (!e.empty()) break;
      Identifier id(widen(r.name));
      MachineAutomaton<char> a((*raw)[id], alphabet), b((*o.second)[id], alphabet);
      e = !a.error.empty() ? a.error : b.error;
      if (e.empty()) e = compare_languages(a, "the machine as loaded", b, o.first);
      if (!e.empty()) e = r.name + ": " + e;
      // the alternatives that exist at the choices: everything that can come next, from every place
      if (e.empty()) {
        std::multiset<std::string> pa, pb;
        for (size_t i = 1; i < a.symbol.size(); i++) if (!a.symbol[i].empty()) pa.insert(a.symbol[i] + " " + canonical(a, a.follow[i], S().states));
        for (size_t i = 1; i < b.symbol.size(); i++) if (!b.symbol[i].empty()) pb.insert(b.symbol[i] + " " + canonical(b, b.follow[i], S().states));
        S().transitions += pa.size();
        if (pa != pb) e = r.name + ": the terminals and references, or what can follow one of them, changed";
      }
    }
    if (!e.empty()) { violation(std::string(o.first) + ": " + e); return; }
  }
  if (dump(*raw) != before) violation("optimising one grammar changed another");
  sample(ct);
}

// ---------------------------------------------------------------- files

static const std::vector<std::string>& small_files()
{
  static const std::vector<std::string> v{
    "grammar G; R : 'a' ;",
    "R : 'a' | \"b\" |> /c+/ ; S : R* ;",
    "R : ( 'a' S )? 'b'+ ; S : ( R | ) ;",
    "grammar G; A : 'a' { 3 } B{12} ; B : /[^a\\-b\\n]*\\./ ;",
    "/* one */ A : B ; // two\nB : 'b' ; /**/",
    "A:'a'B;B:'b'|'c';A:'z';C:A;",
    "R : ('a' | ('b' |> 'c')* )+ ;",
    "_x9 : '//' \"/*\" '\"' \"'\" ';' /;/ ;",
    "R : ;",
    "R : | ;",
  };
  return v;
}

// Tokens of a text that is known to be well-formed, as written
static std::vector<std::string> tokenize(const std::string& t)
{
  std::vector<std::string> r;
  size_t i = 0;
  while (i < t.size()) {
    size_t s = i;
    unsigned char c = t[i];
    if (isspace(c)) { i++; continue; }
    if (c == '/' && t[i + 1] == '/') { while (i < t.size() && t[i] != '\n') i++; continue; }
    if (c == '/' && t[i + 1] == '*') { i = t.find("*/", i + 2) + 2; continue; }
    if (isalnum(c) || c == '_') { while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_')) i++; }
    else if (c == '\'' || c == '"') { i = t.find((char)c, i + 1) + 1; }
    else if (c == '/') {
      i++;
      bool cls = false;
      while (t[i] != '/' || cls) { if (t[i] == '\\') i++; else if (t[i] == '[') cls = true; else if (t[i] == ']') cls = false; i++; }
      i++;
    } else if (c == '|' && t[i + 1] == '>') i += 2;
    else i++;
    r.push_back(t.substr(s, i - s));
  }
  return r;
}
static bool wordlike(char c) { return isalnum((unsigned char)c) || c == '_'; }

// "Line N" of an error message, 0 if there is none
static int reported_line(const std::string& msg)
{
  size_t p = msg.find("Line ");
  return p == std::string::npos ? 0 : atoi(msg.c_str() + p + 5);
}

static void verdict_c08(const std::string& text, const std::string& ct, bool line = false)
{
  if (!take(ct)) return;
  std::string err;
  GrammarModel m(text);
  auto g = load<char>(write_file(text), err);
  S().transitions++;
  if (m.verdict == GrammarModel::UNSPECIFIED) { S().extra["only_termination"]++; return; }
  S().states++;
  if (m.verdict == GrammarModel::OK) {
    if (line) return;
    S().extra["well_formed"]++;
    if (!g) { violation("a well-formed grammar is rejected: " + err); return; }
    std::string e = compare_tables(*g, m);
    if (e.empty()) e = compare_rules(*g, m, false);
    if (e.empty()) {
      // moving a grammar takes everything along
      Grammar<char> moved(std::move(*g));
      e = compare_tables(moved, m);
      if (!e.empty()) e = "after a move: " + e;
    }
    if (!e.empty()) violation(e);
    return;
  }
  S().extra["malformed"]++;
  if (g) { if (!line) violation("a malformed grammar is accepted; the error is at character " + std::to_string(m.error_at) + " (line " + std::to_string(line_of(text, m.error_at)) + ")"); return; }
  if (line && m.error_at != std::string::npos) {
    int want = line_of(text, m.error_at), got = reported_line(err);
    if (got != want) violation("the error is on line " + std::to_string(want) + ", reported: " + err);
  }
}

// Everything that is one edit away from a text
static void edits(const std::string& name, const std::string& text, bool characters, const std::function<void(const std::string&, const std::string&)>& f)
{
  for (size_t n = 0; n <= text.size(); n++) f(text.substr(0, n), "cut " + name + " " + std::to_string(n));
  std::vector<std::string> toks = tokenize(text);
  static const std::vector<std::string> set{"grammar", "include", "X", ":", ";", "|", "|>", ">", "(", ")", "*", "+", "?", "'l'", "\"m\"", "/r/", "{", "}", "7", "{7}", "'", "\"", "/", "//", "/*", "/*c*/", "[", "\\", ",", "="};
  auto join = [](const std::vector<std::string>& t) { std::string s; for (auto& x : t) s += (s.empty() ? "" : " ") + x; return s; };
  for (size_t k = 0; k < toks.size(); k++) {
    std::vector<std::string> t = toks;
    t.erase(t.begin() + k);
    f(join(t), "drop " + name + " " + std::to_string(k));
    t = toks;
    t.insert(t.begin() + k, toks[k]);
    f(join(t), "double " + name + " " + std::to_string(k));
    if (k + 1 < toks.size()) { t = toks; std::swap(t[k], t[k + 1]); f(join(t), "swap " + name + " " + std::to_string(k)); }
    for (size_t s = 0; s < set.size(); s++) {
      t = toks;
      t[k] = set[s];
      f(join(t), "put " + name + " " + std::to_string(k) + " " + std::to_string(s));
      t = toks;
      t.insert(t.begin() + k, set[s]);
      f(join(t), "add " + name + " " + std::to_string(k) + " " + std::to_string(s));
    }
  }
  if (characters)
    for (size_t k = 0; k < text.size(); k++) {
      std::string t = text;
      t.erase(k, 1);
      f(t, "erase " + name + " " + std::to_string(k));
      for (int c : std::initializer_list<int>{'\\', '/', '*', '\'', '"', '[', ']', '-', '^', '(', ')', '{', '}', ':', ';', '|', '>', 'a', '0', ' ', '\n', '\r', '\t', '.', '+', '?', 1, 0x7f, 0x80, 0xc3, 0xff, 0}) {
        t = text;
        t[k] = (char)c;
        f(t, "char " + name + " " + std::to_string(k) + " " + std::to_string(c));
        t = text;
        t.insert(k, 1, (char)c);
        f(t, "more " + name + " " + std::to_string(k) + " " + std::to_string(c));
      }
    }
}

static void sequences(int len, const std::string& prefix, const std::string& suffix, const std::vector<std::string>& toks, const std::string& sep,
                      const std::function<void(const std::string&, const std::string&)>& f)
{
  std::function<void(const std::string&, int)> rec = [&](const std::string& t, int left) {
    std::string text = prefix + t + suffix;
    f(text, "text " + enc(text));
    if (left) for (auto& x : toks) rec(t + (t.empty() ? "" : sep) + x, left - 1);
  };
  rec("", len);
}

// Includes: a set of files and the model of their expansion
struct FileSet { std::string name; std::map<std::string, std::string> files; std::string main; };

static std::string dir_of(const std::string& p) { size_t s = p.rfind('/'); return s == std::string::npos ? "" : p.substr(0, s + 1); }

static void include_case(const FileSet& fs)
{
  std::string ct = "files " + fs.name;
  if (!take(ct)) return;
  std::string root = scratch() + "/inc_" + std::to_string(S().cases) + "/";
  mkdir(root.c_str(), 0700);
  auto expand = [&](std::string s) { for (size_t p; (p = s.find("$ROOT")) != std::string::npos;) s.replace(p, 5, root); return s; };
  std::map<std::string, std::string> abs;
  for (auto& p : fs.files) {
    std::string path = root + p.first;
    for (size_t s = root.size(); (s = path.find('/', s)) != std::string::npos; s++) mkdir(path.substr(0, s).c_str(), 0700);
    std::string text = expand(p.second);
    FILE *f = fopen(path.c_str(), "wb");
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
    abs[path] = text;
  }
  // the model splices the rules of an included file in at the place of the directive
  std::string current = root + fs.main;
  int depth = 0;
  GrammarModel::Includer inc;
  std::function<bool(const std::string&, GrammarModel&)> inc_impl = [&](const std::string& path, GrammarModel& into) -> bool {
    std::string full = !path.empty() && path[0] == '/' ? path : dir_of(current) + path;
    // resolve ..
    for (size_t p; (p = full.find("/../")) != std::string::npos;) { size_t q = full.rfind('/', p - 1); full = full.substr(0, q) + full.substr(p + 3); }
    if (!abs.count(full) || depth >= 90) return false;
    std::string saved = current;
    current = full;
    depth++;
    GrammarModel sub(abs[full], inc_impl);
    depth--;
    current = saved;
    if (sub.verdict != GrammarModel::OK) { into.verdict = sub.verdict; return true; }
    for (auto& r : sub.rules) if (!into.find(r.name)) into.rules.push_back(r); else into.repeated = true;
    return true;
  };
  GrammarModel m(abs[current], inc_impl);
  std::string err;
  auto g = load<char>(root + fs.main, err);
  S().transitions++;
  S().states++;
  std::string e;
  if (m.verdict == GrammarModel::OK) {
    if (!g) e = "well-formed files are rejected: " + err;
    else {
      e = compare_tables(*g, m);
      if (e.empty()) e = compare_rules(*g, m, false);
    }
  } else if (m.verdict == GrammarModel::MALFORMED && g) e = "malformed files are accepted";
  if (!e.empty()) violation(e);
  sample(ct, 2);
}

static void include_cases()
{
  std::vector<FileSet> v;
  // every placement of up to three rules and up to two includes in the main file, with one or two included files
  const std::vector<std::string> items{"A : 'a' ;", "B : 'b' ;", "C : A B ;", "include \"one.cgr\";", "include \"sub/two.cgr\";", "grammar M;"};
  for (int len = 1; len <= 4; len++) {
    std::vector<int> pick(len, 0);
    for (;;) {
      std::string t;
      for (int p : pick) t += items[p] + "\n";
      for (int variant = 0; variant < 3; variant++) {
        FileSet f;
        f.name = "mix" + std::to_string(variant);
        for (int p : pick) f.name += "-" + std::to_string(p);
        f.main = "main.cgr";
        f.files["main.cgr"] = t;
        f.files["one.cgr"] = variant == 0 ? "X : 'x' ;" : variant == 1 ? "B : 'other' ; X : B ; A : X ;" : "grammar ONE; include \"sub/two.cgr\"; X : 'x' ;";
        f.files["sub/two.cgr"] = variant == 0 ? "Y : 'y' ; include \"three.cgr\"; Z : Y ;" : variant == 1 ? "// nothing\n" : "Y : 'y' ; A : Y ; include \"../leaf.cgr\";";
        f.files["sub/three.cgr"] = "W : 'w' ;";
        f.files["three.cgr"] = "WRONG : 'w' ;";
        f.files["leaf.cgr"] = "L : /l/ ;";
        v.push_back(f);
      }
      int k = len - 1;
      while (k >= 0 && ++pick[k] == (int)items.size()) pick[k--] = 0;
      if (k < 0) break;
    }
  }
  auto add = [&](const std::string& name, std::map<std::string, std::string> files) { v.push_back({name, files, "main.cgr"}); };
  add("absolute", {{"main.cgr", "A : B ; include \"$ROOTd/b.cgr\"; C : B ;"}, {"d/b.cgr", "B : 'b' ; include \"c.cgr\";"}, {"d/c.cgr", "D : 'd' ;"}});
  add("missing", {{"main.cgr", "A : 'a' ; include \"nothere.cgr\";"}});
  add("missing-deep", {{"main.cgr", "A : 'a' ; include \"b.cgr\";"}, {"b.cgr", "B : 'b' ; include \"nothere.cgr\";"}});
  add("malformed-inside", {{"main.cgr", "A : 'a' ; include \"b.cgr\"; C : 'c' ;"}, {"b.cgr", "B : 'b' "}});
  add("malformed-after", {{"main.cgr", "A : 'a' ; include \"b.cgr\" C : 'c' ;"}, {"b.cgr", "B : 'b' ;"}});
  add("empty-include", {{"main.cgr", "A : 'a' ; include \"b.cgr\"; C : 'c' ;"}, {"b.cgr", ""}});
  add("self", {{"main.cgr", "A : 'a' ; include \"main.cgr\";"}});
  add("self-first", {{"main.cgr", "include \"main.cgr\"; A : 'a' ;"}});
  add("mutual", {{"main.cgr", "A : 'a' ; include \"b.cgr\";"}, {"b.cgr", "B : 'b' ; include \"main.cgr\";"}});
  add("comment", {{"main.cgr", "// include \"nothere.cgr\";\n/* include \"nothere.cgr\"; */ A : 'include \"x\";' ;"}});
  {
    FileSet chain{"chain", {}, "main.cgr"};
    chain.files["main.cgr"] = "R0 : 'a' ; include \"f1.cgr\"; E0 : R0 ;";
    for (int i = 1; i < 20; i++)
      chain.files["f" + std::to_string(i) + ".cgr"] = "R" + std::to_string(i) + " : 'a' ;" + (i < 19 ? " include \"f" + std::to_string(i + 1) + ".cgr\";" : "") + " E" + std::to_string(i) + " : R" + std::to_string(i) + " ;";
    v.push_back(chain);
  }
  for (auto& f : v) include_case(f);
}

static void other_files_c08()
{
  auto rejected = [&](const std::string& name, const std::string& path) {
    if (!take("path " + name)) return;
    std::string err;
    S().transitions++;
    if (load<char>(path, err)) violation("it is read without an error");
    try { Grammar<char> g(path.c_str()); violation("the constructor does not report it"); } catch (const std::exception&) {}
  };
  rejected("missing file", scratch() + "/nothere.cgr");
  rejected("directory", scratch());
  rejected("missing directory", scratch() + "/no/such/dir.cgr");
  for (int n : {65534, 65535, 65536}) {
    if (!take("rules " + std::to_string(n))) continue;
    std::string text, err;
    for (int i = 0; i < n; i++) text += "R" + std::to_string(i) + ":'a';\n";
    auto g = load<char>(write_file(text), err);
    S().transitions++;
    if (n <= 65535) {
      if (!g) violation("rejected: " + err);
      else if (g->get_machine_num() != n || g->get_machine_id(Identifier(widen("R" + std::to_string(n - 1)))) != n) violation("not all rules are there");
    } else if (g) violation("more rules than numbers are accepted");
  }
  for (const char *t : {"", " \n", "// c", "/* c */", "grammar G;"}) verdict_c08(t, std::string("text ") + enc(t));
  // characters beyond ASCII in comments, literals and patterns do not end the file
  for (const char *u : {"\xc3\xa9", "\xe3\x81\x82", "\xf0\x9f\x98\x80", "\xc2\x85", "\xe2\x80\xa8"})
    for (std::string t : {"/* # */ A : 'a' ; B : A ;", "// #\nA : 'a' ; B : A ;", "A : '#' ; B : A ;", "A : /#+/ ; B : A ;", "A : 'a' ; B : \"b#\" ; C : A B ;"}) {
      t.replace(t.find('#'), 1, u);
      if (!take("unicode " + enc(t))) continue;
      std::string err;
      std::string path = write_file(t);
      auto g = load<char>(path, err);
      auto w = load<wchar_t>(path, err);
      S().transitions++;
      int want = (int)std::count(t.begin(), t.end(), ':');
      if (!g || !w) violation("rejected: " + err);
      else if (g->get_machine_num() != want || w->get_machine_num() != want) violation("part of the grammar is dropped");
    }
}

// ---------------------------------------------------------------- layout

static const std::vector<std::string>& separators()
{
  static const std::vector<std::string> v{" ", "\t", "\n", "\r\n", "\r", "\n\n", "/*c*/", "//c\n", "//c\r\n", "//c\r", "/* c\n d */", "/***/", "/**/", "/* // */", "// /*\n", "  \t ", " /* * / */ ",
    "\v", "\f", "//\n//\n", "/*a*//*b*/", "// 'x' ;\n", "/* \"x\" : */", "\r\r\n\n"};
  return v;
}
static bool needs_separator(const std::string& a, const std::string& b)
{
  if (a.empty() || b.empty()) return false;
  if (wordlike(a.back()) && wordlike(b[0])) return true;
  if (a == "|" && b[0] == '>') return true;
  return false;
}
// a '/' in front of "/*" or "//" would read differently
static bool safe(const std::string& a, const std::string& sep)
{
  if (a.empty() || sep.empty()) return true;
  if (a == "/" || (a.size() == 1 && a[0] == '/')) return false;
  return true;
}

static void layout_c09(const std::string& name, const std::string& text, bool pairs)
{
  std::vector<std::string> toks = tokenize(text);
  std::string ref_err;
  std::string ref;
  auto check = [&](const std::vector<std::string>& gap, const std::string& ct) {
    if (!take(ct)) return;
    if (ref.empty()) {
      std::string plain;
      for (auto& t : toks) plain += t + " ";
      auto g = load<char>(write_file(plain), ref_err);
      if (!g) return;
      ref = dump(*g);
    }
    std::string t = gap[0];
    for (size_t k = 0; k < toks.size(); k++) t += toks[k] + gap[k + 1];
    std::string err;
    auto g = load<char>(write_file(t), err);
    S().transitions++;
    S().states++;
    if (!g) { violation("rejected with this layout: " + err + "   " + enc(t)); return; }
    if (dump(*g) != ref) violation("the grammar differs with this layout:   " + enc(t));
  };
  auto minimal = [&]() {
    std::vector<std::string> gap(toks.size() + 1, "");
    for (size_t k = 0; k + 1 < toks.size(); k++) if (needs_separator(toks[k], toks[k + 1])) gap[k + 1] = " ";
    return gap;
  };
  auto seps = separators();
  std::vector<std::string> base = minimal();
  check(base, "layout " + name + " minimal");
  check(std::vector<std::string>(toks.size() + 1, " "), "layout " + name + " blanks");
  for (size_t s = 0; s < seps.size(); s++) {
    check(std::vector<std::string>(toks.size() + 1, seps[s]), "layout " + name + " all " + std::to_string(s));
    for (size_t k = 0; k <= toks.size(); k++) {
      std::vector<std::string> gap = base;
      gap[k] = seps[s];
      check(gap, "layout " + name + " one " + std::to_string(s) + " " + std::to_string(k));
      if (!pairs) continue;
      for (size_t k2 = k + 1; k2 <= toks.size(); k2++)
        for (size_t s2 = 0; s2 < seps.size(); s2 += (S().thorough ? 1 : 5)) {
          std::vector<std::string> g2 = gap;
          g2[k2] = seps[s2];
          check(g2, "layout " + name + " two " + std::to_string(s) + " " + std::to_string(k) + " " + std::to_string(s2) + " " + std::to_string(k2));
        }
    }
  }
  for (const char *end : {"//c", "//", "/*c*/", "\n//c", "\r", "/* */ //"}) {
    std::vector<std::string> gap = base;
    gap.back() = end;
    check(gap, "layout " + name + " end " + enc(end));
  }
  sample("layout " + name + ": every separator at every gap of " + std::to_string(toks.size()) + " tokens");
}

// Malformed texts with every kind of line break and comment before the offending character
static void lines_c09()
{
  const std::vector<std::string> breaks{"\n", "\r\n", "\r", "\n\n", "//c\n", "//c\r\n", "//c\r", "/*\n*/", "/*\r\n*/", "/* \r */", " ", "\r\n\r", "/*c*/\n", "// /*\n /* // */"};
  const std::vector<std::string> tokens{"grammar", "G", ";", "R", ":", "'a'", "|", "/[b-d]\\+/", "(", ")", "*", "{", "1", "}", "\"c\"", "include"};
  // every single-token edit of small well-formed grammars, joined by every line break
  int n = 0;
  for (auto& f : small_files()) {
    std::vector<std::string> toks = tokenize(f);
    std::string name = "small" + std::to_string(n++);
    for (size_t b = 0; b < breaks.size(); b++)
      for (size_t k = 0; k <= toks.size(); k++)
        for (size_t s = 0; s <= tokens.size(); s++) {
          std::string t;
          for (size_t i = 0; i < toks.size(); i++) {
            if (i == k) { if (s < tokens.size()) t += tokens[s] + breaks[b]; else continue; }
            t += toks[i] + breaks[b];
          }
          verdict_c08(t, "line " + name + " " + std::to_string(b) + " " + std::to_string(k) + " " + std::to_string(s), true);
        }
    // the error at the end of the file, or in the middle of a token
    for (size_t b = 0; b < breaks.size(); b++) {
      std::string t;
      for (auto& x : toks) t += x + breaks[b];
      for (size_t k = 0; k < t.size(); k++) verdict_c08(t.substr(0, k), "linecut " + name + " " + std::to_string(b) + " " + std::to_string(k), true);
      for (size_t k = 0; k < t.size(); k++) {
        for (char c : {'$', '\\', '-', '\n'}) {
          std::string u = t;
          u.insert(k, 1, c);
          verdict_c08(u, "linechar " + name + " " + std::to_string(b) + " " + std::to_string(k) + " " + std::to_string((int)c), true);
        }
      }
    }
  }
  // one bad character on each line of a text whose lines end in every combination of line breaks
  const std::vector<std::string> eol{"\n", "\r\n", "\r"};
  for (int combo = 0; combo < 81; combo++) {
    int c = combo;
    std::vector<std::string> e;
    for (int i = 0; i < 4; i++) { e.push_back(eol[c % 3]); c /= 3; }
    const std::vector<std::string> ls{"grammar G;", "R : 'a' // x", "| /b[c-d]/", "/* c", "*/ ;"};
    for (int bad = 0; bad < 5; bad++)
      for (int where = 0; where < 2; where++) {
        std::string t;
        for (int i = 0; i < 5; i++) t += (i == bad && where == 0 ? "$ " : "") + ls[i] + (i == bad && where == 1 ? " $" : "") + (i < 4 ? e[i] : "");
        verdict_c08(t, "eol " + std::to_string(combo) + " " + std::to_string(bad) + " " + std::to_string(where), true);
      }
  }
}

int main(int argc, char **argv)
{
  for (int i = 1; i < argc; i++) if (std::string(argv[i]).compare(0, 4, "--c0") == 0) mode = argv[i] + 3;
  init(argc, argv);
  int more = S().thorough || S().replaying ? 1 : 0;
  const std::vector<std::string> two{"'a'", "A"}, four{"'a'", "\"b\"", "/c/", "A"}, three{"'a'", "/[ab]+/", "R"};
  const std::vector<std::string> ops{"'a'", "A", "'a' 'b'", "( 'a' | A )", "( 'a' |> A )", "'a'*", "A+", "'a'?", "( 'a' 'b' )*", "( 'a'? A? )*", "( 'a'* )*", "()", "( 'a' | )", "/a+/", "''", "( ( 'a' ) )", "( 'a' | 'b' |> 'c' | A )"};
  const std::vector<std::string> terminals{"'a'", "\"a\"", "'a b'", "' '", "\"it's\"", "'say \"x\"'", "'//'", "\"/*\"", "';'", "'|>'", "''", "/a/", "/a b/", "/[^\\n]*/", "/\\./", "/\\*/", "/a|b/", "/(a|b)*c/", "/[\\-a]/", "/[.]/", "/ /",
    "/;/", "/'/", "/[)]/", "A", "B", "grammar", "include", "_", "a1_", "'a'{0}", "/b/{ 12 }", "A{7}", "'\t'", "'\n'"};
  auto all_bodies = [&](const std::function<void(const std::string&)>& f) {
    for_each_body(6 + more, two, f);
    for_each_body(5, three, f);
    for_each_body(4 + more, four, f);
    for (auto& t : terminals) for (auto& u : terminals) { f(t + u); f(t + " " + u); f(t + "* | " + u + "?"); if (more) for (auto& w : terminals) f(t + " " + u + " " + w); }
    for (auto& x : ops) for (auto& y : ops) {
      for (auto& b : {x + " " + y, x + " | " + y, x + " |> " + y, "( " + x + " | " + y + " )*", "( " + x + " " + y + " )+", "( " + x + " |> " + y + " )? " + x, x + "  ( " + y + " | " + x + " ) " + y, "( ( " + x + " | " + y + " ) |> " + x + " )"}) f(b);
      if (more || true) for (size_t z = 0; z < ops.size(); z += more ? 1 : 4)
        for (auto& b : {x + " | " + y + " | " + ops[z], x + " |> " + y + " |> " + ops[z], x + " | " + y + " |> " + ops[z], "( " + x + " | ( " + y + " |> " + ops[z] + " ) )*", x + " ( " + y + " ( " + ops[z] + " )* )*"}) f(b);
    }
  };
  if (mode == "04") {
    all_bodies(body_c04);
    for (auto& f : sample_files()) text_c04(f.second, "sample " + f.first);
    int n = 0;
    for (auto& f : small_files()) text_c04(f, "small " + std::to_string(n++));
  } else if (mode == "05") {
    all_bodies([](const std::string& b) { optimise_c05(grammar_of(b), "body " + enc(b)); });
    for (auto& f : sample_files()) optimise_c05(f.second, "sample " + f.first);
  } else if (mode == "08") {
    int n = 0;
    for (auto& f : small_files()) edits("small" + std::to_string(n++), f, true, [](const std::string& t, const std::string& ct) { verdict_c08(t, ct); });
    for (auto& f : sample_files()) edits(f.first, f.second, more, [](const std::string& t, const std::string& ct) { verdict_c08(t, ct); });
    const std::vector<std::string> toks{"grammar", "include", "A", ":", ";", "|", "|>", "(", ")", "*", "'a'", "/b/", "\"c\"", "{", "1", "}", "/*", "//", "'", "/", "\""};
    sequences(3 + more, "", "", toks, " ", [](const std::string& t, const std::string& ct) { verdict_c08(t, ct); });
    sequences(3 + more, "A : ", "", toks, " ", [](const std::string& t, const std::string& ct) { verdict_c08(t, ct); });
    sequences(3 + more, "A : ", " ; B : A ;", toks, " ", [](const std::string& t, const std::string& ct) { verdict_c08(t, ct); });
    sequences(3 + more, "A:", ";", toks, "", [](const std::string& t, const std::string& ct) { verdict_c08(t, ct); });
    const std::vector<std::string> chars{"a", "\\", "[", "]", "-", "^", "(", ")", "*", "|", ".", "/", "n", "\n", "q"};
    sequences(4 + more, "A : /", "/ ;", chars, "", [](const std::string& t, const std::string& ct) { verdict_c08(t, ct); });
    sequences(3, "A : /[", "]/ ;", chars, "", [](const std::string& t, const std::string& ct) { verdict_c08(t, ct); });
    // several rules, with repeated names
    const std::vector<std::string> rules{"A : 'a' ;", "A : 'other' B ;", "B : A ;", "C : 'c' | A ;", "grammar G;", "grammar A;", "a : 'x' ;", "A1 : A ;"};
    sequences(4 + more, "", "", rules, " ", [](const std::string& t, const std::string& ct) { verdict_c08(t, ct); });
    include_cases();
    other_files_c08();
  } else if (mode == "09") {
    int n = 0;
    for (auto& f : small_files()) { layout_c09("small" + std::to_string(n), f, true); n++; }
    for (auto& f : sample_files()) layout_c09(f.first, f.second, false);
    lines_c09();
  }
  return finish();
}

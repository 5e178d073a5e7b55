// C06, C07 and the part of C05 about decisions: lookahead at every choice of every enumerated grammar.
//
// For every grammar within the bounds and every choice in it, the product of the real lookahead automaton and a model of
// "which alternatives can still be parsed" (choice_model.hpp) is explored: lookahead texts of any length.
#include "grammar_impl.hpp"
#include "grammar_text.hpp"
#include "choice_model.hpp"
#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"

using namespace gi;

static std::string mode;

static bool take(const std::string& ct)
{
  if (S().replaying ? S().replay_text != ct : !mine()) return false;
  begin_case(ct);
  return true;
}

static const size_t MAX_PRODUCT = 4000, MAX_WORK = 400000;

template<typename T> struct Loaded
{
  std::unique_ptr<Grammar<T>> g;
  std::unique_ptr<CompositeATN<T>> catn;
  std::unique_ptr<ChoiceModel<T>> model;
};

template<typename T> static bool setup(Loaded<T>& l, const std::string& path, const GrammarModel& m, bool optimise, std::string& err)
{
  l.g = load<T>(path, err);
  if (!l.g) return false;
  if (optimise) l.g->optimize();
  l.catn.reset(new CompositeATN<T>(*l.g));
  l.model.reset(new ChoiceModel<T>(*l.g, m));
  return !l.model->unspecified;
}

static std::string show_alts(uint64_t s)
{
  std::string r;
  for (int k = 1; k < 64; k++) if (s >> k & 1) r += (r.empty() ? "" : ",") + std::to_string(k);
  return r.empty() ? "none" : r;
}

// Explores one decision. With an automaton, compares; without, only finds out what the model meets on the way.
template<typename T> static std::string explore(ChoiceModel<T>& m, int rule, int node, const std::string& alphabet, const LookaheadDFA<T> *ldfa, bool& complete)
{
  typedef typename ChoiceModel<T>::State State;
  m.nested = m.left_recursive = m.overflow = false;
  complete = true;
  std::map<std::pair<State, int>, std::string> seen;
  std::vector<std::pair<State, int>> todo;
  auto push = [&](const State& s, int ld, const std::string& text) {
    if (seen.emplace(std::make_pair(s, ld), text).second) { todo.emplace_back(s, ld); S().states++; }
  };
  push(m.root(rule, node), 0, "");
  size_t work = 0;
  if (m.left_recursive || m.overflow) { complete = false; return ""; }
  for (size_t k = 0; k < todo.size(); k++) {
    if (!ldfa && m.nested) { complete = false; return ""; }
    work += todo[k].first.size() * alphabet.size();
    if (todo.size() > MAX_PRODUCT || work > MAX_WORK) { complete = false; S().extra["product_capped"]++; return ""; }
    auto cur = todo[k];
    std::string text = seen[cur];
    for (char ch : alphabet) {
      S().transitions++;
      State n = m.step(cur.first, (unsigned char)ch);
      if (m.left_recursive || m.overflow) { complete = false; return ""; }
      uint64_t may = m.alternatives(n, ChoiceModel<T>::MAY), must = m.alternatives(n, ChoiceModel<T>::MUST);
      bool single_may = (may & (may - 1)) == 0;
      std::string t = text + ch;
      int answer = 0, dest = 0;
      if (ldfa) {
        int index = cur.second;
        // the automaton must be deterministic, so the first transition that takes the character is the only one
        int count = 0;
        for (auto& tr : (*ldfa)[index].get_transitions())
          if (tr.label().includes((T)ch)) { if (count++ == 0) dest = tr.dest(); }
        if (count > 1) return "two transitions of one lookahead state take the same character after " + enc(t);
        if (count == 0) answer = -1;
        else if (dest < 0) answer = -dest;
        else if (dest >= ldfa->get_state_num()) return "a lookahead state leads to one that does not exist";
        std::basic_string<T> w;
        for (unsigned char c : t) w += (T)c;
        int got = ldfa->run(w);
        if (got != (answer > 0 ? answer : -1)) return "run gives " + std::to_string(got) + " for " + enc(t) + ", its states lead to " + std::to_string(answer);
        if (answer > 0) {
          if (!(may >> answer & 1)) return "answers " + std::to_string(answer) + " for " + enc(t) + ", which can be parsed by " + show_alts(may);
          if (must & ~(1ull << answer)) return "answers " + std::to_string(answer) + " for " + enc(t) + ", while these can be parsed: " + show_alts(must);
          continue;
        }
        if (may && single_may && must == may) return "does not answer for " + enc(t) + ", which only alternative " + show_alts(may) + " can parse";
        if (answer < 0) {
          if (must) return "gives up at " + enc(t) + ", while these can be parsed: " + show_alts(must);
          continue;
        }
        if (!may) { if (dest >= 0) return "goes on after " + enc(t) + ", which no alternative can parse"; continue; }
        // uncertain only where ranks inside an alternative are involved
        push(n, dest, t);
      } else {
        if (!may || single_may) continue;
        push(n, 0, t);
      }
    }
  }
  return "";
}

template<typename T> static std::string decisions_c06(const GrammarModel& m, const std::string& path, bool optimise)
{
  Loaded<T> l;
  std::string err;
  if (!setup(l, path, m, optimise, err)) return "";
  std::string alphabet = l.model->alphabet();
  for (size_t r = 0; r < l.model->rules.size(); r++)
    for (size_t i = 0; i < l.model->rules[r].nodes.size(); i++) {
      if (l.model->rules[r].nodes[i].next.size() < 2 || l.model->rules[r].nodes[i].next.size() > 60) continue;
      ATNPath place(Identifier(widen(l.model->rules[r].name)), (int)i);
      std::string where = (optimise ? "optimised, " : "") + l.model->rules[r].name + ":" + std::to_string(i) + ": ";
      for (int opt = 1; opt >= (S().thorough ? 0 : 1); opt--) {
        std::unique_ptr<LookaheadDFA<T>> ld;
        try { ld.reset(new LookaheadDFA<T>(*l.catn, l.catn->convert_atn_path(place), opt)); }
        catch (const std::exception&) { S().extra["no_answer_by_recursion"]++; continue; }
        bool complete;
        S().extra["decisions"]++;
        std::string e = explore<T>(*l.model, (int)r, (int)i, alphabet, ld.get(), complete);
        if (!complete) S().extra["incomplete"]++;
        if (!e.empty()) return where + e;
      }
    }
  return "";
}

static void grammar_c06(const std::string& text, const std::string& ct)
{
  if (!take(ct)) return;
  GrammarModel m(text);
  if (m.verdict != GrammarModel::OK) { S().extra["not_well_formed"]++; return; }
  std::string path = write_file(text);
  std::string e = decisions_c06<char>(m, path, false);
  if (e.empty()) e = decisions_c06<char>(m, path, true);
  if (e.empty() && S().cases % 16 == 0) e = decisions_c06<wchar_t>(m, path, false);
  if (e.empty() && S().cases % 16 == 8) e = decisions_c06<unsigned char>(m, path, true);
  if (!e.empty()) violation(e);
  sample(ct);
}

// 1 must verify, -1 must not, 0 not determined
static int expected_verdict(const GrammarModel& m, const std::string& path, bool optimise, std::string& why)
{
  Loaded<char> l;
  std::string err;
  if (!setup(l, path, m, optimise, err)) return 0;
  for (auto& r : l.model->rules) for (auto& n : r.nodes)
    if (n.type == (int)ATNNodeType::Nonterminal && n.callee < 0) { why = "a reference in " + r.name + " is undefined"; return -1; }
  std::string alphabet = l.model->alphabet();
  int verdict = 1;
  why = "lookahead separates the alternatives of every choice without recursion";
  for (size_t r = 0; r < l.model->rules.size(); r++)
    for (size_t i = 0; i < l.model->rules[r].nodes.size(); i++) {
      if (l.model->rules[r].nodes[i].next.size() < 2) continue;
      bool complete;
      l.model->nested = l.model->left_recursive = l.model->overflow = false;
      l.model->root((int)r, (int)i);
      if (l.model->left_recursive) { why = "an alternative at " + l.model->rules[r].name + ":" + std::to_string(i) + " is left-recursive"; return -1; }
      explore<char>(*l.model, (int)r, (int)i, alphabet, nullptr, complete);
      if (l.model->nested || !complete) verdict = 0;
    }
  return verdict;
}

static void grammar_c07(const std::string& text, const std::string& ct, int required = 0)
{
  if (!take(ct)) return;
  GrammarModel m(text);
  if (m.verdict != GrammarModel::OK) { S().extra["not_well_formed"]++; return; }
  std::string path = write_file(text), err, why;
  std::string before;
  int verdict[2];
  for (int o = 0; o < 2; o++) {
    auto g = load<char>(path, err);
    if (!g) return;
    if (o) g->optimize();
    before = dump(*g);
    verdict[o] = g->verify();
    if (g->verify() != (bool)verdict[o]) { violation("verifying twice gives two verdicts"); return; }
    if (dump(*g) != before) { violation("verification changed the grammar"); return; }
    int want = required ? required : expected_verdict(m, path, o, why);
    if (required) why = "a sample grammar meant for parser generation";
    S().extra[want > 0 ? "must_verify" : want < 0 ? "must_not_verify" : "undetermined"]++;
    if (want > 0 && !verdict[o]) { violation((o ? "optimised: " : "") + std::string("does not verify: ") + why); return; }
    if (want < 0 && verdict[o]) { violation((o ? "optimised: " : "") + std::string("verifies: ") + why); return; }
  }
  S().states++;
  S().transitions += 2;
  if (verdict[0] != verdict[1]) violation(std::string("the verdict is ") + (verdict[0] ? "true" : "false") + " as loaded and the opposite when optimised");
  sample(ct);
}

// Where the parser gets to from a place with a text ahead: the next node that is not blank, the end of the rule, or nowhere
template<typename T> struct Walker
{
  Loaded<T>& l;
  std::map<std::pair<int, int>, std::shared_ptr<LookaheadDFA<T>>> cache;
  std::vector<std::vector<int>> ordinal;
  explicit Walker(Loaded<T>& l) : l(l)
  {
    for (auto& r : l.model->rules) {
      ordinal.emplace_back();
      int n = 0;
      for (auto& x : r.nodes) ordinal.back().push_back(x.type == (int)ATNNodeType::Blank ? -1 : n++);
    }
  }
  bool decide(int r, int i, const std::string& text, int& k)
  {
    auto key = std::make_pair(r, i);
    if (!cache.count(key)) {
      std::shared_ptr<LookaheadDFA<T>> d;
      try { d = std::make_shared<LookaheadDFA<T>>(*l.catn, l.catn->convert_atn_path(ATNPath(Identifier(widen(l.model->rules[r].name)), i))); }
      catch (const std::exception&) {}
      cache[key] = d;
    }
    if (!cache[key]) return false;
    k = cache[key]->run(std::basic_string<T>(text.begin(), text.end()));
    return true;
  }
  // from a node, already left; -1 END, -2 nowhere, -3 no lookahead
  int from(int r, int i, const std::string& text)
  {
    for (int steps = 0; steps < 1000; steps++) {
      auto& n = l.model->rules[r].nodes[i];
      if (n.next.empty()) return -1;
      int k = 1;
      if (n.next.size() > 1) {
        if (!decide(r, i, text, k)) return -3;
        if (k < 1) return -2;
        if (k > (int)n.next.size()) return -4;
      }
      i = n.next[k - 1].first;
      if (ordinal[r][i] >= 0) return ordinal[r][i];
    }
    return -5;
  }
};

static void walk_c05(const std::string& text, const std::string& ct, int len)
{
  if (!take(ct)) return;
  GrammarModel m(text);
  if (m.verdict != GrammarModel::OK) return;
  std::string path = write_file(text), err;
  Loaded<char> raw, opt;
  if (!setup(raw, path, m, false, err) || !setup(opt, path, m, true, err)) return;
  Walker<char> a(raw), b(opt);
  std::string alphabet = raw.model->alphabet();
  std::vector<std::string> texts;
  for_each_string(alphabet.substr(0, 6), len, [&](const std::string& t) { texts.push_back(t); return true; });
  std::string problem;
  for (size_t r = 0; r < raw.model->rules.size() && problem.empty(); r++) {
    std::map<int, int> ia, ib;         // ordinal -> node; -1 the start
    ia[-1] = ib[-1] = 0;
    for (size_t i = 0; i < a.ordinal[r].size(); i++) if (a.ordinal[r][i] >= 0) ia[a.ordinal[r][i]] = (int)i;
    for (size_t i = 0; i < b.ordinal[r].size(); i++) if (b.ordinal[r][i] >= 0) ib[b.ordinal[r][i]] = (int)i;
    if (ia.size() != ib.size()) continue;         // reported by the first part
    for (auto& p : ia) {
      if (!problem.empty()) break;
      S().states++;
      for (auto& t : texts) {
        int x = a.from((int)r, p.second, t), y = b.from((int)r, ib[p.first], t);
        S().transitions++;
        if (x == y || x == -3 || y == -3) continue;
        auto show = [](int v) { return v == -1 ? std::string("the end of the rule") : v == -2 ? std::string("no answer") : v < 0 ? "error " + std::to_string(v) : "item " + std::to_string(v); };
        problem = raw.model->rules[r].name + ", after item " + std::to_string(p.first) + ", with " + enc(t) + " ahead: " + show(x) + " before, " + show(y) + " after optimisation";
        break;
      }
    }
  }
  if (!problem.empty()) violation(problem);
  sample(ct);
}

static const char *CALLERS[] = {"", " Z : R 'a' ;", " Z : ( R 'b' )* | 'a' R 'a' ;", " Z : R Y ; Y : Z | 'a' | ;"};

int main(int argc, char **argv)
{
  for (int i = 1; i < argc; i++) if (std::string(argv[i]).compare(0, 4, "--c0") == 0) mode = argv[i] + 3;
  init(argc, argv);
  int more = S().thorough || S().replaying ? 1 : 0;
  auto one = [&](const std::string& text, const std::string& ct) {
    if (mode == "06") grammar_c06(text, ct);
    else if (mode == "07") grammar_c07(text, ct);
    else walk_c05(text, ct, 3 + more);
  };
  auto run = [&](const std::string& text) { one(text, "text " + enc(text)); };
  // one rule, with every kind of caller
  for (int c = 0; c < 4; c++) {
    auto f = [&](const std::string& b) { run("R :" + b + " ;" + CALLERS[c]); };
    for_each_body((c ? 5 : 6) + more, {"'a'"}, f);
    for_each_body((c ? 4 : 5) + more, {"'a'", "'b'"}, f);
    for_each_body(4 + (c ? 0 : more), {"'a'", "/b+/", "'ab'"}, f);
  }
  // two rules
  const std::vector<std::string> second{"'a'", "'b'", "", "'a'?", "'a'*", "( 'a' | 'b' )", "'a' S | 'b'", "'a' S | ", "S 'a' | 'b'", "'a' S 'b' | ", "'a' R | 'b'", "R | 'b'", "R 'a'", "S", "U", "'a' |> 'a' 'b'", "( 'a' |> 'b' )*", "/a*/", "'a' ( 'a' | 'b' )",
    "S? 'a'", "( S 'b' )? 'a'", "'a' S*"};
  for (auto& s : second) for (int c = 0; c < 2; c++)
    for_each_body(4 + (more && !c), {"'a'", "S"}, [&](const std::string& b) { run("R :" + b + " ; S : " + s + " ;" + CALLERS[c]); });
  // undefined references at every place of every rule
  if (mode == "07") {
    for_each_body(4 + more, {"'a'", "S", "U"}, [&](const std::string& b) { run("R :" + b + " ; S : 'b' ;"); run("R : S 'a' ; S : 'b' ; T :" + b + " ;"); });
    for_each_body(5 + more, {"S", "U"}, [&](const std::string& b) { run("R :" + b + " ; S : 'b' ;"); });
  }
  // three rules
  const std::vector<std::string> r3{"S T", "S | T", "S* T", "( S | T )* 'a'", "S? 'a' | T", "'a' S | 'a' T", "S 'a' | S 'b'", "R 'a' | S", "( S T )* | 'a'", "S |> T", "( S |> T ) 'b'"};
  const std::vector<std::string> s3{"'a'", "'a'*", "'b' | T", "'a' T 'b' | 'a'", "T*", "'a' R 'b' | ", "( T 'a' )?", "R", "'a' T |> T", "'a' S | 'b'"};
  const std::vector<std::string> t3{"'a'", "'b'*", "", "S 'b' | 'b'", "'a' R | 'b'", "/[ab]b/", "'a' T 'a' | 'b'", "T 'b' | 'a'", "( 'a' | 'b' )?", "'ab' | 'a'"};
  for (auto& r : r3) for (auto& s : s3) for (auto& t : t3) for (int c = 0; c < 1 + 2 * more; c++)
    run("R : " + r + " ; S : " + s + " ; T : " + t + " ;" + CALLERS[c]);
  // terminals
  const std::vector<std::string> terms{"'a'", "'aa'", "'ab'", "'b'", "' a'", "'a b'", "''", "/a/", "/a+/", "/a*/", "/a*b/", "/(ab)*/", "/(ab)*a/", "/a|b/", "/[a-c]/", "/[^a]/", "/[^ab]+/", "/./", "/.*b/", "/ a/", "/[ a]*b/", "/a?b?/", "/\\./", "/a++/", "/(a|ab)c?/"};
  const std::vector<std::string> joins{" | ", " |> ", "? ", "* ", "+ ", " 'a' | ", " R | "};
  for (auto& x : terms) for (auto& y : terms) {
    for (auto& j : joins) run("R : " + x + j + y + " ;");
    run("R : ( " + x + " | " + y + " )* " + x + " ; Z : R '.' ;");
    for (size_t k = 0; k < terms.size(); k += more ? 1 : 4) { run("R : " + x + " | " + y + " | " + terms[k] + " ;"); run("R : " + x + " |> " + y + " | " + terms[k] + " ;"); run("R : ( " + x + " |> " + y + " )? " + terms[k] + " ;"); }
  }
  // ranks in every place of four alternatives, with overlapping operands
  const std::vector<std::string> ops{"'a'", "'a' 'b'", "'a' 'a'", "'b'", "'a'*", "( 'a' | 'b' )", "( 'a' |> 'a' 'b' )", "S", ""};
  for (auto& x : ops) for (auto& y : ops) for (auto& z : ops)
    for (int j = 0; j < 4; j++) {
      run("R : " + x + (j & 1 ? " |> " : " | ") + y + (j & 2 ? " |> " : " | ") + z + " ; S : 'a' | 'b' |> 'a' 'a' ;");
      if (more) run("R : ( " + x + (j & 1 ? " |> " : " | ") + y + (j & 2 ? " |> " : " | ") + z + " ) 'b' ; S : 'a' | 'b' |> 'a' 'a' ;");
      run("R : " + x + (j & 1 ? " |> " : " | ") + " ( " + y + (j & 2 ? " |> " : " | ") + z + " ) ; S : 'a' | 'b' ;");
    }
  for (auto& f : sample_files()) {
    if (mode == "07") grammar_c07(f.second, "sample " + f.first, f.first == "lua" ? 0 : 1);
    else if (mode == "05") walk_c05(f.second, "sample " + f.first, 3);
    else grammar_c06(f.second, "sample " + f.first);
  }
  return finish();
}

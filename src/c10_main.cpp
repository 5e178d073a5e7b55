// Enumerates scenarios of the reduction pipeline and explores each with the real stage runners (c10_pipeline.cpp).
//
// A scenario is written   w<workers> b<banks> n<words per bank> [d c k t B P<schedule>] <stream>
// d dry run, c captured result, k reduction counter, t two runs, B large rule numbers and offsets; P: one fixed schedule
// The stream is the parse tree in bracket form: ( begins a node with a value, [ one whose callback returns null,
// ) ends a node, | is a chunk boundary. The begin of node i carries rule number 1+i%3 and its position in the stream.
#include "c10_pipeline.hpp"
#include "mc.hpp"
#include "sched.hpp"
#include <algorithm>
#include <sys/mman.h>

using namespace pipe_scenario;
using sched::fail;

#ifdef PYCENTAURUS
static const bool PY = true;
#else
static const bool PY = false;
#endif
static const int CB = PY ? sched::CALLBACK | sched::PROTOCOL : sched::CALLBACK;

struct Node { int id; long start, end; bool null; std::vector<int> children; int parent; int end_chunk; uint64_t value; bool complete; };
static std::vector<Node> g_nodes;
static std::string g_input = "some input text";
static Scenario *g_s;
static int g_context;
static int g_report;
static FILE *g_dump;             // the calls of single schedules, to be replayed through the real listener.py

struct Adapter {                // what listener.py keeps in a worker process
  int kind, has_values, n, nqueue;
  int taken;                    // chunk a chunk reducer holds, -1 if none
  uint8_t values[MAXNODES];
  struct { sched::Message list; int pos; } queue[MAXCHUNKS];
};
struct State {
  uint8_t called[MAXNODES];
  uint8_t taken[MAXCHUNKS], left[MAXCHUNKS];
  int bank[MAXCHUNKS];          // index announced for the chunk, -1
  const void *buffer[MAXCHUNKS];
  int next_merge, begun, runs, counter, captured, finished;
  Adapter ad[MAXPROCS + 1];
};
static State *G;                // part of the explored state

static std::string num(long x) { return std::to_string(x); }

static void reset_run()
{
  memset(G->called, 0, sizeof G->called);
  memset(G->taken, 0, sizeof G->taken); memset(G->left, 0, sizeof G->left);
  for (int i = 0; i < MAXCHUNKS; i++) { G->bank[i] = -1; G->buffer[i] = nullptr; }
  G->next_merge = G->begun = G->finished = 0; G->counter = -1; G->captured = 0;
  for (auto& a : G->ad) { memset((void *)&a, 0, sizeof a); a.taken = -1; }
}

static void check_input(const void *input, long size)
{
  if (size != (long)g_input.size() || memcmp(input, g_input.data(), size)) fail(CB, "a worker does not see the input");
  for (int i = 0; i < 16; i++) if (((const char *)input)[size + i]) fail(CB, "the input is not terminated");
}

void pipe_scenario::at_run_begin(const void *input, long size) { sched::Ghost g; reset_run(); check_input(input, size); }

void pipe_scenario::at_chunk_begin(int chunk, void *buffer, long bytes)
{
  sched::Ghost g;
  if (!buffer) { fail(sched::ANY, "no buffer is given to the parser"); return; }
  sched::allow(buffer, bytes);
  sched::guard((char *)buffer + bytes, 64);
  G->begun++;
  G->buffer[chunk] = buffer;
}
void pipe_scenario::at_result(const void *r)
{
  sched::Ghost g;
  G->finished = 1;
  if (r != g_s->result) fail(sched::CAPTURE, "the parser's result is not reported");
}
void pipe_scenario::at_captured(int count, int index, const uint64_t *w, long n)
{
  sched::Ghost g;
  int want = g_s->capture ? g_s->nchunks : 0;
  if (count != want) { fail(sched::CAPTURE, num(count) + " chunks are recorded instead of " + num(want)); return; }
  if (index < 0) return;
  G->captured++;
  const Chunk& c = g_s->chunk[index];
  if (n < c.n) { fail(sched::CAPTURE, "the recorded chunk " + num(index) + " is too short"); return; }
  for (int i = 0; i < n; i++) {
    uint64_t x = i < c.n ? c.marker[i] : 0;
    if (w[i] != x) { fail(sched::CAPTURE, "the recorded chunk " + num(index) + " differs at word " + num(i)); return; }
  }
}
void pipe_scenario::at_counter(int v) { sched::Ghost g; G->counter = v; }

long pipe_scenario::on_reduce(long id, long start, long end, const uint64_t *values, int n, void *context)
{
  sched::Ghost g;
  int k = -1;
  for (size_t i = 0; i < g_nodes.size(); i++) if (g_nodes[i].complete && g_nodes[i].id == id && g_nodes[i].start == start && g_nodes[i].end == end) k = (int)i;
  if (k < 0) { fail(CB, "reduction of rule " + num(id) + " from " + num(start) + " to " + num(end) + ", which is not in the parse tree"); return 0; }
  const Node& x = g_nodes[k];
  if (G->called[k]) { fail(CB, "node " + num(k) + " is reduced twice"); return 0; }
  G->called[k] = 1;
  std::vector<int> want;
  for (int c : x.children) {
    if (!G->called[c]) { fail(CB, "node " + num(k) + " is reduced before node " + num(c) + " below it"); return 0; }
    if (!g_nodes[c].null) want.push_back(c);
  }
  if (n != (int)want.size()) { fail(CB, "node " + num(k) + " gets " + num(n) + " values instead of " + num(want.size())); return 0; }
  if (!PY) {
    if (context != g_s->context) { fail(CB, "the callback gets another context"); return 0; }
    for (int i = 0; i < n; i++) if (values[i] != g_nodes[want[i]].value) { fail(CB, "value " + num(i) + " of node " + num(k) + " is not that of node " + num(want[i])); return 0; }
    return x.null ? 0 : (long)x.value;
  }
  if (g_dump) {
    fprintf(g_dump, "R %d %d %d %ld %ld %ld %d %ld", sched::process(), G->ad[sched::process()].kind, k, id, start, end, n, (long)values[0]);
    for (int i : want) fprintf(g_dump, " %d", i);
    fprintf(g_dump, "\n");
  }
  // What Stage2ListenerAdapter and Stage3ListenerAdapter do
  Adapter& a = G->ad[sched::process()];
  if (!a.has_values) { fail(CB, "a reduction without a chunk being held"); return 0; }
  if (a.kind == 3) {
    long shift = (long)values[0];
    while (shift > 0) {
      if (!a.nqueue) { fail(CB, "a reduction takes more values than there are"); return 0; }
      auto& q = a.queue[0];
      int m = q.list.n;
      while (q.pos < m && shift > 0) { if (a.n >= MAXNODES) { fail(CB, "too many values"); return 0; } a.values[a.n++] = q.list.b[q.pos]; q.pos++; shift--; }
      if (shift > 0) { for (int i = 1; i < a.nqueue; i++) a.queue[i - 1] = a.queue[i]; a.nqueue--; memset((void *)&a.queue[a.nqueue], 0, sizeof a.queue[0]); }
    }
  } else if (x.end_chunk != a.taken) fail(CB, "node " + num(k) + " is reduced while chunk " + num(a.taken) + " is announced");
  if (n > a.n) { fail(CB, "node " + num(k) + " takes " + num(n) + " values of " + num(a.n)); return 0; }
  for (int i = 0; i < n; i++) if (a.values[a.n - n + i] != want[i] + 1) { fail(CB, "value " + num(i) + " of node " + num(k) + " is not that of node " + num(want[i])); return 0; }
  for (int i = a.n - n; i < a.n; i++) a.values[i] = 0;
  a.n -= n;
  if (x.null) return 0;
  a.values[a.n++] = (uint8_t)(k + 1);
  return 1;
}

void pipe_scenario::on_transfer(int index, int new_index)
{
  // The announcement itself is a step of its own
  if (g_report == sched::PROTOCOL && new_index == -1) sched::point();
  int put = 0;
  sched::Message list{};
  bool get = false;
  {
    sched::Ghost g;
    Adapter& a = G->ad[sched::process()];
    if (a.kind == 2) {
      if (!a.has_values) {
        if (index != -1 || new_index < 0 || new_index >= g_s->nchunks) { fail(sched::PROTOCOL, "a chunk is taken with numbers " + num(index) + ", " + num(new_index)); return; }
        if (G->taken[new_index]) { fail(sched::PROTOCOL, "chunk " + num(new_index) + " is taken twice"); return; }
        if (g_dump) fprintf(g_dump, "X %d %d %d %d\n", sched::process(), a.kind, index, new_index);
        G->taken[new_index] = 1;
        a.has_values = 1; a.n = 0; a.taken = new_index;
      } else {
        if (new_index != -1 || index < 0 || index >= g_s->banks) { fail(sched::PROTOCOL, "a chunk leaves with numbers " + num(index) + ", " + num(new_index)); return; }
        int k = a.taken;
        for (int i = 0; i < g_s->nchunks; i++)
          if (i != k && G->buffer[i] && G->bank[i] >= 0 && (G->bank[i] == index) != (G->buffer[i] == G->buffer[k])) { fail(sched::PROTOCOL, "chunk " + num(k) + " leaves with the number of another buffer"); return; }
        // The merger may have been faster: it waits for the values in the queue
        if (G->bank[k] >= 0 && G->bank[k] != index) { fail(sched::PROTOCOL, "chunk " + num(k) + " leaves with number " + num(index) + " but is merged from buffer " + num(G->bank[k])); return; }
        G->bank[k] = index; G->left[k] = 1;
        put = 1; list.n = (uint8_t)a.n; memcpy(list.b, a.values, a.n);
        memset(a.values, 0, sizeof a.values);
        a.has_values = 0; a.n = 0; a.taken = -1;
      }
    } else {
      if (new_index != G->next_merge) { fail(sched::PROTOCOL, "chunk " + num(new_index) + " is merged when chunk " + num(G->next_merge) + " is due"); return; }
      if (new_index >= g_s->nchunks) { fail(sched::PROTOCOL, "more chunks are merged than there are"); return; }
      if (index < 0 || index >= g_s->banks) { fail(sched::PROTOCOL, "a chunk is merged from buffer " + num(index)); return; }
      if (!G->left[new_index]) G->bank[new_index] = index;
      if (G->bank[new_index] != index) { fail(sched::PROTOCOL, "chunk " + num(new_index) + " is merged from buffer " + num(index) + " instead of " + num(G->bank[new_index])); return; }
      G->next_merge++;
      get = true;
    }
  }
  if (put) sched::channel_put(index, list);
  if (get) list = sched::channel_get(index);
  sched::Ghost g;
  if (g_dump && (put || get)) fprintf(g_dump, "X %d %d %d %d\n", sched::process(), get ? 3 : 2, index, new_index);
  if (get) {
    Adapter& a = G->ad[sched::process()];
    if (!a.has_values) { a.has_values = 1; a.n = list.n; memcpy(a.values, list.b, list.n); }
    else if (a.nqueue < MAXCHUNKS) { a.queue[a.nqueue].list = list; a.queue[a.nqueue].pos = 0; a.nqueue++; }
  }
}

static bool whole() { for (auto& x : g_nodes) if (!x.complete) return false; return true; }

void pipe_scenario::at_worker(int kind, const void *input, long size)
{
  sched::Ghost g;
  Adapter& a = G->ad[sched::process()];
  a.kind = kind; a.taken = -1;
  check_input(input, size);
}
void pipe_scenario::at_worker_end(int kind)
{
  sched::Ghost g;
  Adapter& a = G->ad[sched::process()];
  if (kind == 2) {
    if (a.has_values) fail(sched::PROTOCOL, "a chunk reducer ends without handing over its chunk");
    return;
  }
  if (!a.has_values) { fail(sched::PROTOCOL, "the merger ends without a chunk"); return; }
  if (!whole()) return;
  int want = g_nodes[0].null ? 0 : 1;
  if (a.n > 1 || a.n != want || (want && a.values[0] != 1)) fail(sched::PROTOCOL, "the value delivered is not that of the root");
}

static void check_run()
{
  if (G->begun != g_s->nchunks || !G->finished) { fail(g_s->dry ? sched::CAPTURE | sched::TERMINATION : sched::TERMINATION, "the parser has not produced all its chunks"); return; }
  if (g_s->capture && G->captured != g_s->nchunks) { fail(sched::CAPTURE, "not every recorded chunk was seen"); return; }
  int n = 0;
  for (size_t i = 0; i < g_nodes.size(); i++) {
    if (G->called[i]) n++;
    bool want = !g_s->dry && g_nodes[i].complete;
    if (want != (bool)G->called[i]) { fail(CB, "node " + num(i) + (want ? " is never reduced" : " is reduced")); return; }
  }
  if (!PY && g_s->counter && G->counter != n) { fail(CB, "the counter is " + num(G->counter) + " after " + num(n) + " reductions"); return; }
  if (PY && !g_s->dry) {
    if (G->next_merge != g_s->nchunks) { fail(sched::PROTOCOL, "not every chunk is merged"); return; }
    for (int i = 0; i < g_s->banks; i++) if (sched::channel_count(i)) { fail(sched::PROTOCOL, "values are left behind in a queue"); return; }
  }
}
void pipe_scenario::at_run_end() { sched::Ghost g; check_run(); G->runs++; }

// Every symbol was reduced (in the last run)
static bool all_reduced()
{
  if (g_s->dry || G->runs < (g_s->twice ? 1 : 0)) return g_s->dry;
  for (size_t i = 0; i < g_nodes.size(); i++) if (g_nodes[i].complete && !G->called[i]) return false;
  return !PY || G->next_merge == g_s->nchunks;
}

static void at_end() { if (G->runs != (g_s->twice ? 2 : 1)) fail(sched::TERMINATION, "the run does not finish"); }

// ---- scenarios ----------------------------------------------------------------------------------------------
static bool g_races;
static uint64_t g_max_states;

static bool read_scenario(const std::string& text, int& policy)
{
  Scenario& s = *g_s;
  memset((void *)&s, 0, sizeof s);
  g_nodes.clear();
  policy = 0;
  bool big = false;
  std::istringstream is(text);
  std::string t, stream;
  while (is >> t) {
    if (t[0] == 'w') s.workers = atoi(t.c_str() + 1);
    else if (t[0] == 'b') s.banks = atoi(t.c_str() + 1);
    else if (t[0] == 'n') s.words = atoi(t.c_str() + 1);
    else if (t[0] == 'P') policy = atoi(t.c_str() + 1);
    else if (t == "d") s.dry = true;
    else if (t == "c") s.capture = true;
    else if (t == "k") s.counter = true;
    else if (t == "t") s.twice = true;
    else if (t == "B") big = true;
    else stream = t;
  }
  s.result = (const void *)0x123456789a;
  s.context = &g_context;
  s.nchunks = 1;
  std::vector<int> open;
  int pos = 0;
  for (char ch : stream) {
    if (ch == '|') { if (s.chunk[s.nchunks - 1].n > s.words) return false; if (++s.nchunks > MAXCHUNKS) return false; continue; }
    Chunk& c = s.chunk[s.nchunks - 1];
    long off = big ? (1l << 47) + 65537l * pos : pos;
    pos++;
    if (c.n >= MAXWORDS) return false;
    if (ch == '(' || ch == '[') {
      Node x{};
      int i = (int)g_nodes.size();
      if (i >= MAXNODES) return false;
      x.id = big ? 0x7fff - i % 3 : 1 + i % 3; x.start = off; x.null = ch == '['; x.parent = open.empty() ? -1 : open.back();
      x.value = (0x9000000100000000ull | (uint64_t)(i + 1) * 0x1001) | (i % 2 ? 0x6000000000000000ull : 0);
      if (x.parent >= 0) g_nodes[x.parent].children.push_back(i);
      g_nodes.push_back(x);
      open.push_back(i);
      c.marker[c.n++] = 1ull << 63 | (uint64_t)x.id << 48 | (uint64_t)off;
    } else {
      if (open.empty()) return false;
      Node& x = g_nodes[open.back()];
      open.pop_back();
      x.end = off; x.complete = true; x.end_chunk = s.nchunks - 1;
      c.marker[c.n++] = (uint64_t)x.id << 48 | (uint64_t)off;
    }
  }
  return s.chunk[s.nchunks - 1].n <= s.words;
}

static void run_case(const std::string& text)
{
  int policy;
  if (!read_scenario(text, policy)) { fprintf(stderr, "bad scenario %s\n", text.c_str()); abort(); }
  mc::begin_case(text);
  if (g_dump) {
    if (!policy) return;
    fprintf(g_dump, "C %s\n", text.c_str());
    for (auto& x : g_nodes) fprintf(g_dump, "N %d %ld %ld %d\n", x.id, x.start, x.end, (int)x.null);
  }
  sched::Options o;
  o.report = g_report; o.track_races = g_races; o.policy = policy; o.tick = [] { mc::tick(); return !mc::late(); }; o.max_states = g_max_states;
  if (g_report == sched::CALLBACK || g_report == sched::PROTOCOL) o.done = all_reduced;
  memset((void *)G, 0, sizeof *G);
  sched::set_input(g_input);
  sched::Outcome r = sched::explore(pipe_scenario::run, g_s, o, G, sizeof *G, at_end);
  if (g_dump) fprintf(g_dump, "E\n");
  auto& S = mc::S();
  S.states += r.states; S.transitions += r.transitions; S.validated++;
  S.extra["terminal_states"] += r.terminals;
  if (!policy) { S.extra["explored_completely"] += r.complete; S.extra["capped"] += !r.complete; S.extra["max_states_of_a_scenario"] = std::max<uint64_t>(S.extra["max_states_of_a_scenario"], r.states); }
  if (getenv("MC_STATS") && !policy) fprintf(stderr, "%s: %lu states, %lu transitions, %lu ends%s\n", text.c_str(), (unsigned long)r.states, (unsigned long)r.transitions, (unsigned long)r.terminals, r.complete ? "" : " (capped)");
  if (!r.violation.empty()) mc::violation(r.violation + "\nschedule: " + r.schedule);
  mc::sample(text + ": " + std::to_string(r.states) + " states, " + std::to_string(r.terminals) + " ends");
}
static void add(const std::string& text) { if (mc::mine()) run_case(text); }

// All trees of n nodes in bracket form
static void trees(int n, std::vector<std::string>& out)
{
  std::function<void(std::string, int, int)> rec = [&](std::string s, int open, int left) {
    if (!left && !open) { out.push_back(s); return; }
    if (left && (open || s.empty())) rec(s + "(", open + 1, left - 1);
    if (open && (open > 1 || !left)) rec(s + ")", open - 1, left);
  };
  rec("", 0, n);
}
static std::string nulls(std::string s, unsigned mask) { int i = 0; for (char& c : s) if (c == '(') { if (mask >> i & 1) c = '['; i++; } return s; }
// Splits into chunks of exactly `size` markers; the last may be shorter (empty if the stream fills the others)
static std::string full_chunks(const std::string& s, int size)
{
  std::string r;
  for (size_t i = 0; i < s.size(); i++) { r += s[i]; if ((i + 1) % size == 0) r += '|'; }
  return r;
}
static std::string cut(const std::string& s, unsigned mask) { std::string r; for (size_t i = 0; i < s.size(); i++) { r += s[i]; if (mask >> i & 1) r += '|'; } return r; }


// Every schedule of these
static void add_schedules(const std::string& prop, bool thorough)
{
  bool races = prop == "c12";
  std::vector<std::string> v;
  auto all = [&](const std::vector<std::string>& confs, const std::vector<std::string>& streams) {
    for (auto& c : confs) for (auto& s : streams) v.push_back(c + " " + s);
  };
  const std::vector<std::string> three{"((|[]|))|", "(()|[]|()|)"}, two{"((|))|", "([|](|))", "(()|())"}, one{"(|)", "[|]|", "()|"};
  if (!races) {
    if (thorough) {
      all({"w2 b4 n2"}, {"((|[]|()|))|"});
      all({"w3 b6 n2"}, {"((|))|"});
      all({"w4 b4 n2"}, {"[|]|"});
      all({"w3 b3 n2", "w2 b3 n2"}, {"((|[]|()|))|"});
      all({"w3 b4 n4", "w4 b4 n4"}, two);
      all({"w1 b2 n4 t", "w2 b2 n4 t"}, three);
    }
    all({"w2 b2 n4 t"}, {"(|)"});
    all({"w2 b3 n2"}, {"((|[]|))|"});
    all({"w3 b3 n2"}, {"((|))|"});
    all({"w2 b2 n2"}, {"((|[]|()|))|"});
    all({"w4 b4 n2", "w3 b6 n2"}, {"(|)"});
    all({"w3 b4 n2", "w3 b3 n2"}, one);
    all({"w2 b4 n4", "w2 b2 n4"}, two);
    all({"w2 b4 n2", "w2 b3 n2", "w2 b2 n2"}, one);
    if (!PY) all({"w2 b2 n4 k", "w1 b2 n4 k t", "w2 b2 n4 c"}, two);
    all({"w1 b2 n4 B", "w1 b3 n4", "w1 b1 n4"}, two);
    all({"w1 b2 n4", "w1 b4 n4", "w1 b1 n4"}, three);
    all({"w1 b2 n4 t"}, two);
    all({"w1 b2 n2"}, {"((|[]|()|))|", "((|((|))|))|", "((|((|[]|))|))|"});
    all({"w1 b2 n4"}, {"(()|()|()|()|)"});
    all({"w1 b2 n8", "w2 b2 n8", "w1 b1 n8"}, {"(([])())", "((([])(|))[])|"});
    // A parser that gives up leaves an incomplete tree
    if (prop != "c10" && prop != "c13") all({"w1 b2 n4", "w2 b2 n4"}, {"((", "(()|(|", "(()|"});
  } else {
    // The ordering of accesses is part of the state
    all({"w2 b2 n4"}, {"(|)", "[|]|"});
    all({"w2 b2 n4"}, {"((|[]))"});
    all({"w2 b3 n4", "w2 b4 n4"}, {"(|)"});
    if (thorough || !PY) {
      all({"w2 b2 n3"}, {"(()|[]|)"});
      all({"w1 b3 n3"}, {"((|[]|))|"});
    }
    if (thorough) {
      all({"w2 b3 n3"}, {"(()|[]|)"});
      all({"w3 b3 n2", "w2 b2 n2 t"}, {"(|)"});
    }
    all({"w1 b2 n4", "w1 b3 n3", "w1 b1 n3"}, {"(()|[]|)"});
    all({"w1 b2 n4", "w1 b1 n3"}, {"((|[]|))|"});
    all({"w1 b2 n4", "w1 b1 n4"}, two);
    all({"w1 b2 n2 t", "w1 b1 n2 t"}, {"(|)"});
    all({"w1 b2 n4", "w1 b2 n4 k", "w1 b2 n4 c", "w2 b2 n4 k"}, {"(())", "(|)"});
    all({"w1 b2 n2"}, {"((|[]|()|))|", "((|((|))|))|"});
    all({"w1 b2 n4"}, {"(()|()|()|()|)"});
    all({"w1 b2 n6", "w1 b1 n6"}, {"((((((|))))))", "(((((|([]|))))))", "[[[[[[|]]]]]]|"});
  }
  for (auto& x : v) add(x);
}

// Dry runs and captured results
static void add_captures(bool thorough)
{
  for (std::string c : {"w1 b1 n2", "w1 b2 n2", "w1 b3 n2", "w2 b4 n2"})
    for (std::string f : {"d", "d c", "d t", "d c t"})
      for (std::string s : {"()", "()|", "((|))", "((|[]|))|", "((|[]|()|))|", "((", "((|("}) add(c + " " + f + " " + s);
  for (std::string s : {"(|)", "((|))", "((|[]|))|", "(()|[])"})
    for (std::string c : {"w1 b1 n4 c", "w1 b2 n4 c", "w2 b2 n4 c", "w2 b3 n2 c", "w1 b2 n4 c t", "w1 b2 n4"}) if (s != "(()|[])" || c.find("n2") == std::string::npos) add(c + " " + s);
  if (thorough) for (std::string s : {"((|[]|()|))|", "(()|[]|()|)"}) for (std::string c : {"w2 b4 n2 c", "w2 b2 n2 c t", "w3 b3 n2 c"}) add(c + " " + s);
}

// Every tree, every choice of null values and every way of splitting the stream, each under some fixed schedules
static void add_trees(const std::string& prop, bool thorough)
{
  int full = thorough ? 6 : prop == "c12" ? 4 : 5, cuts = thorough ? 5 : prop == "c12" ? 3 : 4;
  std::string extra = prop == "c14" ? " c" : PY ? "" : " k";
  auto both = [&](const std::string& conf, const std::string& s) {
    for (int p = 1; p <= 3; p++) add(conf + extra + " P" + std::to_string(p) + " " + s);
    if (prop == "c14") add(conf + " c d P1 " + s);
  };
  for (int n = 1; n <= full; n++) {
    std::vector<std::string> t;
    trees(n, t);
    for (auto& x : t)
      for (unsigned m = 0; m < 1u << n; m++) {
        std::string s = nulls(x, m);
        for (int size = 1; size <= 2 * n; size++) {
          if (2 * n / size + 1 > MAXCHUNKS - 1) continue;
          both("w2 b4 n" + std::to_string(size) + (m & 1 ? " B" : ""), full_chunks(s, size));
        }
        if (n <= cuts) for (unsigned c = 0; c < 1u << (2 * n - 1); c++) both("w2 b3 n" + std::to_string(2 * n + 1), cut(s, c));
      }
  }
  // Deep and wide trees
  for (int n : {7, 12, 20, 33, 45})
    for (int size : {8, 16, 64}) {
      if (2 * n / size + 1 > MAXCHUNKS - 1) continue;
      std::string deep(n, '('), wide = "(", nul;
      deep += std::string(n, ')');
      for (int i = 1; i < n; i++) { wide += i % 5 == 3 ? "[]" : "()"; nul += "(["; }
      wide += ")";
      std::string alt;
      for (int i = 0; i < n; i++) alt += i % 2 ? '[' : '(';
      alt += std::string(n, ')');
      for (auto& s : {deep, wide, alt}) both("w2 b4 n" + std::to_string(size), full_chunks(s, size));
    }
}

int main(int argc, char **argv)
{
  mc::init(argc, argv);
  auto& S = mc::S();
  std::string prop;
  for (int i = 1; i < argc; i++) if (!strncmp(argv[i], "--c1", 4)) prop = argv[i] + 2;
  g_s = (Scenario *)mmap(NULL, sizeof(Scenario), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  G = (State *)mmap(NULL, sizeof(State), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  g_races = prop == "c12";
  g_report = prop == "c10" ? sched::CALLBACK : prop == "c11" ? sched::TERMINATION | sched::RELEASE : prop == "c12" ? sched::RACE
    : prop == "c13" ? sched::PROTOCOL : prop == "c14" ? sched::CAPTURE | sched::TERMINATION : (int)sched::ANY;
  g_max_states = S.thorough ? 60000000 : 12000000;
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--dump")) g_dump = stdout;
  if (S.replaying) { run_case(S.replay_text); return mc::finish(); }
  if (prop == "c14") add_captures(S.thorough);
  else add_schedules(prop, S.thorough);
  add_trees(prop, S.thorough);
  return mc::finish();
}

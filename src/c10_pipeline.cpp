// The real stage runners in the scenario of Context::parse() (C++ mode) or of the worker processes of the
// Python interface (PYCENTAURUS). Compiled with instrumentation; see sched.hpp.
#include <cstddef>
#include <cstring>
#include <tuple>
#include <vector>
#include "CodeGenInterface.hpp"
#include "Stage1Runner.hpp"
#include "Stage2RunnerNonRecursive.hpp"
#include "Stage3RunnerNonRecursive.hpp"
#include "c10_pipeline.hpp"
#include "sched.hpp"
#include <vector>

using namespace Centaurus;
using namespace pipe_scenario;

namespace {

// Fills the pages it is given with the marker stream of the scenario, as the generated parser does
class StreamParser : public IParser
{
  const Scenario& s;
public:
  StreamParser(const Scenario& s) : s(s) {}
  const void *operator()(BaseListener *listener, const void *input) override
  {
    for (int c = 0; c < s.nchunks; c++) {
      uint64_t *page = static_cast<uint64_t *>(listener->feed_callback());
      at_chunk_begin(c, page, (long)s.words * 8);
      int i = 0;
      for (; i < s.chunk[c].n; i++) page[i] = s.chunk[c].marker[i];
      for (; i < s.words; i++) page[i] = 0;
    }
    return s.result;
  }
};

long CENTAURUS_CALLBACK reduce(const SymbolEntry *symbol, uint64_t *values, int n, void *context)
{
  return on_reduce(symbol->id, symbol->start, symbol->end, values, n, context);
}
void CENTAURUS_CALLBACK transfer(int index, int new_index, void *) { on_transfer(index, new_index); }

const char *PATH = "input";

void finish_stage1(Stage1Runner *st1, const Scenario& s)
{
  at_result(st1->get_result());
  auto& chunks = st1->result_chunks();
  at_captured((int)chunks.size(), -1, nullptr, 0);
  for (size_t i = 0; i < chunks.size(); i++) at_captured((int)chunks.size(), (int)i, reinterpret_cast<const uint64_t *>(chunks[i].begin()), (long)chunks[i].size());
}

#if PYCENTAURUS

struct Job { const Scenario *s; int pid; };

template<typename Runner, int KIND> void *worker(void *arg)
{
  auto& job = *static_cast<const Job *>(arg);
  const Scenario& s = *job.s;
  auto runner = new Runner(PATH, s.words * 8, s.banks, job.pid);
  at_worker(KIND, runner->get_input(), (long)runner->get_input_size());
  runner->register_python_listener(reduce, transfer);
  runner->start();
  runner->wait();
  at_worker_end(KIND);
  delete runner;
  return nullptr;
}

void run_once(const Scenario& s)
{
  static Job job;
  job.s = &s; job.pid = get_current_pid();
  StreamParser parser(s);
  auto st1 = new Stage1Runner(PATH, &parser, s.words * 8, s.banks, s.dry, s.capture);
  at_run_begin(st1->get_input(), (long)st1->get_input_size());
  st1->start();
  int t[8], n = 0;
  if (!s.dry) {
    t[n++] = sched::spawn_process(worker<Stage3Runner, 3>, &job);
    for (int i = 0; i < s.workers; i++) t[n++] = sched::spawn_process(worker<Stage2Runner, 2>, &job);
  }
  st1->wait();
  for (int i = 0; i < n; i++) sched::join_process(t[i]);
  finish_stage1(st1, s);
  delete st1;
  at_run_end();
}

#else

void run_once(const Scenario& s)
{
  int pid = get_current_pid();
  StreamParser parser(s);
  auto counter = s.counter ? new std::atomic<int>(0) : nullptr;
  std::vector<BaseRunner *> runners;
  auto st1 = new Stage1Runner(PATH, &parser, s.words * 8, s.banks, s.dry, s.capture);
  runners.push_back(st1);
  at_run_begin(st1->get_input(), (long)st1->get_input_size());
  if (!s.dry) {
    for (int i = 0; i < s.workers; i++) {
      auto st2 = new Stage2Runner(PATH, s.words * 8, s.banks, pid, s.context, counter);
      st2->register_listener(reduce);
      runners.push_back(st2);
    }
    auto st3 = new Stage3Runner(PATH, s.words * 8, s.banks, pid, s.context, counter);
    st3->register_listener(reduce);
    runners.push_back(st3);
  }
  for (auto p : runners) p->start();
  for (auto p : runners) p->wait();
  finish_stage1(st1, s);
  if (counter) { at_counter(counter->load()); delete counter; }
  for (auto p : runners) delete p;
  at_run_end();
}

#endif
}

void pipe_scenario::run(void *arg)
{
  const Scenario& s = *static_cast<const Scenario *>(arg);
  for (int i = 0; i < (s.twice ? 2 : 1); i++) run_once(s);
}

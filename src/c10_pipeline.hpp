// Interface between the instrumented scenario (c10_pipeline.cpp, with the real stage runners) and the
// harness that enumerates scenarios and judges what happens (c10_main.cpp).
#pragma once
#include <cstdint>

namespace pipe_scenario {

static const int MAXNODES = 48, MAXCHUNKS = 14, MAXWORDS = 96, MAXBANKS = 8, MAXPROCS = 8;

struct Chunk { int n; uint64_t marker[MAXWORDS]; };
struct Scenario {
  int workers, banks, words;            // words: 8-byte words in a bank
  bool dry, capture, counter, twice;
  int nchunks;
  Chunk chunk[MAXCHUNKS];
  const void *result;                   // what the parser returns
  void *context;                        // given to the callbacks (C++ mode)
};

// Implemented by the instrumented part
void run(void *scenario);

// Implemented by the harness, called in the model
void at_run_begin(const void *input, long input_size);
void at_counter(int value);
void at_chunk_begin(int chunk, void *buffer, long bank_bytes);
void at_result(const void *result);
void at_captured(int count, int index, const uint64_t *words, long nwords);
void at_run_end();
long on_reduce(long id, long start, long end, const uint64_t *values, int n, void *context);
void on_transfer(int index, int new_index);
void at_worker(int kind, const void *input, long input_size);   // a process of the multi-process mode begins its work (2 or 3)
void at_worker_end(int kind);

}

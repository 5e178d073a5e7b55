// Runtime of the explicit-state explorer (see sched.hpp). Compiled without instrumentation.
#include "sched.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

extern "C" char __data_start, _end;

namespace sched {

static const int MAXT = 16, MAXPROC = 8;
static const uint64_t STACK_BASE = 0x500000000000ull, STACK_SIZE = 256 << 10, STACK_STRIDE = 1 << 20;
static const uint64_t ARENA_BASE = 0x510000000000ull, ARENA_STRIDE = 64ull << 20;
static const uint64_t MAP_BASE = 0x520000000000ull, MAP_PROC = 64ull << 30, MAP_STRIDE = 1ull << 30;
static const uint64_t CANON_BASE = 0x530000000000ull, CANON_STRIDE = 4ull << 30;
static const uint64_t OBJ_SIZE = 512ull << 20;
static const int MAXSLOT = 6, MAXMAP = 96, MAXBLOCK = 400, MAXSEM = 8, MAXFD = 64, MAXCHAN = 8, MAXENT = 6000, MAXALLOW = 64;

enum Op { OP_NONE, OP_ATOMIC, OP_PLAIN, OP_SEM_WAIT, OP_SEM_POST, OP_JOIN, OP_MUTEX, OP_UNLOCK, OP_COND, OP_YIELD, OP_CHAN_PUT, OP_CHAN_GET };
enum Status { UNUSED, LIVE, FINISHED };

struct Thread {
  int status, op, proc, joined, is_process, detached, target, weak;
  int choice;                   // 1: spurious failure
  int waiting_cond;             // index+1 while blocked in a condition wait
  uint64_t obj;
  uint64_t sp;
  uint64_t arena_used;
  uint64_t steps;               // not part of the state
  void *(*fn)(void *);
  void *arg, *ret;
};
struct Block { uint64_t addr, size; int live, proc; };
struct Sem { char name[100]; int exists, linked, value, open, unnamed; uint64_t key; };
struct ShmObj { char name[100]; int exists, linked; uint64_t size; };
struct Map { uint64_t addr, len, off; int kind, slot, live, prot, proc; };      // kind 1 shared object, 2 anonymous, 3 file
struct Fd { int used, kind, slot, proc; };
struct Range { uint64_t a, b; };
struct Mutex { uint64_t key; int owner; };

struct World {
  Thread th[MAXT];
  int nth, nproc;
  int cur;
  int nblock[MAXT];
  Sem sem[MAXSEM];
  ShmObj shm[MAXSLOT];
  int nshm;
  int nmap;
  int map_count[MAXPROC];
  Fd fd[MAXFD];
  Mutex mutex[16];
  int nmutex;
  struct { Message q[8]; int n; } chan[MAXCHAN];
  int nallowed;
  struct { int slot; uint64_t a, b; } window[8];        // limited to the allowed parts
  int nwindow;
  uint32_t pending[64];         // threads that have not yet acquired what an object was last given
  // Only the used parts of these are saved
  Map map[MAXMAP];
  Range allowed[MAXALLOW];
  Block block[MAXT][MAXBLOCK];
};
#define WORLD_FIXED offsetof(World, map)

static World *W;                // everything here lives outside .data/.bss of the snapshot
struct Entry { uint64_t key; };
struct Control {
  Options opt;
  bool in_fiber, running, failed, aborted;
  int ghost_depth;
  std::string *what;
  uint64_t sched_sp;
  std::unordered_map<uint64_t, int> *ent;
  uint64_t key[MAXENT];
  uint64_t wm[MAXENT];
  uint64_t rm[MAXT][MAXENT];
  int nent;
  int max_nth;
  std::unordered_map<uint64_t, int> *obj;       // synchronisation objects
  std::unordered_set<uint64_t> *racy;           // plain words whose accesses are scheduling points
  size_t racy_before;
  std::unordered_set<uint64_t> *step_words;     // shared words read since the last scheduling point
  uint64_t step_accesses;
  std::string *input;
  void *ghost; size_t ghost_size;
  struct { uint64_t addr, len; int kind, slot; uint64_t off; } real[MAXMAP * 4];
  int nreal;
  int memfd[MAXSLOT];
  std::vector<std::pair<uint64_t, uint64_t>> *shm_words;        // known touched words of shared objects: canonical address
  std::unordered_set<uint64_t> *shm_known;
  bool seeded;
  char *data_a, *data_b;
};
static Control *C;              // allocated once, never part of the state

static void init_memory();
static Control& ctl() { if (!C) init_memory(); return *C; }

bool in_model() { return C && C->in_fiber && C->ghost_depth == 0; }
int self() { return W->cur; }
int process() { return W->th[W->cur].proc; }
Ghost::Ghost() { if (C && C->in_fiber) C->ghost_depth++; }
Ghost::~Ghost() { if (C && C->in_fiber) C->ghost_depth--; }

static void init_memory()
{
  C = (Control *)mmap(NULL, sizeof(Control), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  new (C) Control();
  C->what = new std::string; C->ent = new std::unordered_map<uint64_t, int>; C->obj = new std::unordered_map<uint64_t, int>;
  C->racy = new std::unordered_set<uint64_t>; C->step_words = new std::unordered_set<uint64_t>; C->input = new std::string;
  C->shm_words = new std::vector<std::pair<uint64_t, uint64_t>>; C->shm_known = new std::unordered_set<uint64_t>;
  W = (World *)mmap(NULL, sizeof(World), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  auto reserve = [](uint64_t a, uint64_t n) {
    void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)a) { fprintf(stderr, "cannot reserve memory at %lx\n", a); abort(); }
  };
  for (int t = 0; t < MAXT; t++) { reserve(STACK_BASE + t * STACK_STRIDE, STACK_SIZE); reserve(ARENA_BASE + t * ARENA_STRIDE, ARENA_STRIDE); }
  for (int s = 0; s < MAXSLOT; s++) {
    C->memfd[s] = (int)syscall(SYS_memfd_create, "mc", 0);
    if (C->memfd[s] < 0 || syscall(SYS_ftruncate, C->memfd[s], OBJ_SIZE)) abort();
    void *p = (void *)syscall(SYS_mmap, CANON_BASE + s * CANON_STRIDE, OBJ_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, C->memfd[s], 0);
    if (p != (void *)(CANON_BASE + s * CANON_STRIDE)) abort();
  }
  C->data_a = (char *)(((uint64_t)&__data_start + 15) & ~15ull);
  C->data_b = (char *)(((uint64_t)&_end) & ~15ull);
}

// ---- fibers -------------------------------------------------------------------------------------------------
extern "C" void sched_switch(uint64_t *save, uint64_t to);
asm(R"(
.text
.globl sched_switch
.type sched_switch,@function
sched_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sched_switch,.-sched_switch
)");

static void leave_fiber()
{
  C->in_fiber = false;
  sched_switch(&W->th[W->cur].sp, C->sched_sp);
  C->in_fiber = true;
}

static void fiber_main()
{
  Thread& t = W->th[W->cur];
  C->in_fiber = true;
  void *r = t.fn(t.arg);
  Thread& u = W->th[W->cur];
  u.ret = r;
  u.status = FINISHED;
  u.op = OP_NONE;
  leave_fiber();
  abort();
}

static uint64_t stack_top(int t) { return STACK_BASE + t * STACK_STRIDE + STACK_SIZE - 64; }

static int new_thread(void *(*f)(void *), void *arg, int proc)
{
  if (W->nth >= MAXT) { fail(ANY, "too many threads"); return -1; }
  int t = W->nth++;
  C->max_nth = std::max(C->max_nth, W->nth);
  Thread& x = W->th[t];
  memset((void *)&x, 0, sizeof x);
  x.status = LIVE; x.op = OP_NONE; x.proc = proc; x.fn = f; x.arg = arg;
  uint64_t *sp = (uint64_t *)stack_top(t);
  *--sp = 0;
  *--sp = (uint64_t)fiber_main;
  for (int i = 0; i < 6; i++) *--sp = 0;
  x.sp = (uint64_t)sp;
  return t;
}

void fail(int category, const std::string& what)
{
  if (!C) { fprintf(stderr, "%s\n", what.c_str()); abort(); }
  if (!(category & C->opt.report) && category != ANY) return;
  if (!C->failed) { Ghost g; C->failed = true; *C->what = what; }
  if (C->in_fiber) { C->ghost_depth = 0; C->aborted = true; leave_fiber(); abort(); }
}

// A fatal condition (the program could not go on)
static void fatal(const std::string& what) { fail(ANY, what); }

// ---- memory classes -----------------------------------------------------------------------------------------
static bool on_stack(uint64_t a) { return a >= STACK_BASE && a < STACK_BASE + MAXT * STACK_STRIDE; }
static bool in_arena(uint64_t a) { return a >= ARENA_BASE && a < ARENA_BASE + MAXT * ARENA_STRIDE; }
static bool in_maps(uint64_t a) { return a >= MAP_BASE && a < MAP_BASE + MAXPROC * MAP_PROC; }
static bool in_data(uint64_t a) { return a >= (uint64_t)C->data_a && a < (uint64_t)C->data_b; }

static Block *find_block(uint64_t a)
{
  int t = (int)((a - ARENA_BASE) / ARENA_STRIDE);
  int lo = 0, hi = W->nblock[t];
  while (lo < hi) { int m = (lo + hi) / 2; if (W->block[t][m].addr <= a) lo = m + 1; else hi = m; }
  return lo ? &W->block[t][lo - 1] : nullptr;
}
static Map *find_map(uint64_t a)
{
  for (int i = W->nmap; i-- > 0;) if (W->map[i].live && a >= W->map[i].addr && a < W->map[i].addr + W->map[i].len) return &W->map[i];
  return nullptr;
}
static std::string name_of(uint64_t a)
{
  char b[120];
  if (in_arena(a)) { Block *k = find_block(a); snprintf(b, sizeof b, "heap block %ld of thread %ld, offset %ld", k ? (long)(k - W->block[(a - ARENA_BASE) / ARENA_STRIDE]) : -1L, (long)((a - ARENA_BASE) / ARENA_STRIDE), k ? (long)(a - k->addr) : 0L); }
  else if (a >= CANON_BASE) snprintf(b, sizeof b, "shared memory at offset 0x%lx", (unsigned long)((a - CANON_BASE) % CANON_STRIDE));
  else if (in_data(a)) snprintf(b, sizeof b, "a global variable");
  else snprintf(b, sizeof b, "address 0x%lx", (unsigned long)a);
  return b;
}

// Address under which all threads know this byte, 0 if it is of no interest
static uint64_t canonical(uint64_t a)
{
  if (in_arena(a) || in_data(a)) return a;
  if (in_maps(a)) { Map *m = find_map(a); if (m && m->kind == 1) return CANON_BASE + m->slot * CANON_STRIDE + m->off + (a - m->addr); return 0; }
  return 0;
}

static bool check_access(uint64_t a, size_t n, bool write)
{
  if (on_stack(a)) return false;
  if (in_arena(a)) {
    Block *b = find_block(a);
    if (!b || a + n > b->addr + b->size) { fail(RACE, std::string(write ? "writes" : "reads") + " outside a heap block: " + name_of(a)); return false; }
    if (!b->live) { fail(RACE, std::string(write ? "writes" : "reads") + " a heap block that was released: " + name_of(a)); return false; }
    if (b->proc != W->th[W->cur].proc) { fail(RACE, "uses memory of another process: " + name_of(a)); return false; }
    return true;
  }
  if (in_maps(a)) {
    Map *m = find_map(a);
    if (!m || a + n > m->addr + m->len) { fatal(std::string(write ? "writes" : "reads") + " memory that is not mapped"); return false; }
    if (m->proc != W->th[W->cur].proc) { fail(RACE, "uses a mapping of another process"); return false; }
    if (write && !(m->prot & PROT_WRITE)) { fatal("writes to read-only memory"); return false; }
    if (m->kind != 1) return false;
    uint64_t c = canonical(a);
    for (int i = 0; i < W->nwindow; i++)
      if (m->slot == W->window[i].slot && c >= W->window[i].a && c < W->window[i].b) {
        for (int j = 0; j < W->nallowed; j++) if (c >= W->allowed[j].a && c + n <= W->allowed[j].b) return true;
        fail(RACE, std::string(write ? "writes" : "reads") + " outside every chunk buffer");
        return true;
      }
    return true;
  }
  if (in_data(a)) return true;
  if (a < 65536) { fatal(std::string(write ? "writes" : "reads") + " through a null pointer"); return false; }
  return false;
}

static void touch_shm(uint64_t c)
{
  c &= ~7ull;
  if (c >= CANON_BASE && C->shm_known->insert(c).second) C->shm_words->push_back({c, 0});
}

static int entry(uint64_t key)
{
  auto it = C->ent->find(key);
  if (it != C->ent->end()) return it->second;
  if (C->nent >= MAXENT) return -1;
  int i = C->nent++;
  C->key[i] = key;
  C->ent->emplace(key, i);
  return i;
}

static int sync_object(uint64_t key)
{
  auto it = C->obj->find(key);
  if (it != C->obj->end()) return it->second;
  int i = MAXT + (int)C->obj->size();
  if (i > 63) return -1;
  C->obj->emplace(key, i);
  return i;
}
// Bits of a word's masks: the threads (and synchronisation objects) that know of its last write or read
static void hb_spread(int from, int to)
{
  for (int i = 0; i < C->nent; i++) C->wm[i] |= (C->wm[i] >> from & 1) << to;
  for (int r = 0; r < W->nth; r++) for (int i = 0; i < C->nent; i++) C->rm[r][i] |= (C->rm[r][i] >> from & 1) << to;
}
static void hb_clear(int bit)
{
  uint64_t m = ~(1ull << bit);
  for (int i = 0; i < C->nent; i++) C->wm[i] &= m;
  for (int r = 0; r < W->nth; r++) for (int i = 0; i < C->nent; i++) C->rm[r][i] &= m;
}
static void hb_acquire(uint64_t key)
{
  int o = sync_object(key);
  if (o < 0 || !(W->pending[o] >> W->cur & 1)) return;
  W->pending[o] &= ~(1u << W->cur);
  hb_spread(o, W->cur);
}
static void hb_release(uint64_t key, bool keep)
{
  int o = sync_object(key);
  if (o < 0) return;
  if (!keep) hb_clear(o);
  hb_spread(W->cur, o);
  W->pending[o] = ~0u;
}
static void hb_forget(uint64_t key) { int o = sync_object(key); if (o >= 0) hb_clear(o); }
static void hb_copy(int from, int to) { hb_spread(from, to); }

static void race_check(uint64_t key, bool write, bool atomic)
{
  int e = entry(key);
  if (e < 0) return;
  int t = W->cur;
  bool race = C->wm[e] && !(C->wm[e] >> t & 1);
  if (write && !race) for (int r = 0; r < W->nth; r++) if (r != t && C->rm[r][e] && !(C->rm[r][e] >> t & 1)) race = true;
  if (race) {
    C->racy->insert(key);
    fail(RACE, std::string(atomic ? "an atomic " : "a ") + (write ? "write" : "read") + " of " + name_of(key & ~(1ull << 63)) + " by thread " + std::to_string(t) + " is not ordered after an earlier access by another thread");
  }
  if (atomic) return;
  if (write) { C->wm[e] = 1ull << t; for (int r = 0; r < MAXT; r++) C->rm[r][e] = 0; }
  else C->rm[t][e] = 1ull << t;
}

template<typename F> static void for_keys(uint64_t c, size_t n, F f)
{
  if (n < 4) { for (size_t i = 0; i < n; i++) f((c + i) | 1ull << 63); return; }
  for (uint64_t k = c & ~3ull; k < c + n; k += 4) f(k);
}

static void schedule_point(int op, uint64_t obj, int target = 0)
{
  Thread& t = W->th[W->cur];
  t.op = op; t.obj = obj; t.target = target;
  C->step_accesses = 0;
  C->step_words->clear();
  leave_fiber();
  C->step_accesses = 0;
  W->th[W->cur].op = OP_NONE;
}

static void plain(uint64_t a, size_t n, bool write)
{
  if (!in_model()) return;
  if (++C->step_accesses > 3000000) {
    Ghost g;
    size_t before = C->racy->size();
    for (uint64_t k : *C->step_words) C->racy->insert(k);
    if (C->racy->size() == before) fail(ANY, "loops forever without any synchronisation");
    C->aborted = true;
    C->ghost_depth = 0;
    leave_fiber();
    abort();
  }
  if (on_stack(a)) return;
  Ghost g;
  if (!check_access(a, n, write)) return;
  uint64_t c = canonical(a);
  if (!c) return;
  bool point = false;
  if (!C->racy->empty()) for_keys(c, n, [&](uint64_t k) { if (C->racy->count(k)) point = true; });
  if (point) { C->ghost_depth--; schedule_point(OP_PLAIN, c); C->ghost_depth++; }
  if (c >= CANON_BASE) {
    for (uint64_t k = c & ~7ull; k < c + n; k += 8) touch_shm(k);
    if (!write && C->step_words->size() < 64) for_keys(c, n, [&](uint64_t k) { C->step_words->insert(k); });
  } else if (in_data(c) && !write && C->step_words->size() < 64) for_keys(c, n, [&](uint64_t k) { C->step_words->insert(k); });
  for_keys(c, n, [&](uint64_t k) { race_check(k, write, false); });
}

enum { MO_RELAXED = 0, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static bool acq(int mo) { return mo == MO_CONSUME || mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ_CST; }
static bool rel(int mo) { return mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST; }

// To be called before the operation itself; returns the canonical address (0: private memory)
static uint64_t atomic_point(uint64_t a, size_t n, bool write, bool weak = false)
{
  if (!in_model()) return 0;
  uint64_t c;
  {
    Ghost g;
    if (!on_stack(a) && !check_access(a, n, write)) return 0;
    c = on_stack(a) ? a : canonical(a);
    if (!c) return 0;
    W->th[W->cur].weak = weak;
  }
  schedule_point(OP_ATOMIC, c);
  Ghost g;
  if (c >= CANON_BASE) touch_shm(c);
  if (!on_stack(a)) for_keys(c, n, [&](uint64_t k) { race_check(k, write, true); });
  return c;
}
static void after_load(uint64_t c, int mo) { if (c && acq(mo)) { Ghost g; hb_acquire(c); } }
static void after_store(uint64_t c, int mo) { if (!c) return; Ghost g; if (rel(mo)) hb_release(c, false); else hb_forget(c); }
static void after_rmw(uint64_t c, int mo) { if (!c) return; Ghost g; if (acq(mo)) hb_acquire(c); if (rel(mo)) hb_release(c, true); }

// ---- heap ---------------------------------------------------------------------------------------------------
static void *arena_alloc(size_t n)
{
  Ghost g;
  int t = W->cur;
  size_t r = (n + 15) & ~15ull;
  if (!r) r = 16;
  if (W->nblock[t] >= MAXBLOCK || W->th[t].arena_used + r + 32 > ARENA_STRIDE) { fatal("too much heap memory"); return nullptr; }
  uint64_t a = ARENA_BASE + t * ARENA_STRIDE + W->th[t].arena_used + 16;
  W->th[t].arena_used += r + 32;
  W->block[t][W->nblock[t]++] = Block{a, n, 1, W->th[t].proc};
  return (void *)a;
}
static void arena_free(void *p)
{
  Ghost g;
  uint64_t a = (uint64_t)p;
  Block *b = find_block(a);
  if (!b || b->addr != a) { fail(RACE, "releases something that is not a heap block"); return; }
  if (!b->live) { fail(RACE, "releases a heap block twice"); return; }
  if (b->proc != W->th[W->cur].proc) { fail(RACE, "releases memory of another process"); return; }
  for (uint64_t k = b->addr & ~3ull; k < b->addr + b->size; k += 4) {
    auto it = C->ent->find(k);
    if (it != C->ent->end()) race_check(k, true, false);
  }
  for (uint64_t k = b->addr; k < b->addr + b->size; k++) {
    auto it = C->ent->find(k | 1ull << 63);
    if (it != C->ent->end()) { race_check(k | 1ull << 63, true, false); C->wm[it->second] = 0; for (int r = 0; r < MAXT; r++) C->rm[r][it->second] = 0; }
  }
  for (uint64_t k = b->addr & ~3ull; k < b->addr + b->size; k += 4) {
    auto it = C->ent->find(k);
    if (it != C->ent->end()) { C->wm[it->second] = 0; for (int r = 0; r < MAXT; r++) C->rm[r][it->second] = 0; }
  }
  memset(p, 0, b->size);
  b->live = 0;
}
int live_blocks()
{
  int n = 0;
  for (int t = 0; t < W->nth; t++) for (int i = 0; i < W->nblock[t]; i++) n += W->block[t][i].live;
  return n;
}

// ---- mappings -----------------------------------------------------------------------------------------------
static void make_real(const Map& m)
{
  for (int i = 0; i < C->nreal; i++) {
    auto& r = C->real[i];
    if (r.addr == m.addr) {
      if (r.len == m.len && r.kind == m.kind && r.slot == m.slot && r.off == m.off) return;
      syscall(SYS_munmap, r.addr, r.len);
      r = C->real[--C->nreal];
      break;
    }
  }
  void *p;
  if (m.kind == 1) p = (void *)syscall(SYS_mmap, m.addr, m.len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, C->memfd[m.slot], m.off);
  else p = (void *)syscall(SYS_mmap, m.addr, m.len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (p != (void *)m.addr) abort();
  if (m.kind == 3) memcpy(p, C->input->data(), std::min<size_t>(C->input->size(), m.len));
  if (C->nreal >= MAXMAP * 4) abort();
  auto& r = C->real[C->nreal++];
  r.addr = m.addr; r.len = m.len; r.kind = m.kind; r.slot = m.slot; r.off = m.off;
}

static void *model_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
  Ghost g;
  int proc = W->th[W->cur].proc;
  if (len == 0) { errno = EINVAL; return MAP_FAILED; }
  len = (len + 4095) & ~4095ull;
  Map m{};
  m.prot = prot; m.proc = proc; m.live = 1; m.len = len; m.off = off;
  if (flags & MAP_ANONYMOUS) m.kind = 2;
  else {
    if (fd < 1000 || fd >= 1000 + MAXFD || !W->fd[fd - 1000].used) { errno = EBADF; return MAP_FAILED; }
    Fd& f = W->fd[fd - 1000];
    if (f.kind == 1) {
      m.kind = 1; m.slot = f.slot;
      if (off + len > ((W->shm[f.slot].size + 4095) & ~4095ull)) { fatal("maps more than the shared memory object holds"); return MAP_FAILED; }
    } else m.kind = 3;
  }
  if (flags & MAP_FIXED) {
    m.addr = (uint64_t)addr;
    Map *o = find_map(m.addr);
    if (!o || m.addr + len > o->addr + o->len) { fatal("maps over memory it has not reserved"); return MAP_FAILED; }
    // The file takes the start of a reservation: the reservation stays as the rest
    if (m.kind == 3) {
      size_t n = std::min<size_t>(C->input->size(), o->len - (m.addr - o->addr));
      memcpy((void *)m.addr, C->input->data(), n);
      o->prot = prot;
      return addr;
    }
    fatal("unsupported fixed mapping");
    return MAP_FAILED;
  }
  m.addr = MAP_BASE + proc * MAP_PROC + (uint64_t)W->map_count[proc]++ * MAP_STRIDE;
  if (W->nmap >= MAXMAP || W->map_count[proc] >= 64) { fatal("too many mappings"); return MAP_FAILED; }
  W->map[W->nmap++] = m;
  make_real(m);
  return (void *)m.addr;
}
static int model_munmap(void *addr, size_t len)
{
  Ghost g;
  uint64_t a = (uint64_t)addr;
  if (len == 0 || (a & 4095)) { errno = EINVAL; return -1; }
  uint64_t b = a + ((len + 4095) & ~4095ull);
  for (int i = 0; i < W->nmap; i++) {
    Map& m = W->map[i];
    if (!m.live || m.addr + m.len <= a || m.addr >= b) continue;
    if (a <= m.addr && b >= m.addr + m.len) { m.live = 0; continue; }
    if (a <= m.addr) { uint64_t d = b - m.addr; m.addr += d; m.off += d; m.len -= d; }
    else m.len = a - m.addr;            // (a hole in the middle does not occur)
  }
  return 0;
}

void set_input(const std::string& content) { ctl(); *C->input = content; }
void guard(const void *p, size_t n)
{
  uint64_t c = canonical((uint64_t)p);
  if (c < CANON_BASE) return;
  for (int i = 0; i < W->nwindow; i++) if (W->window[i].a == c && W->window[i].b == c + n) return;
  if (W->nwindow >= 8) return;
  W->window[W->nwindow].slot = (int)((c - CANON_BASE) / CANON_STRIDE); W->window[W->nwindow].a = c; W->window[W->nwindow].b = c + n;
  W->nwindow++;
}
void allow(const void *p, size_t n)
{
  uint64_t c = canonical((uint64_t)p);
  for (int i = 0; i < W->nallowed; i++) if (W->allowed[i].a == c && W->allowed[i].b == c + n) return;
  if (W->nallowed < MAXALLOW) W->allowed[W->nallowed++] = Range{c, c + n};
}

// ---- channels between processes -----------------------------------------------------------------------------
int channel_count(int c) { return W->chan[c].n; }
void channel_put(int c, const Message& v)
{
  if (c < 0 || c >= MAXCHAN) { fatal("no such channel"); return; }
  schedule_point(OP_CHAN_PUT, c);
  Ghost g;
  if (c < 0 || c >= MAXCHAN || W->chan[c].n >= 8) { fatal("too much in a channel"); return; }
  W->chan[c].q[W->chan[c].n++] = v;
}
Message channel_get(int c)
{
  schedule_point(OP_CHAN_GET, c);
  Ghost g;
  Message v = W->chan[c].q[0];
  W->chan[c].n--;
  for (int i = 0; i < W->chan[c].n; i++) W->chan[c].q[i] = W->chan[c].q[i + 1];
  memset((void *)&W->chan[c].q[W->chan[c].n], 0, sizeof(Message));
  return v;
}

// ---- threads ------------------------------------------------------------------------------------------------
int spawn_process(void *(*f)(void *), void *arg)
{
  int t = new_thread(f, arg, ++W->nproc);
  Ghost g;
  hb_copy(W->cur, t);
  return t;
}
void join_process(int t)
{
  schedule_point(OP_JOIN, 0, t);
  Ghost g;
  hb_copy(t, W->cur);
  W->th[t].joined = 1;
}

// ---- exploration --------------------------------------------------------------------------------------------
static bool enabled(int i)
{
  Thread& t = W->th[i];
  if (t.status != LIVE) return false;
  switch (t.op) {
  case OP_SEM_WAIT: return W->sem[t.target].value > 0;
  case OP_JOIN: return W->th[t.target].status == FINISHED;
  case OP_MUTEX: return W->mutex[t.target].owner == 0;
  case OP_COND: return t.waiting_cond == 0 && W->mutex[t.target].owner == 0;
  case OP_CHAN_GET: return W->chan[t.obj].n > 0;
  default: return true;
  }
}

struct Bytes {
  char *p = nullptr;
  size_t n = 0, cap = 0;
  Bytes() {}
  Bytes(Bytes&& o) noexcept : p(o.p), n(o.n), cap(o.cap) { o.p = nullptr; o.n = o.cap = 0; }
  Bytes& operator=(Bytes&& o) noexcept { std::swap(p, o.p); std::swap(n, o.n); std::swap(cap, o.cap); return *this; }
  ~Bytes() { ::free(p); }
  void clear() { n = 0; }
  const char *data() const { return p; }
};
struct Snapshot {
  Bytes b;
  int nent = 0;
  size_t nshm = 0;
};
static void put(Bytes& b, const void *p, size_t n)
{
  if (b.n + n > b.cap) { b.cap = (b.n + n) * 5 / 4; b.p = (char *)realloc(b.p, b.cap); if (!b.p) abort(); }
  memcpy(b.p + b.n, p, n);
  b.n += n;
}

static void save(Snapshot& s)
{
  s.b.clear();
  put(s.b, W, WORLD_FIXED);
  put(s.b, W->map, sizeof(Map) * W->nmap);
  put(s.b, W->allowed, sizeof(Range) * W->nallowed);
  for (int t = 0; t < W->nth; t++) put(s.b, W->block[t], sizeof(Block) * W->nblock[t]);
  put(s.b, C->ghost, C->ghost_size);
  put(s.b, C->data_a, C->data_b - C->data_a);
  for (int t = 0; t < W->nth; t++) {
    if (W->th[t].status == LIVE) put(s.b, (void *)W->th[t].sp, STACK_BASE + t * STACK_STRIDE + STACK_SIZE - W->th[t].sp);
    put(s.b, (void *)(ARENA_BASE + t * ARENA_STRIDE), W->th[t].arena_used);
  }
  s.nshm = C->shm_words->size();
  for (auto& w : *C->shm_words) put(s.b, (void *)w.first, 8);
  s.nent = C->nent;
  put(s.b, C->wm, sizeof(uint64_t) * s.nent);
  for (int t = 0; t < W->nth; t++) put(s.b, C->rm[t], sizeof(uint64_t) * s.nent);
}
static void restore(const Snapshot& s)
{
  uint64_t used[MAXT];
  for (int t = 0; t < MAXT; t++) used[t] = W->th[t].arena_used;
  const char *p = s.b.data();
  auto get = [&](void *q, size_t n) { memcpy(q, p, n); p += n; };
  get(W, WORLD_FIXED);
  get(W->map, sizeof(Map) * W->nmap);
  get(W->allowed, sizeof(Range) * W->nallowed);
  for (int t = 0; t < W->nth; t++) get(W->block[t], sizeof(Block) * W->nblock[t]);
  get(C->ghost, C->ghost_size);
  get(C->data_a, C->data_b - C->data_a);
  for (int t = 0; t < W->nth; t++) {
    if (W->th[t].status == LIVE) get((void *)W->th[t].sp, STACK_BASE + t * STACK_STRIDE + STACK_SIZE - W->th[t].sp);
    get((void *)(ARENA_BASE + t * ARENA_STRIDE), W->th[t].arena_used);
  }
  for (int t = 0; t < MAXT; t++) {
    uint64_t u = t < W->nth ? W->th[t].arena_used : 0;
    if (used[t] > u) memset((void *)(ARENA_BASE + t * ARENA_STRIDE + u), 0, used[t] - u);
  }
  for (size_t i = 0; i < C->shm_words->size(); i++) {
    if (i < s.nshm) get((void *)(*C->shm_words)[i].first, 8);
    else *(uint64_t *)(*C->shm_words)[i].first = 0;
  }
  get(C->wm, sizeof(uint64_t) * s.nent);
  for (int t = 0; t < W->nth; t++) get(C->rm[t], sizeof(uint64_t) * s.nent);
  if (C->nent > s.nent) memset(C->wm + s.nent, 0, sizeof(uint64_t) * (C->nent - s.nent));
  for (int t = 0; t < C->max_nth; t++) {
    int from = t < W->nth ? s.nent : 0;
    if (C->nent > from) memset(C->rm[t] + from, 0, sizeof(uint64_t) * (C->nent - from));
  }
  for (int i = 0; i < W->nmap; i++) if (W->map[i].live) make_real(W->map[i]);
}

static inline uint64_t mix(uint64_t x) { x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; return x; }
struct Hash { uint64_t a = 0x1234567, b = 0x89abcdef;
  void add(uint64_t v) { a = (a ^ v) * 0x9e3779b97f4a7c15ull; a ^= a >> 29; b = (b + v) * 0xbf58476d1ce4e5b9ull; b ^= b >> 31; }
  void bytes(const void *p, size_t n) {
    if (n >= 64) {
      const char *q = (const char *)p; uint64_t v[4], x[4] = {a, b, a + 3, b + 5};
      while (n >= 32) { memcpy(v, q, 32); for (int i = 0; i < 4; i++) { x[i] = (x[i] ^ v[i]) * 0x9e3779b97f4a7c15ull; x[i] ^= x[i] >> 29; } q += 32; n -= 32; }
      for (int i = 0; i < 4; i++) add(x[i]);
      p = q;
    }
    const char *q = (const char *)p; uint64_t v; while (n >= 8) { memcpy(&v, q, 8); add(v); q += 8; n -= 8; } if (n) { v = 0; memcpy(&v, q, n); add(v); } }
};

static void state_hash(uint64_t out[2])
{
  Hash h;
  for (int t = 0; t < W->nth; t++) {
    Thread& x = W->th[t];
    h.add(((uint64_t)x.status << 32) | (x.op << 8) | x.joined | (x.waiting_cond << 16)); h.add(x.obj); h.add(x.target);
    h.add((uint64_t)x.ret);
    h.add(x.arena_used);
    if (x.status == LIVE) { h.add(x.sp); h.bytes((void *)x.sp, STACK_BASE + t * STACK_STRIDE + STACK_SIZE - x.sp); }
    h.bytes((void *)(ARENA_BASE + t * ARENA_STRIDE), x.arena_used);
    for (int i = 0; i < W->nblock[t]; i++) h.add(W->block[t][i].live);
  }
  for (auto& s : W->sem) if (s.exists) { h.add(s.key); h.add(s.value); h.add(s.open | s.linked << 16); }
  for (auto& s : W->shm) if (s.exists) { h.add(s.linked); h.add(s.size); }
  for (int i = 0; i < W->nmap; i++) { h.add(W->map[i].addr); h.add(W->map[i].live); h.add(W->map[i].len); }
  for (auto& f : W->fd) h.add(f.used);
  for (int i = 0; i < W->nmutex; i++) h.add(W->mutex[i].owner);
  for (auto& c : W->chan) { h.add(c.n); h.bytes(c.q, sizeof(Message) * c.n); }
  h.add(W->nallowed);
  h.bytes(C->ghost, C->ghost_size);
  h.bytes(C->data_a, C->data_b - C->data_a);
  uint64_t sum = 0, sum2 = 0;
  for (size_t i = 0; i < C->shm_words->size(); i++) { uint64_t v = *(uint64_t *)(*C->shm_words)[i].first; if (v) { uint64_t k = mix(v ^ mix((*C->shm_words)[i].first)); sum += k; sum2 ^= k * 31 + (k >> 7); } }
  if (C->opt.track_races) {
    // An access that every running thread knows of (or will know of before it does anything else, because it waits for
    // the end of one that does) can take part in no race any more.
    uint64_t all = 0;
    for (int t = 0; t < W->nth; t++) if (!(W->th[t].status == FINISHED && W->th[t].joined)) all |= 1ull << t;
    auto settled = [&](uint64_t m) {
      for (int t = 0; t < W->nth; t++) if (W->th[t].status == LIVE && W->th[t].op == OP_JOIN && (m >> W->th[t].target & 1)) m |= 1ull << t;
      return (m & all) == all;
    };
    for (int i = 0; i < C->nent; i++) {
      if (C->wm[i] && settled(C->wm[i])) { C->wm[i] = 0; }
      for (int r = 0; r < W->nth; r++) if (C->rm[r][i] && settled(C->rm[r][i])) C->rm[r][i] = 0;
    }
    for (int i = 0; i < C->nent; i++) {
      if (C->wm[i]) { uint64_t k = mix(C->wm[i] ^ mix(C->key[i] * 3)); sum += k; sum2 ^= k * 131 + (k >> 9); }
      for (int r = 0; r < W->nth; r++) if (C->rm[r][i]) { uint64_t k = mix(C->rm[r][i] ^ mix(C->key[i] * 3 + 1 + r)); sum += k; sum2 ^= k * 17 + (k >> 5); }
    }
  }
  h.add(sum); h.add(sum2);
  out[0] = h.a; out[1] = h.b;
}

static void run_thread(int t, int choice)
{
  W->cur = t;
  W->th[t].choice = choice;
  C->ghost_depth = 0;
  C->step_accesses = 0;
  C->aborted = false;
  C->in_fiber = true;
  sched_switch(&C->sched_sp, W->th[t].sp);
  C->in_fiber = false;
  C->ghost_depth = 0;
  C->step_words->clear();
}

struct Choice { int t, c; };
static void choices(std::vector<Choice>& v)
{
  v.clear();
  // Starting a thread and joining a finished one affect nobody else
  for (int t = 0; t < W->nth; t++)
    if (enabled(t) && (W->th[t].op == OP_NONE || W->th[t].op == OP_JOIN)) { v.push_back({t, 0}); return; }
  for (int t = 0; t < W->nth; t++)
    if (enabled(t)) {
      v.push_back({t, 0});
      if (C->opt.spurious && W->th[t].op == OP_ATOMIC && W->th[t].weak) v.push_back({t, 1});
    }
}

struct Table {          // 128-bit hashes -> index
  std::vector<uint64_t> k; std::vector<uint32_t> v; size_t n = 0, mask;
  Table() { k.assign(2 << 12, 0); v.assign(1 << 12, 0); mask = (1 << 12) - 1; }
  void grow() {
    std::vector<uint64_t> ok; std::vector<uint32_t> ov; ok.swap(k); ov.swap(v);
    mask = mask * 2 + 1; k.assign((mask + 1) * 2, 0); v.assign(mask + 1, 0);
    for (size_t i = 0; i < ov.size(); i++) if (ov[i]) { size_t j = ok[2 * i] & mask; while (v[j]) j = (j + 1) & mask; k[2 * j] = ok[2 * i]; k[2 * j + 1] = ok[2 * i + 1]; v[j] = ov[i]; }
  }
  // index + 1; fresh: newly inserted
  uint32_t insert(const uint64_t h[2], bool& fresh) {
    if ((n + 1) * 3 > mask * 2) grow();
    size_t j = h[0] & mask;
    while (v[j]) { if (k[2 * j] == h[0] && k[2 * j + 1] == h[1]) { fresh = false; return v[j]; } j = (j + 1) & mask; }
    k[2 * j] = h[0]; k[2 * j + 1] = h[1]; v[j] = (uint32_t)++n; fresh = true; return v[j];
  }
};

static const char *op_name(int op) { static const char *n[] = {"start", "atomic", "access", "sem_wait", "sem_post", "join", "lock", "unlock", "wait", "yield", "put", "get"}; return n[op]; }
static std::string describe(int t)
{
  Thread& x = W->th[t];
  std::string s = "T" + std::to_string(t) + " " + op_name(x.op);
  if (x.op == OP_ATOMIC || x.op == OP_PLAIN) s += " " + name_of(x.obj);
  return s;
}

static void world_reset()
{
  for (int t = 0; t < MAXT; t++) if (W->th[t].arena_used) memset((void *)(ARENA_BASE + t * ARENA_STRIDE), 0, W->th[t].arena_used);
  for (auto& w : *C->shm_words) *(uint64_t *)w.first = 0;
  memset((void *)W, 0, sizeof *W);
  memset(C->wm, 0, sizeof C->wm); memset(C->rm, 0, sizeof C->rm);
  C->ent->clear(); C->nent = 0; C->obj->clear();
}

struct BodyArg { void (*body)(void *); void *arg; };
static BodyArg g_body_arg;      // constant during an exploration
static void *body_main(void *) { g_body_arg.body(g_body_arg.arg); return nullptr; }

static void check_end(void (*at_end)())
{
  for (int t = 1; t < W->nth; t++) if (W->th[t].status != FINISHED) { fail(TERMINATION, "thread " + std::to_string(t) + " is still running at the end"); return; }
  for (auto& s : W->sem) if (s.exists && s.open) { fail(RELEASE, "a semaphore is left open: " + std::string(s.name)); return; }
  for (auto& s : W->sem) if (s.exists && s.linked) { fail(RELEASE, "a semaphore is left behind: " + std::string(s.name)); return; }
  for (auto& s : W->shm) if (s.exists && s.linked) { fail(RELEASE, "a shared memory object is left behind: " + std::string(s.name)); return; }
  for (auto& f : W->fd) if (f.used) { fail(RELEASE, std::string("a file descriptor is left open (") + (f.kind == 1 ? "shared memory" : "input") + ")"); return; }
  for (int i = 0; i < W->nmap; i++) if (W->map[i].live) { fail(RELEASE, std::string("a mapping of ") + (W->map[i].kind == 1 ? "shared memory" : "the input") + " is left, of " + std::to_string(W->map[i].len) + " bytes"); return; }
  for (int t = 0; t < W->nth; t++) for (int i = 0; i < W->nblock[t]; i++) if (W->block[t][i].live) { fail(RELEASE, "a heap block of " + std::to_string(W->block[t][i].size) + " bytes is never released"); return; }
  for (int t = 1; t < W->nth; t++) if (!W->th[t].joined && !W->th[t].detached) { fail(TERMINATION, "a thread is never joined"); return; }
  at_end();
}

static void explore_once(Outcome& out, void (*at_end)())
{
  world_reset();
  new_thread(body_main, nullptr, 0);
  struct Frame { Snapshot snap; std::vector<Choice> ch; size_t next = 0; uint32_t id; bool saved = false; };
  Table table;
  std::vector<std::pair<uint32_t, uint32_t>> edges;
  std::vector<uint32_t> parent{0};              // by id
  std::vector<uint8_t> via{0};
  std::vector<uint8_t> terminal{0};
  std::vector<Frame> st;
  std::vector<Frame> pool;
  std::vector<Choice> path;
  auto schedule_text = [&](uint32_t id) {
    std::string s;
    std::vector<int> v;
    while (id) { v.push_back(via[id]); id = parent[id]; }
    std::reverse(v.begin(), v.end());
    size_t from = v.size() > 400 ? v.size() - 400 : 0;
    if (from) s = "... ";
    for (size_t i = from; i < v.size();) { size_t j = i; while (j < v.size() && v[j] == v[i]) j++; s += "T" + std::to_string(v[i] & 15) + (v[i] & 16 ? "!" : "") + (j - i > 1 ? "*" + std::to_string(j - i) : "") + " "; i = j; }
    return s;
  };
  // Being stuck is a violation if there is something left to be done
  auto stuck = [&]() { return C->opt.done && !C->opt.done() ? (int)ANY : (int)TERMINATION; };
  int turn = C->opt.policy == 2 ? MAXT - 1 : 0;
  bool stale = false;
  auto push = [&](uint32_t id) {
    st.emplace_back();
    if (!pool.empty()) { st.back() = std::move(pool.back()); pool.pop_back(); }
    Frame& f = st.back();
    f.next = 0; f.saved = false; f.id = id;
    choices(f.ch);
    if (C->opt.policy && f.ch.size() > 1) {
      // A thread runs until it waits or leads to a state that was seen before (1: then the next one, 2: the previous one);
      // 3: the thread that has made the fewest steps
      std::vector<Choice> p; for (auto& c : f.ch) if (!c.c) p.push_back(c);
      Choice c = p[0];
      if (C->opt.policy == 3) { for (auto& x : p) if (W->th[x.t].steps < W->th[c.t].steps) c = x; }
      else {
        auto rank = [&](int t) { int d = C->opt.policy == 1 ? t - turn : turn - t; if (d < 0 || (d == 0 && stale)) d += MAXT; return d; };
        for (auto& x : p) if (rank(x.t) < rank(c.t)) c = x;
      }
      turn = c.t;
      f.ch.assign(1, c);
    }
    if (f.ch.size() > 1) { save(f.snap); f.saved = true; }
  };
  uint64_t h[2];
  bool fresh;
  state_hash(h);
  uint32_t id0 = table.insert(h, fresh);
  parent.push_back(0); via.push_back(0); terminal.push_back(0);
  push(id0);
  out.states++;
  uint64_t fixed = 0;
  while (!st.empty()) {
    Frame& f = st.back();
    if (f.next >= f.ch.size()) { pool.push_back(std::move(f)); st.pop_back(); continue; }
    if (f.next > 0) restore(f.snap);
    Choice c = f.ch[f.next++];
    uint32_t from = f.id;
    int op = W->th[c.t].op;
    uint64_t obj = W->th[c.t].obj;
    run_thread(c.t, c.c);
    W->th[c.t].steps++;
    out.transitions++;
    if (C->opt.tick && (out.transitions & 0x7fff) == 0 && !C->opt.tick()) { out.complete = false; return; }
    if (C->failed || C->aborted) {
      if (C->failed) { out.violation = *C->what; out.schedule = schedule_text(from) + "T" + std::to_string(c.t) + " (" + op_name(op) + " " + name_of(obj) + ")"; }
      return;
    }
    state_hash(h);
    uint32_t id = table.insert(h, fresh);
    stale = !fresh;
    if (!C->opt.policy) edges.push_back({from, id});
    else if (++fixed > 200000) { fail(stuck(), "does not end under a fixed schedule"); out.violation = *C->what; return; }
    if (!fresh && !C->opt.policy) continue;
    if (fresh) { out.states++; parent.push_back(from); via.push_back((uint8_t)(c.t | c.c << 4)); terminal.push_back(C->opt.done && C->opt.done()); }
    if (W->th[0].status == FINISHED) {
      bool all = true;
      for (int t = 0; t < W->nth; t++) if (enabled(t)) all = false;
      if (all) {
        terminal[id] = 1;
        out.terminals++;
        check_end(at_end);
        if (C->failed) { out.violation = *C->what; out.schedule = schedule_text(id); return; }
        continue;
      }
    }
    if (out.states > C->opt.max_states) { out.complete = false; return; }
    push(id);
    if (st.back().ch.empty()) {
      std::string w = "deadlock:";
      for (int t = 0; t < W->nth; t++) if (W->th[t].status == LIVE) w += " " + describe(t) + (W->th[t].op == OP_JOIN ? " T" + std::to_string(W->th[t].target) : "");
      fail(stuck(), w);
      if (C->failed) { out.violation = *C->what; out.schedule = schedule_text(id); return; }
    }
  }
  // From every state the end must be reachable (otherwise some worker waits or spins for ever)
  if (!C->opt.policy && ((C->opt.report & TERMINATION) || C->opt.done)) {
    size_t n = table.n;
    std::vector<uint32_t> head(n + 2, 0), list(edges.size());
    for (auto& e : edges) head[e.second + 1]++;
    for (size_t i = 1; i < head.size(); i++) head[i] += head[i - 1];
    std::vector<uint32_t> pos(head.begin(), head.end());
    for (auto& e : edges) list[pos[e.second]++] = e.first;
    std::vector<uint8_t> good(n + 1, 0);
    std::vector<uint32_t> todo;
    for (size_t i = 1; i <= n; i++) if (terminal[i]) { good[i] = 1; todo.push_back((uint32_t)i); }
    while (!todo.empty()) { uint32_t x = todo.back(); todo.pop_back(); for (uint32_t j = head[x]; j < head[x + 1]; j++) if (!good[list[j]]) { good[list[j]] = 1; todo.push_back(list[j]); } }
    for (size_t i = 1; i <= n; i++)
      if (!good[i]) { fail(ANY, "a state is reached from which no schedule ends the run (workers wait or spin for ever)"); out.violation = *C->what; out.schedule = schedule_text((uint32_t)i); return; }
  }
}

void point() { if (in_model()) schedule_point(OP_YIELD, 1); }

Outcome explore(void (*body)(void *), void *arg, const Options& opt, void *ghost, size_t ghost_size, void (*at_end)())
{
  ctl();
  C->opt = opt;
  C->ghost = ghost; C->ghost_size = ghost_size;
  C->racy->clear();
  g_body_arg = BodyArg{body, arg};
  std::vector<char> g0((char *)ghost, (char *)ghost + ghost_size), d0(C->data_a, C->data_b);
  Outcome out;
  for (int round = 0; round < 12; round++) {
    size_t before = C->racy->size();
    out = Outcome();
    C->failed = C->aborted = false;
    memcpy(ghost, g0.data(), ghost_size);
    memcpy(C->data_a, d0.data(), d0.size());
    explore_once(out, at_end);
    if (!out.violation.empty() || C->racy->size() == before || (opt.tick && !opt.tick())) break;
  }
  memcpy(ghost, g0.data(), ghost_size);
  memcpy(C->data_a, d0.data(), d0.size());
  return out;
}

} // namespace sched

using namespace sched;

// ---- instrumentation callbacks ------------------------------------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { plain((uint64_t)p, 8, true); }
void __tsan_vptr_read(void **p) { plain((uint64_t)p, 8, false); }
void __tsan_read_range(void *p, unsigned long n) { plain((uint64_t)p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { plain((uint64_t)p, n, true); }
#define RW(N) \
  void __tsan_read##N(void *p) { plain((uint64_t)p, N, false); } \
  void __tsan_write##N(void *p) { plain((uint64_t)p, N, true); } \
  void __tsan_unaligned_read##N(void *p) { plain((uint64_t)p, N, false); } \
  void __tsan_unaligned_write##N(void *p) { plain((uint64_t)p, N, true); } \
  void __tsan_volatile_read##N(void *p) { plain((uint64_t)p, N, false); } \
  void __tsan_volatile_write##N(void *p) { plain((uint64_t)p, N, true); } \
  void __tsan_read_write##N(void *p) { plain((uint64_t)p, N, false); plain((uint64_t)p, N, true); } \
  void __tsan_unaligned_read_write##N(void *p) { plain((uint64_t)p, N, false); plain((uint64_t)p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { plain((uint64_t)s, n, false); plain((uint64_t)d, n, true); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { plain((uint64_t)s, n, false); plain((uint64_t)d, n, true); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) plain((uint64_t)d, n, true); return memset(d, c, n); }

#define ATOMIC(B, T) \
  T __tsan_atomic##B##_load(const volatile T *p, int mo) { uint64_t c = atomic_point((uint64_t)p, sizeof(T), false); T v = *p; after_load(c, mo); return v; } \
  void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { uint64_t c = atomic_point((uint64_t)p, sizeof(T), true); *p = v; after_store(c, mo); } \
  T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { uint64_t c = atomic_point((uint64_t)p, sizeof(T), true); T o = *p; *p = v; after_rmw(c, mo); return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { uint64_t c = atomic_point((uint64_t)p, sizeof(T), true); T o = *p; *p = o + v; after_rmw(c, mo); return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { uint64_t c = atomic_point((uint64_t)p, sizeof(T), true); T o = *p; *p = o - v; after_rmw(c, mo); return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { uint64_t c = atomic_point((uint64_t)p, sizeof(T), true); T o = *p; *p = o & v; after_rmw(c, mo); return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { uint64_t c = atomic_point((uint64_t)p, sizeof(T), true); T o = *p; *p = o | v; after_rmw(c, mo); return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) { uint64_t c = atomic_point((uint64_t)p, sizeof(T), true); T o = *p; *p = o ^ v; after_rmw(c, mo); return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int mo) { uint64_t c = atomic_point((uint64_t)p, sizeof(T), true); T o = *p; *p = ~(o & v); after_rmw(c, mo); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { uint64_t c = atomic_point((uint64_t)p, sizeof(T), true); T o = *p; if (o == *e) { *p = v; after_rmw(c, mo); return 1; } *e = o; after_load(c, fmo); return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { uint64_t c = atomic_point((uint64_t)p, sizeof(T), true, true); T o = *p; if (o == *e && !(c && W->th[W->cur].choice)) { *p = v; after_rmw(c, mo); return 1; } *e = o; after_load(c, fmo); return 0; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { uint64_t c = atomic_point((uint64_t)p, sizeof(T), true); T o = *p; if (o == e) { *p = v; after_rmw(c, mo); } else after_load(c, fmo); return o; }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { if (!in_model()) return; Ghost g; if (acq(mo)) hb_acquire(1); if (rel(mo)) hb_release(1, true); }
void __tsan_atomic_signal_fence(int) {}
}

// ---- the C library ------------------------------------------------------------------------------------------
template<typename F> static F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }

void *operator new(size_t n) { if (in_model()) return arena_alloc(n); void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void *p) noexcept
{
  if (!p) return;
  if (C && in_arena((uint64_t)p)) { arena_free(p); return; }
  free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void *p, const std::nothrow_t&) noexcept { operator delete(p); }

static int sem_index(sem_t *s)
{
  uint64_t k = (uint64_t)s;
  if (k >= 0x7100 && k < 0x7100 + MAXSEM * 16 && W->sem[(k - 0x7100) / 16].exists) return (int)(k - 0x7100) / 16;
  for (int i = 0; i < MAXSEM; i++) if (W->sem[i].exists && W->sem[i].unnamed && W->sem[i].key == k) return i;
  return -1;
}
static int new_sem()
{
  for (int i = 0; i < MAXSEM; i++) if (!W->sem[i].exists) { memset(&W->sem[i], 0, sizeof(Sem)); W->sem[i].exists = 1; W->sem[i].key = 0x7100 + i * 16; return i; }
  fatal("too many semaphores");
  return -1;
}
static int mutex_index(uint64_t k)
{
  for (int i = 0; i < W->nmutex; i++) if (W->mutex[i].key == k) return i;
  if (W->nmutex >= 16) { fatal("too many mutexes"); return -1; }
  W->mutex[W->nmutex].key = k; W->mutex[W->nmutex].owner = 0;
  return W->nmutex++;
}
static void gone_sem(int i) { if (!W->sem[i].open && !W->sem[i].linked) memset(&W->sem[i], 0, sizeof(Sem)); }

extern "C" {
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*f)(void *), void *arg) noexcept
{
  if (!in_model()) return real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create")(out, attr, f, arg);
  int t = new_thread(f, arg, W->th[W->cur].proc);
  { Ghost g; hb_copy(W->cur, t); }
  *out = (pthread_t)(0x7000 + t);
  return 0;
}
int pthread_join(pthread_t th, void **ret)
{
  if (!in_model()) return real<int (*)(pthread_t, void **)>("pthread_join")(th, ret);
  int t = (int)(th - 0x7000);
  if (t < 0 || t >= W->nth) { fatal("joins a thread that does not exist"); return ESRCH; }
  if (W->th[t].joined) { fatal("joins a thread twice"); return ESRCH; }
  schedule_point(OP_JOIN, 0, t);
  Ghost g;
  hb_copy(t, W->cur);
  W->th[t].joined = 1;
  if (ret) *ret = W->th[t].ret;
  return 0;
}
int pthread_detach(pthread_t th) noexcept
{
  if (!in_model()) return real<int (*)(pthread_t)>("pthread_detach")(th);
  W->th[th - 0x7000].detached = 1;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
  if (!in_model()) return real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock")(m);
  int i = mutex_index((uint64_t)m);
  schedule_point(OP_MUTEX, (uint64_t)m, i);
  Ghost g;
  W->mutex[i].owner = W->cur + 1;
  hb_acquire((uint64_t)m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
  if (!in_model()) return real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock")(m);
  int i = mutex_index((uint64_t)m);
  schedule_point(OP_YIELD, (uint64_t)m, i);
  Ghost g;
  if (W->mutex[i].owner) return EBUSY;
  W->mutex[i].owner = W->cur + 1;
  hb_acquire((uint64_t)m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
  if (!in_model()) return real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock")(m);
  int i = mutex_index((uint64_t)m);
  schedule_point(OP_UNLOCK, (uint64_t)m, i);
  Ghost g;
  hb_release((uint64_t)m, true);
  W->mutex[i].owner = 0;
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  if (!in_model()) return real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait")(c, m);
  int i = mutex_index((uint64_t)m);
  { Ghost g; hb_release((uint64_t)m, true); W->mutex[i].owner = 0; W->th[W->cur].waiting_cond = 1; }
  schedule_point(OP_COND, (uint64_t)c, i);
  Ghost g;
  W->mutex[i].owner = W->cur + 1;
  hb_acquire((uint64_t)m);
  return 0;
}
static int wake(pthread_cond_t *c, bool all)
{
  schedule_point(OP_YIELD, (uint64_t)c);
  Ghost g;
  for (int t = 0; t < W->nth; t++)
    if (W->th[t].status == LIVE && W->th[t].op == OP_COND && W->th[t].obj == (uint64_t)c && W->th[t].waiting_cond) { W->th[t].waiting_cond = 0; if (!all) break; }
  return 0;
}
int pthread_cond_signal(pthread_cond_t *c) noexcept { if (!in_model()) return real<int (*)(pthread_cond_t *)>("pthread_cond_signal")(c); return wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { if (!in_model()) return real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast")(c); return wake(c, true); }
int sched_yield() noexcept { if (!in_model()) return (int)syscall(SYS_sched_yield); schedule_point(OP_YIELD, 0); return 0; }
int usleep(useconds_t us) { if (!in_model()) return real<int (*)(useconds_t)>("usleep")(us); schedule_point(OP_YIELD, 0); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!in_model()) return real<int (*)(const struct timespec *, struct timespec *)>("nanosleep")(a, b); schedule_point(OP_YIELD, 0); return 0; }
clock_t clock() noexcept { if (!in_model()) return real<clock_t (*)()>("clock")(); return 0; }
int clock_gettime(clockid_t id, struct timespec *t) noexcept { if (!in_model()) return (int)syscall(SYS_clock_gettime, id, t); t->tv_sec = 0; t->tv_nsec = 0; return 0; }

sem_t *sem_open(const char *name, int flags, ...) noexcept
{
  if (!in_model()) abort();
  Ghost g;
  int value = 0;
  if (flags & O_CREAT) { va_list ap; va_start(ap, flags); va_arg(ap, int); value = (int)va_arg(ap, unsigned); va_end(ap); }
  for (int i = 0; i < MAXSEM; i++)
    if (W->sem[i].exists && W->sem[i].linked && !strncmp(W->sem[i].name, name, 99)) {
      if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
      W->sem[i].open++;
      return (sem_t *)W->sem[i].key;
    }
  if (!(flags & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
  int i = new_sem();
  if (i < 0) return SEM_FAILED;
  strncpy(W->sem[i].name, name, 99);
  W->sem[i].linked = 1; W->sem[i].open = 1; W->sem[i].value = value;
  return (sem_t *)W->sem[i].key;
}
int sem_init(sem_t *s, int, unsigned v) noexcept { Ghost g; int i = new_sem(); if (i < 0) return -1; W->sem[i].unnamed = 1; W->sem[i].key = (uint64_t)s; W->sem[i].value = (int)v; return 0; }
int sem_destroy(sem_t *s) noexcept { Ghost g; int i = sem_index(s); if (i >= 0) memset(&W->sem[i], 0, sizeof(Sem)); return 0; }
int sem_close(sem_t *s) noexcept
{
  Ghost g;
  int i = sem_index(s);
  if (i < 0 || W->sem[i].open <= 0) { fatal("closes a semaphore that is not open"); return -1; }
  W->sem[i].open--;
  gone_sem(i);
  return 0;
}
int sem_unlink(const char *name) noexcept
{
  Ghost g;
  for (int i = 0; i < MAXSEM; i++)
    if (W->sem[i].exists && W->sem[i].linked && !strncmp(W->sem[i].name, name, 99)) { W->sem[i].linked = 0; gone_sem(i); return 0; }
  errno = ENOENT;
  return -1;
}
int sem_wait(sem_t *s)
{
  int i = sem_index(s);
  if (i < 0) { fatal("waits on a semaphore that is not open"); return -1; }
  schedule_point(OP_SEM_WAIT, W->sem[i].key, i);
  Ghost g;
  W->sem[i].value--;
  hb_acquire(W->sem[i].key);
  return 0;
}
int sem_trywait(sem_t *s) noexcept
{
  int i = sem_index(s);
  if (i < 0) { fatal("waits on a semaphore that is not open"); return -1; }
  schedule_point(OP_YIELD, W->sem[i].key, i);
  Ghost g;
  if (W->sem[i].value <= 0) { errno = EAGAIN; return -1; }
  W->sem[i].value--;
  hb_acquire(W->sem[i].key);
  return 0;
}
int sem_post(sem_t *s) noexcept
{
  int i = sem_index(s);
  if (i < 0) { fatal("posts a semaphore that is not open"); return -1; }
  schedule_point(OP_SEM_POST, W->sem[i].key, i);
  Ghost g;
  hb_release(W->sem[i].key, true);
  W->sem[i].value++;
  return 0;
}
int sem_getvalue(sem_t *s, int *v) noexcept { int i = sem_index(s); schedule_point(OP_YIELD, 0); *v = i < 0 ? 0 : W->sem[i].value; return 0; }

static int new_fd(int kind, int slot)
{
  for (int i = 0; i < MAXFD; i++) if (!W->fd[i].used) { W->fd[i] = Fd{1, kind, slot, W->th[W->cur].proc}; return 1000 + i; }
  fatal("too many descriptors");
  return -1;
}
int shm_open(const char *name, int flags, mode_t)
{
  if (!in_model()) abort();
  Ghost g;
  for (int i = 0; i < W->nshm; i++)
    if (W->shm[i].linked && !strncmp(W->shm[i].name, name, 99)) {
      if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
      return new_fd(1, i);
    }
  if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
  if (W->nshm >= MAXSLOT) { fatal("too many shared memory objects"); return -1; }
  int i = W->nshm++;
  memset(&W->shm[i], 0, sizeof(ShmObj));
  W->shm[i].exists = 1; W->shm[i].linked = 1;
  strncpy(W->shm[i].name, name, 99);
  return new_fd(1, i);
}
int shm_unlink(const char *name)
{
  if (!in_model()) abort();
  Ghost g;
  for (int i = 0; i < W->nshm; i++) if (W->shm[i].linked && !strncmp(W->shm[i].name, name, 99)) { W->shm[i].linked = 0; return 0; }
  errno = ENOENT;
  return -1;
}
int ftruncate(int fd, off_t n) noexcept
{
  if (!in_model()) return (int)syscall(SYS_ftruncate, fd, n);
  Ghost g;
  if (fd < 1000 || fd >= 1000 + MAXFD || !W->fd[fd - 1000].used || W->fd[fd - 1000].kind != 1) { errno = EBADF; return -1; }
  if ((uint64_t)n > OBJ_SIZE) { fatal("too much shared memory"); return -1; }
  W->shm[W->fd[fd - 1000].slot].size = n;
  return 0;
}
int open(const char *path, int flags, ...)
{
  if (!in_model()) { mode_t m = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } return (int)syscall(SYS_openat, AT_FDCWD, path, flags, m); }
  Ghost g;
  return new_fd(2, 0);
}
int close(int fd)
{
  if (!in_model()) return (int)syscall(SYS_close, fd);
  Ghost g;
  if (fd < 1000 || fd >= 1000 + MAXFD || !W->fd[fd - 1000].used) { errno = EBADF; return -1; }
  W->fd[fd - 1000].used = 0;
  return 0;
}
int fstat(int fd, struct stat *s) noexcept
{
  if (!in_model()) return (int)syscall(SYS_fstat, fd, s);
  Ghost g;
  memset(s, 0, sizeof *s);
  if (fd < 1000 || fd >= 1000 + MAXFD || !W->fd[fd - 1000].used) { errno = EBADF; return -1; }
  s->st_size = W->fd[fd - 1000].kind == 2 ? (off_t)C->input->size() : (off_t)W->shm[W->fd[fd - 1000].slot].size;
  return 0;
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) noexcept
{
  if (!in_model()) return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off);
  return model_mmap(a, n, prot, flags, fd, off);
}
int munmap(void *a, size_t n) noexcept
{
  if (!in_model()) return (int)syscall(SYS_munmap, a, n);
  return model_munmap(a, n);
}
int madvise(void *a, size_t n, int advice) noexcept { if (!in_model()) return (int)syscall(SYS_madvise, a, n, advice); return 0; }
int msync(void *a, size_t n, int f) { if (!in_model()) return (int)syscall(SYS_msync, a, n, f); return 0; }
}

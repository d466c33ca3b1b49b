#include "mcsched.h"

#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#include <new>

// ---- memory: what one thread frees is only ever reused by the same thread ---------------------------
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
}
static thread_local int t_id = 0;
namespace {
const int kClasses = 40;
struct Arena {
  char *base = nullptr, *next = nullptr, *end = nullptr;
  void* free_[kClasses];
};
Arena g_arena[3];
const size_t kArena = size_t(1) << 31;  // address space only
struct Header {
  uint32_t cls, tid;
  uint64_t size, pad[6];
};
static_assert(sizeof(Header) == 64, "keeps 64-byte alignment");
int class_of(size_t n) {
  int c = 0;
  size_t s = 64;
  while (s < n) s <<= 1, c++;
  return c;
}
char* g_lo = nullptr;
void arenas() {
  char* p = (char*)mmap(nullptr, 3 * kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) abort();
  for (int i = 0; i < 3; i++) {
    g_arena[i].base = g_arena[i].next = p + i * kArena;
    g_arena[i].end = g_arena[i].base + kArena;
    memset(g_arena[i].free_, 0, sizeof g_arena[i].free_);
  }
  g_lo = p;
}
volatile int g_lock0 = 0;  // only arena 0 could be used by several threads
void* get(size_t n) {
  if (!g_lo) arenas();
  int c = class_of(n + 1);
  if (t_id == 0)
    while (__sync_lock_test_and_set(&g_lock0, 1)) sched_yield();
  Arena& a = g_arena[t_id];
  Header* h;
  if (a.free_[c]) {
    h = (Header*)a.free_[c];
    a.free_[c] = *(void**)(h + 1);
  } else {
    h = (Header*)a.next;
    a.next += sizeof(Header) + (size_t(64) << c);
    if (a.next > a.end) abort();
  }
  h->cls = c, h->tid = t_id, h->size = n;
  if (t_id == 0) __sync_lock_release(&g_lock0);
  return h + 1;
}
bool ours(void* p) { return g_lo && (char*)p >= g_lo && (char*)p < g_lo + 3 * kArena; }
void put(void* p) {
  if (!p) return;
  if (!ours(p)) return __real_free(p);
  Header* h = (Header*)p - 1;
  if ((int)h->tid != t_id) return;  // never handed to another thread
  if (t_id == 0)
    while (__sync_lock_test_and_set(&g_lock0, 1)) sched_yield();
  *(void**)p = g_arena[t_id].free_[h->cls];
  g_arena[t_id].free_[h->cls] = h;
  if (t_id == 0) __sync_lock_release(&g_lock0);
}
}  // namespace
extern "C" {
void* __wrap_malloc(size_t n) { return get(n); }
void __wrap_free(void* p) { put(p); }
void* __wrap_calloc(size_t a, size_t b) {
  void* p = get(a * b);
  memset(p, 0, a * b);
  return p;
}
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return get(n);
  void* q = get(n);
  size_t m = ours(p) ? ((Header*)p - 1)->size : n;
  memcpy(q, p, m < n ? m : n);
  put(p);
  return q;
}
void* __wrap_aligned_alloc(size_t, size_t n) { return get(n); }
void* __wrap_memalign(size_t, size_t n) { return get(n); }
int __wrap_posix_memalign(void** p, size_t, size_t n) {
  *p = get(n);
  return 0;
}
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }

// ---- scheduler ------------------------------------------------------------------------------------
namespace sched {
static Mode g_mode = kPlain;
static int g_cur = 0;
static bool g_done[3];
static long g_points[3], g_switches, g_recorded;
static const Preempt* g_pre = nullptr;
static int g_npre = 0, g_used = 0;
static sem_t g_go[3], g_end;
static long g_since = 0;

static void wait(sem_t* s) {
  while (sem_wait(s) && errno == EINTR) {
  }
}
// The calling thread hands over to the other one and sleeps until it is its turn again.
static void hand_over() {
  int other = 3 - t_id;
  if (g_done[other]) return;
  g_switches++;
  g_since = 0;
  g_cur = other;
  sem_post(&g_go[other]);
  wait(&g_go[t_id]);
}
static inline void point() {
  g_points[t_id]++;
  // a thread that spins without end gives way
  if (++g_since > (g_mode == kAll ? 30000000 : 300000)) {
    g_since = 0;
    hand_over();
  }
  for (int i = 0; i < g_npre; i++)
    if (g_pre[i].tid == t_id && g_pre[i].at == g_points[t_id] && !(g_used >> i & 1)) {
      g_used |= 1 << i;
      hand_over();
    }
}

// recorded accesses: granule -> bits 1 read by 1, 2 written by 1, 4 read by 2, 8 written by 2
static const size_t kTable = size_t(1) << 21;
struct Entry {
  uintptr_t key;
  uint64_t seen;  // content at the first access: a later one without a recorded write in between means that
                  // code without callbacks (libc, libstdc++) wrote there
  unsigned char bits, conflict, hidden;
};
static Entry* g_table = nullptr;
static size_t g_fill = 0;
static Entry* slot(uintptr_t key) {
  size_t h = (size_t)((key * 0x9E3779B97F4A7C15ull) >> 43) & (kTable - 1);
  while (g_table[h].key && g_table[h].key != key) h = (h + 1) & (kTable - 1);
  return &g_table[h];
}
static void record(uintptr_t g, bool write) {
  Entry* e = slot(g);
  if (!e->key) {
    if (++g_fill > kTable / 2) abort();
    e->key = g;
  }
  const uint64_t now = *(volatile uint64_t*)(g << 3);
  if (!e->bits) e->seen = now;
  else if (e->seen != now && !(e->bits & 10)) e->hidden = 1;
  e->bits |= (unsigned char)((write ? 2 : 1) << (t_id == 1 ? 0 : 2));
  g_recorded++;
}
void clear_record() {
  if (!g_table) g_table = (Entry*)mmap(nullptr, kTable * sizeof(Entry), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memset(g_table, 0, kTable * sizeof(Entry));
  g_fill = 0, g_recorded = 0;
}
int freeze_conflicts() {
  int n = 0;
  for (size_t i = 0; i < kTable; i++) {
    Entry& e = g_table[i];
    bool c = e.key && ((e.hidden && (e.bits & 3) && (e.bits & 12)) || ((e.bits & 2) && (e.bits & 12)) || ((e.bits & 8) && (e.bits & 3)));
    e.conflict = c;
    n += c;
  }
  return n;
}
long recorded() { return g_recorded; }
long points(int tid) { return g_points[tid]; }
long switches() { return g_switches; }

static inline void access(const void* p, size_t n, bool write) {
  if (!t_id || g_mode == kPlain) return;
  uintptr_t a = (uintptr_t)p >> 3, b = ((uintptr_t)p + (n ? n - 1 : 0)) >> 3;
  if (g_mode == kAll) return point();
  if (g_mode == kRecord) {
    for (uintptr_t g = a; g <= b; g++) record(g, write);
    return;
  }
  for (uintptr_t g = a; g <= b; g++) {
    Entry* e = slot(g);
    if (e->key && e->conflict) return point();
  }
}

struct Worker {
  pthread_t th;
  Body f;
  void* a;
};
static Worker g_w[3];
static bool g_started = false;
static void* worker(void* arg) {
  int id = (int)(intptr_t)arg;
  t_id = id;
  for (;;) {
    wait(&g_go[id]);
    g_w[id].f(g_w[id].a);
    g_done[id] = true;
    int other = 3 - id;
    if (g_done[other]) {
      sem_post(&g_end);
    } else {
      g_cur = other;
      sem_post(&g_go[other]);
    }
  }
  return nullptr;
}
void run(Body f1, void* a1, Body f2, void* a2, int first, const Preempt* p, int np, Mode mode) {
  if (!g_started) {
    g_started = true;
    for (int i = 0; i < 3; i++) sem_init(&g_go[i], 0, 0);
    sem_init(&g_end, 0, 0);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4 << 20);
    for (int i = 1; i < 3; i++)
      if (pthread_create(&g_w[i].th, &at, worker, (void*)(intptr_t)i)) abort();
  }
  g_mode = mode;
  g_pre = p, g_npre = np, g_used = 0, g_switches = 0;
  g_w[1].f = f1, g_w[1].a = a1, g_w[2].f = f2, g_w[2].a = a2;
  g_done[1] = g_done[2] = false;
  g_points[1] = g_points[2] = 0;
  g_cur = first;
  g_since = 0;
  sem_post(&g_go[first]);
  wait(&g_end);
  g_mode = kPlain;
}
void pin(int k) {  // one core per process: hand-overs are cheaper
  cpu_set_t all, one;
  if (sched_getaffinity(0, sizeof all, &all)) return;
  int n = CPU_COUNT(&all);
  k = n > 0 ? k % n : 0;
  for (int c = 0; c < CPU_SETSIZE; c++)
    if (CPU_ISSET(c, &all) && k-- == 0) {
      CPU_ZERO(&one);
      CPU_SET(c, &one);
      sched_setaffinity(0, sizeof one, &one);
    }
}
void alone(int tid, Body f, void* a) {
  int old = t_id;
  Mode m = g_mode;
  t_id = tid, g_mode = kPlain;
  f(a);
  t_id = old, g_mode = m;
}
// A thread that would block gives way instead.
static bool give_way() {
  if (!t_id) return false;
  if (g_done[3 - t_id]) return false;
  hand_over();
  return true;
}
}  // namespace sched

// ---- blocking primitives ----------------------------------------------------------------------------
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  while (t_id) {
    int e = pthread_mutex_trylock(m);
    if (e != EBUSY) return e;
    if (!sched::give_way()) break;
  }
  return __real_pthread_mutex_lock(m);
}
// std::call_once
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  volatile int* s = (volatile int*)o;
  while (*s != 2) {
    if (*s == 0) {
      *s = 1;
      f();
      *s = 2;
    } else if (!sched::give_way()) {
      sched_yield();
    }
  }
  return 0;
}
// function-local statics
int __wrap___cxa_guard_acquire(uint64_t* g) {
  unsigned char* b = (unsigned char*)g;
  while (!b[0]) {
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    if (!sched::give_way()) sched_yield();
  }
  return 0;
}
void __wrap___cxa_guard_release(uint64_t* g) { ((unsigned char*)g)[1] = 0, ((unsigned char*)g)[0] = 1; }
void __wrap___cxa_guard_abort(uint64_t* g) { ((unsigned char*)g)[1] = 0; }

// ---- accesses ------------------------------------------------------------------------------------------
#define RW(N)                                                                  \
  void __tsan_read##N(void* p) { sched::access(p, N, false); }                 \
  void __tsan_write##N(void* p) { sched::access(p, N, true); }                 \
  void __tsan_unaligned_read##N(void* p) { sched::access(p, N, false); }       \
  void __tsan_unaligned_write##N(void* p) { sched::access(p, N, true); }       \
  void __tsan_volatile_read##N(void* p) { sched::access(p, N, false); }        \
  void __tsan_volatile_write##N(void* p) { sched::access(p, N, true); }        \
  void __tsan_read##N##_pc(void* p, void*) { sched::access(p, N, false); }     \
  void __tsan_write##N##_pc(void* p, void*) { sched::access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { sched::access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { sched::access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { sched::access(p, 8, true); }
void __tsan_vptr_read(void** p) { sched::access(p, 8, false); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (n) sched::access(s, n, false), sched::access(d, n, true);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (n) sched::access(s, n, false), sched::access(d, n, true);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (n) sched::access(d, n, true);
  return __real_memset(d, c, n);
}
// text functions of the C library
int __real_vsnprintf(char*, size_t, const char*, va_list);
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list a) {
  if (n) sched::access(d, n, true);
  return __real_vsnprintf(d, n, f, a);
}
int __wrap_snprintf(char* d, size_t n, const char* f, ...) {
  va_list a;
  va_start(a, f);
  int r = __wrap_vsnprintf(d, n, f, a);
  va_end(a);
  return r;
}
int __wrap___snprintf_chk(char* d, size_t n, int, size_t, const char* f, ...) {
  va_list a;
  va_start(a, f);
  int r = __wrap_vsnprintf(d, n, f, a);
  va_end(a);
  return r;
}
int __wrap___vsnprintf_chk(char* d, size_t n, int, size_t, const char* f, va_list a) { return __wrap_vsnprintf(d, n, f, a); }
static int text(char* d, const char* f, va_list a) {
  va_list b;
  va_copy(b, a);
  int n = __real_vsnprintf(nullptr, 0, f, b);
  va_end(b);
  if (n >= 0) sched::access(d, (size_t)n + 1, true);
  return __real_vsnprintf(d, (size_t)n + 1, f, a);
}
int __wrap_sprintf(char* d, const char* f, ...) {
  va_list a;
  va_start(a, f);
  int r = text(d, f, a);
  va_end(a);
  return r;
}
int __wrap___sprintf_chk(char* d, int, size_t, const char* f, ...) {
  va_list a;
  va_start(a, f);
  int r = text(d, f, a);
  va_end(a);
  return r;
}
int __wrap_vsprintf(char* d, const char* f, va_list a) { return text(d, f, a); }
int __wrap___vsprintf_chk(char* d, int, size_t, const char* f, va_list a) { return text(d, f, a); }
size_t __real_strlen(const char*);
size_t __wrap_strlen(const char* s) {
  size_t n = __real_strlen(s);
  sched::access(s, n + 1, false);
  return n;
}
char* __real_strcpy(char*, const char*);
char* __wrap_strcpy(char* d, const char* s) {
  size_t n = __real_strlen(s) + 1;
  sched::access(s, n, false), sched::access(d, n, true);
  return __real_strcpy(d, s);
}
char* __real_strncpy(char*, const char*, size_t);
char* __wrap_strncpy(char* d, const char* s, size_t n) {
  if (n) sched::access(d, n, true);
  return __real_strncpy(d, s, n);
}
char* __real_strcat(char*, const char*);
char* __wrap_strcat(char* d, const char* s) {
  sched::access(d, __real_strlen(d) + __real_strlen(s) + 1, true);
  return __real_strcat(d, s);
}
#define ATOMIC(B, T)                                                                                                        \
  T __tsan_atomic##B##_load(const volatile T* p, int) {                                                                     \
    sched::access((const void*)p, sizeof(T), false);                                                                        \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                            \
  }                                                                                                                         \
  void __tsan_atomic##B##_store(volatile T* p, T v, int) {                                                                  \
    sched::access((const void*)p, sizeof(T), true);                                                                         \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                               \
  }                                                                                                                         \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int) {                                                                  \
    sched::access((const void*)p, sizeof(T), true);                                                                         \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                                     \
  }                                                                                                                         \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) {                                                                 \
    sched::access((const void*)p, sizeof(T), true);                                                                         \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                                      \
  }                                                                                                                         \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) {                                                                 \
    sched::access((const void*)p, sizeof(T), true);                                                                         \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                                      \
  }                                                                                                                         \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) {                                                                 \
    sched::access((const void*)p, sizeof(T), true);                                                                         \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                                      \
  }                                                                                                                         \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) {                                                                  \
    sched::access((const void*)p, sizeof(T), true);                                                                         \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                         \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) {                                                                 \
    sched::access((const void*)p, sizeof(T), true);                                                                         \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                                      \
  }                                                                                                                         \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {                                      \
    sched::access((const void*)p, sizeof(T), true);                                                                         \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                 \
  }                                                                                                                         \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) {                                        \
    sched::access((const void*)p, sizeof(T), true);                                                                         \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                 \
  }                                                                                                                         \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) {                                            \
    sched::access((const void*)p, sizeof(T), true);                                                                         \
    __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                       \
    return e;                                                                                                               \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
}

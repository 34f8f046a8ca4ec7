#include "sched.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <sys/types.h>
#include <unistd.h>
#include <time.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <random>
#include <string>

namespace sched {
int nproc_override = 0;
void (*on_stuck)(const char*) = nullptr;
bool (*fault_target)(int) = nullptr;
char fault_kind = 0;
long fault_at = -1, fault_short = 0;
bool fault_persist = false, fault_partial = false;
int fault_part = 0;
int fault_errno = ENOSPC;
unsigned long fault_writes = 0, fault_reads = 0, fault_injected = 0;
unsigned long file_ops = 0;
unsigned long max_steps = 3000000;

namespace {
enum State { Ready, WaitMutex, WaitCond, WaitJoin, Done };
struct Thr {
  int id = 0;
  State st = Ready;
  void* obj = nullptr;     // mutex / cond / joined thread
  bool timed = false, timedOut = false;
  pthread_t handle{};
  sem_t sem;
  long prio = 0;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  bool detached = false;
};
struct Mtx { int owner = -1; int count = 0; };

bool active = false;
std::string policy;
bool spurious = false;
std::mt19937 rng;
std::vector<Thr*> thr;
std::map<void*, Mtx> mtx;
int cur = 0;
unsigned long nsteps = 0, ncreated = 0;
bool frozen = false, frozenBlocked = false;
std::vector<unsigned long> changePoints;
long lowPrio = 0;
std::string text;
thread_local Thr* self = nullptr;
std::atomic<int> aliveCount{0};

template <typename F> F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

bool isEnabled(Thr* t) {
  switch (t->st) {
    case Ready: return true;
    case WaitMutex: { auto i = mtx.find(t->obj); return i == mtx.end() || i->second.owner == -1; }
    case WaitJoin: return static_cast<Thr*>(t->obj)->st == Done;
    default: return false;
  }
}

void stuck(const char* kind) {
  active = false;
  if (on_stuck) on_stuck(kind);
  _exit(99);
}

Thr* pick(bool mustSwitch) {
  static thread_local std::vector<Thr*> en;
  en.clear();
  for (Thr* t : thr) if (isEnabled(t)) en.push_back(t);
  if (spurious && !frozen) {
    // a waiting thread may be woken without a notification
    if (rng() % 16 == 0)
      for (Thr* t : thr) if (t->st == WaitCond && rng() % 2) { t->st = WaitMutex; t->obj = t->obj; }
  }
  if (en.empty()) {
    // Timed waits may expire
    for (Thr* t : thr) if (t->st == WaitCond && t->timed) { t->timedOut = true; t->st = Ready; en.push_back(t); break; }
    if (en.empty()) stuck("deadlock");
  }
  Thr* me = thr[cur];
  bool meOk = false;
  for (Thr* t : en) if (t == me) meOk = true;
  if (frozen) {
    for (Thr* t : en) if (t->id == 0) return t;
    frozenBlocked = true; frozen = false;
  }
  if (en.size() == 1) return en[0];
  if (policy == "rand") return en[rng() % en.size()];
  if (policy == "sticky") { if (meOk && rng() % 8) return me; return en[rng() % en.size()]; }
  if (policy == "rr") { for (Thr* t : en) if (t->id > cur) return t; return en[0]; }
  if (policy == "starve") { // encoding threads only run when the main thread is blocked
    for (Thr* t : en) if (t->id == 0) return t;
    if (meOk && rng() % 4) return me;
    return en[rng() % en.size()];
  }
  if (policy == "eager") { // main thread only runs when nothing else can
    std::vector<Thr*> o; for (Thr* t : en) if (t->id != 0) o.push_back(t);
    if (o.empty()) return en[0];
    return o[rng() % o.size()];
  }
  if (policy == "lifo") { return en.back(); }
  // pct
  for (unsigned long c : changePoints) if (c == nsteps) me->prio = --lowPrio;
  Thr* best = en[0];
  for (Thr* t : en) if (t->prio > best->prio) best = t;
  (void)mustSwitch;
  return best;
}

void switchTo(Thr* t) {
  Thr* me = thr[cur];
  if (text.size() < 20000) { text += char('0' + (t->id % 75)); }
  if (t == me) return;
  cur = t->id;
  sem_post(&t->sem);
  if (me->st != Done) {
    while (sem_wait(&me->sem) != 0) {}
  }
}

void point() {
  if (!active || !self) return;
  if (++nsteps > max_steps) stuck("livelock");
  switchTo(pick(false));
}

// give up the processor until enabled
void block() {
  if (++nsteps > max_steps) stuck("livelock");
  switchTo(pick(true));
}

bool controlled() { return active && self; }

void acquire(void* m) {
  Thr* me = self;
  while (mtx[m].owner != -1) { me->st = WaitMutex; me->obj = m; block(); }
  me->st = Ready;
  mtx[m].owner = me->id;
  mtx[m].count = 1;
}

bool isRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

std::map<Thr*, void*> condOf;

void* trampoline(void* p) {
  Thr* t = static_cast<Thr*>(p);
  self = t;
  while (sem_wait(&t->sem) != 0) {}
  t->ret = t->fn(t->arg);
  --aliveCount;
  t->st = Done;
  self = nullptr;
  if (active) {
    if (++nsteps > max_steps) stuck("livelock");
    Thr* n = pick(true);
    cur = n->id;
    sem_post(&n->sem);
  }
  return t->ret;
}
struct Plain { void* (*fn)(void*); void* arg; };
void* plainTrampoline(void* p) {
  Plain q = *static_cast<Plain*>(p);
  delete static_cast<Plain*>(p);
  void* r = q.fn(q.arg);
  --aliveCount;
  return r;
}
}  // namespace

void start(const std::string& pol, unsigned seed) {
  policy = pol; spurious = false;
  size_t plus = policy.find('+');
  if (plus != std::string::npos) { spurious = policy.substr(plus) == "+spur"; policy = policy.substr(0, plus); }
  if (policy == "off" || policy.empty()) return;
  rng.seed(seed);
  Thr* m = new Thr(); m->id = 0; sem_init(&m->sem, 0, 0); m->prio = 1000 + rng() % 1000;
  thr.clear(); thr.push_back(m); self = m; cur = 0; nsteps = 0; text.clear(); mtx.clear();
  changePoints.clear();
  if (policy.compare(0, 3, "pct") == 0) {
    int d = atoi(policy.c_str() + 3);
    for (int i = 0; i < d; i++) changePoints.push_back(1 + rng() % 600);
  }
  active = true;
}
void stop() { active = false; }
void freeze(bool on) { frozen = on && active; if (on) frozenBlocked = false; }
bool frozen_main_blocked() { return frozenBlocked; }
int alive() { return aliveCount; }
unsigned long steps() { return nsteps; }
unsigned long created() { return ncreated; }
std::string schedule_text() { return text; }
}  // namespace sched

using namespace sched;

// the process ends before, halfway or after the operation
template <typename F>
[[noreturn]] static void killed(size_t n, F op) {
  size_t part = fault_part == 0 ? 0 : fault_part == 1 ? (n + 1) / 2 : n;
  if (part && op(part) < 0) {}
  _exit(93);
}
extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!controlled()) return r(m);
  Mtx& x = mtx[m];
  if (x.owner == self->id) { if (isRecursive(m)) { ++x.count; return 0; } stuck("selfdeadlock"); }
  point();
  acquire(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!controlled()) return r(m);
  point();
  Mtx& x = mtx[m];
  if (x.owner == -1) { x.owner = self->id; x.count = 1; return 0; }
  if (x.owner == self->id && isRecursive(m)) { ++x.count; return 0; }
  return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!controlled()) return r(m);
  auto i = mtx.find(m);
  if (i == mtx.end() || i->second.owner != self->id) return r(m);
  if (--i->second.count == 0) { mtx.erase(i); point(); }
  return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  Thr* me = self;
  int cnt = mtx[m].count;
  mtx.erase(m);
  me->st = WaitCond; me->obj = m; me->timed = timed; me->timedOut = false;
  condOf[me] = c;
  block();
  condOf.erase(me);
  me->timed = false;
  acquire(m);
  mtx[m].count = cnt;
  return me->timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!controlled()) return r(c, m);
  return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
  if (!controlled()) return r(c, m, t);
  return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
  if (!controlled()) return r(c, m, k, t);
  return condWait(c, m, true);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!controlled()) return r(c);
  for (Thr* t : thr)
    if (t->st == WaitCond && condOf[t] == c) t->st = WaitMutex;  // obj is the mutex
  point();
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
  static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!controlled()) return r(c);
  std::vector<Thr*> w;
  for (Thr* t : thr) if (t->st == WaitCond && condOf[t] == c) w.push_back(t);
  if (!w.empty()) w[rng() % w.size()]->st = WaitMutex;
  point();
  return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  ++ncreated;
  ++aliveCount;
  if (!controlled()) {
    int e = r(h, a, plainTrampoline, new Plain{fn, arg});
    if (e) --aliveCount;
    return e;
  }
  Thr* t = new Thr();
  t->id = thr.size(); t->fn = fn; t->arg = arg; sem_init(&t->sem, 0, 0);
  t->prio = 1000 + rng() % 1000;
  thr.push_back(t);
  int e = r(h, a, trampoline, t);
  if (e) { thr.pop_back(); --aliveCount; return e; }
  t->handle = *h;
  point();
  return 0;
}
int pthread_join(pthread_t h, void** ret) {
  static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
  if (!controlled()) return r(h, ret);
  Thr* t = nullptr;
  for (Thr* x : thr) if (x->id != 0 && pthread_equal(x->handle, h) && !x->detached) t = x;
  if (t) {
    point();
    while (t->st != Done) { self->st = WaitJoin; self->obj = t; block(); self->st = Ready; }
    self->st = Ready;
    t->detached = true;
  }
  return r(h, ret);
}

// 0: go on with n bytes (n may be reduced); -1: refuse; -2: the process ends here
static int fault(char kind, int fd, size_t& n) {
  if (!fault_target || !fault_target(fd)) return 0;
  unsigned long k = kind == 'w' ? ++fault_writes : ++fault_reads;
  if (fault_short > 0 && n > size_t(fault_short)) n = fault_short;
  if (fault_kind == (kind == 'w' ? 'k' : 'j') && long(k) == fault_at) return -2;
  if (fault_kind != kind || fault_at < 0) return 0;
  if (long(k) < fault_at || (long(k) > fault_at && !fault_persist)) return 0;
  if (long(k) == fault_at && fault_partial && n > 1) { n = (n + 1) / 2; ++fault_at; return 0; }
  ++fault_injected;
  errno = fault_errno;
  return -1;
}
ssize_t write(int fd, const void* b, size_t n) {
  static auto r = real<ssize_t (*)(int, const void*, size_t)>("write");
  if (fd > 2) {
    ++file_ops; point();
    int f = fault('w', fd, n);
    if (f == -2) killed(n, [&](size_t p) { return r(fd, b, p); });
    if (f) return -1;
  }
  return r(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  static auto r = real<ssize_t (*)(int, const struct iovec*, int)>("writev");
  static auto w = real<ssize_t (*)(int, const void*, size_t)>("write");
  if (fd > 2) {
    ++file_ops; point();
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    size_t all = n;
    int f = fault('w', fd, n);
    if (f == -2) {
      std::string bytes;
      for (int i = 0; i < c; i++) bytes.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
      killed(n, [&](size_t p) { return w(fd, bytes.data(), p); });
    }
    if (f) return -1;
    if (n < all) for (int i = 0; i < c; i++) if (v[i].iov_len) return w(fd, v[i].iov_base, std::min(n, v[i].iov_len));
  }
  return r(fd, v, c);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  static auto r = real<ssize_t (*)(int, const void*, size_t, off_t)>("pwrite");
  if (fd > 2) { ++file_ops; point(); if (int f = fault('w', fd, n)) { if (f == -2) killed(n, [&](size_t p) { return r(fd, b, p, o); }); return -1; } }
  return r(fd, b, n, o);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  static auto r = real<ssize_t (*)(int, void*, size_t, off_t)>("pread");
  if (fd > 2) { ++file_ops; point(); if (int f = fault('r', fd, n)) { if (f == -2) _exit(93); return -1; } }
  return r(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t read(int fd, void* b, size_t n) {
  static auto r = real<ssize_t (*)(int, void*, size_t)>("read");
  if (fd > 2) { ++file_ops; point(); if (int f = fault('r', fd, n)) { if (f == -2) _exit(93); return -1; } }
  return r(fd, b, n);
}
off64_t lseek64(int fd, off64_t o, int w) {
  static auto r = real<off64_t (*)(int, off64_t, int)>("lseek64");
  if (fd > 2) { ++file_ops; point(); }
  return r(fd, o, w);
}
off_t lseek(int fd, off_t o, int w) {
  static auto r = real<off_t (*)(int, off_t, int)>("lseek");
  if (fd > 2) { ++file_ops; point(); }
  return r(fd, o, w);
}
long sysconf(int n) {
  static auto r = real<long (*)(int)>("sysconf");
  if ((n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) && nproc_override > 0) return nproc_override;
  return r(n);
}
int get_nprocs(void) {
  static auto r = real<int (*)(void)>("get_nprocs");
  if (nproc_override > 0) return nproc_override;
  return r();
}
}

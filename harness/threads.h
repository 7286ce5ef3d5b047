// Deterministic threads: one runs at a time, the next one is drawn at every lock, unlock, wait and notification.
// The driver is linked with --wrap=pthread_mutex_lock,unlock; the condition variable's functions are replaced here.
#pragma once
#include "jw.h"
#include <condition_variable>
#include <mutex>
#include <semaphore.h>
#include <thread>
struct Threads {
  enum { READY, MUTEX, COND, DONE };
  struct T { int state = READY; const void *on = nullptr; sem_t sem; };
  Rng *rng = nullptr; std::vector<T *> t; std::map<const void *, int> owner; sem_t over; bool stuck = false; unsigned spurious = 0;
  static Threads *&now() { static Threads *s; return s; }
  static int &me() { static thread_local int i = -1; return i; }
  static bool mine() { return me() >= 0; }
  bool canRun(int i) { return t[i]->state == READY || (t[i]->state == MUTEX && !owner.count(t[i]->on)); }
  // gives the turn to somebody, maybe to the caller
  void turn() {
    std::vector<int> r, c; for (size_t i = 0; i < t.size(); ++i) { if (canRun(i)) r.push_back(i); if (t[i]->state == COND) c.push_back(i); }
    if (c.size() && r.size() && rng->p(spurious)) { int w = rng->pick(c); t[w]->state = MUTEX; t[w]->on = cm[w]; }   // a spurious wake-up
    if (r.empty()) { stuck = false; for (auto *x : t) stuck = stuck || x->state != DONE; sem_post(&over); if (t[me()]->state == DONE) return; for (;;) sem_wait(&t[me()]->sem); }
    int n = rng->pick(r), self = me(); if (n == self) return;
    bool gone = t[self]->state == DONE; sem_post(&t[n]->sem); if (!gone) while (sem_wait(&t[self]->sem)) {}
  }
  std::map<int, const void *> cm;
  void lock(const void *m) { turn(); T &x = *t[me()]; x.state = MUTEX; x.on = m; while (owner.count(m)) turn(); x.state = READY; owner[m] = me(); }
  void unlock(const void *m) { owner.erase(m); turn(); }
  void wait(const void *c, const void *m) { T &x = *t[me()]; cm[me()] = m; x.state = COND; x.on = c; owner.erase(m); turn(); while (x.state == COND) turn(); x.state = MUTEX; x.on = m; while (owner.count(m)) turn(); x.state = READY; owner[m] = me(); }
  void notify(const void *c, bool all) {
    std::vector<int> w; for (size_t i = 0; i < t.size(); ++i) if (t[i]->state == COND && t[i]->on == c) w.push_back(i);
    if (w.size()) { if (!all) w = {rng->pick(w)}; for (int i : w) { t[i]->state = MUTEX; t[i]->on = cm[i]; } }
    turn();
  }
  // runs the bodies to the end, or until nobody can go on
  void run(Rng &g, const std::vector<std::function<void()>> &bodies) {
    rng = &g; now() = this; sem_init(&over, 0, 0); for (size_t i = 0; i < bodies.size(); ++i) { t.push_back(new T); sem_init(&t[i]->sem, 0, 0); }
    for (size_t i = 0; i < bodies.size(); ++i) std::thread([this, i, bodies] { me() = i; while (sem_wait(&t[i]->sem)) {} bodies[i](); t[i]->state = DONE; turn(); }).detach();
    sem_post(&t[g.u(t.size())]->sem); while (sem_wait(&over)) {}
  }
};
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!Threads::mine()) return __real_pthread_mutex_lock(m); Threads::now()->lock(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!Threads::mine()) return __real_pthread_mutex_unlock(m); Threads::now()->unlock(m); return 0; }
}
void std::condition_variable::wait(std::unique_lock<std::mutex> &l) { if (!Threads::mine()) abort(); Threads::now()->wait(this, l.mutex()->native_handle()); }
void std::condition_variable::notify_one() noexcept { if (Threads::mine()) Threads::now()->notify(this, false); }
void std::condition_variable::notify_all() noexcept { if (Threads::mine()) Threads::now()->notify(this, true); }

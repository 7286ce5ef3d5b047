// Drives contexts, events, groups, timers, locks, remote spawns and threads on a real Dispatcher.  Time stands still: a timer
// expires when the driver says so, and the driver takes over whenever the dispatcher would sleep.
// Linked with --wrap=epoll_wait,timerfd_settime,write.   usage: sched <seed> <dir> <rounds>
#include "jw.h"
#include "System/Context.h"
#include "System/ContextGroup.h"
#include "System/ContextGroupTimeout.h"
#include "System/Dispatcher.h"
#include "System/Event.h"
#include "System/EventLock.h"
#include "System/InterruptedException.h"
#include "System/RemoteContext.h"
#include "System/Timer.h"
#include <atomic>
#include <future>
#include <memory>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <thread>
#include <unistd.h>
using namespace platform_system;
extern "C" { int __real_epoll_wait(int, epoll_event *, int, int); int __real_timerfd_settime(int, int, const itimerspec *, itimerspec *); ssize_t __real_write(int, const void *, size_t); }
static std::thread::id here = std::this_thread::get_id();
static std::atomic<int> written{0};
struct Driver;
static Driver *D;
struct Remote { int id, e; std::promise<void> go; };
struct Driver {
  Rng rng; std::ofstream out; Stats st; Driver(uint64_t s, std::string dir) : rng(s), out(dir + "/t.ndjson") {}
  Dispatcher *d = nullptr; int last = 1, alive = 0, rescues = 0; bool ending = false;
  static const int L = 2, NE = 5, NG = 3;
  std::map<int, Event> ev; std::vector<ContextGroup *> g; std::vector<int> dying, users; std::map<int, NativeContext *> native; std::map<int, int> armed;   // armed: sleeping context -> its timer
  std::map<int, Remote *> threads;
  void log(const J &j) { out << j.str() << "\n"; }
  J j(const char *op, int c) { st.add(op); return J().t("op", op).n("c", c); }
  void told(int c, bool i) { log(j("told", c).b("i", i)); if (i) st.add("interrupted"); }
  std::chrono::nanoseconds time(int id) { return std::chrono::seconds(1000000 + id); }
  void settime(int fd, int id) { for (auto i = armed.begin(); i != armed.end();) if (i->second == fd) i = armed.erase(i); else ++i; armed[id] = fd; }
  bool expire() {
    std::vector<int> v; for (auto &a : armed) v.push_back(a.first); if (v.empty()) return false;
    int id = rng.pick(v), fd = armed[id]; armed.erase(id); log(J().t("op", "expire").n("n", id)); st.add("expire");
    itimerspec t = {{0, 0}, {0, 1}}; __real_timerfd_settime(fd, 0, &t, nullptr); pollfd p = {fd, POLLIN, 0}; ::poll(&p, 1, 5000); return true;
  }
  bool over() {
    if (threads.empty()) return false; auto it = threads.begin(); std::advance(it, rng.u(threads.size())); Remote *r = it->second; threads.erase(it);
    log(J().t("op", "over").n("n", r->id).n("e", r->e)); st.add("over"); int w = written; r->go.set_value(); for (int k = 0; k < 20000 && written == w; ++k) usleep(100); return true;
  }
  // nobody can run: something has to happen
  void idle() { log(J().t("op", "idle")); st.add("idle"); if (++rescues > 3000) { log(J().t("op", "end")); out.flush(); _exit(0); } if (rng.p(70) && (expire() || over())) return; if (rng.p(50) && over()) return; int n = ++last; log(J().t("op", "rescue").n("n", n)); ++alive; d->remoteSpawn([=] { begin(n); rescue(n); end(n, 0); }); }
  void rescue(int c) { for (int e = L + 1; e <= NE; ++e) set(c, e); std::vector<int> v; for (auto &x : native) if (x.first != c) v.push_back(x.first); if (rng.p(50)) for (int n : v) interrupt(c, n); while (rng.p(60) && over()) {} while (rng.p(60) && expire()) {} }
  void set(int c, int e) { log(j("set", c).n("e", e)); ev[e].set(); }
  void interrupt(int c, int n) { log(j("interrupt", c).n("n", n)); d->interrupt(native[n]); }
  void begin(int c) { native[c] = d->getCurrentContext(); log(j("start", c)); }
  void end(int c, int e) { native.erase(c); armed.erase(c); --alive; log(j("finish", c).n("e", e)); }
  // all blocking calls return true when interrupted
  template <class F> bool tries(int c, F f) { bool i = false; try { f(); } catch (InterruptedException &) { i = true; } told(c, i); return i; }
  bool sleep(int c, Timer &t) { log(j("sleep", c)); bool i = tries(c, [&] { t.sleep(time(c)); }); armed.erase(c); return i; }
  void ginterrupt(int c, int k, ContextGroup *x) { log(j("ginterrupt", c).n("g", k)); if (x) x->interrupt(); }
  void spawn(int c, int k) { int n = ++last; log(j("spawn", c).n("n", n).n("g", k + 1)); ++alive; int ops = 1 + rng.u(7); g[k]->spawn([=] { begin(n); run(n, k, ops, 0, 0); end(n, 0); }); }
  // a random series of operations; true: interrupted, and giving up.  level: groups above it may be waited for; locks above held may be taken
  bool run(int c, int level, int ops, int held, int depth) {
    Timer t(*d);
    for (int k = 0; k < ops && !ending; ++k) if (op(c, level, held, depth, t) && rng.p(40)) return true;
    return false;
  }
  bool op(int c, int level, int held, int depth, Timer &t) {
    int x = rng.u(100), e = L + 1 + rng.u(NE - L), k = rng.u(NG);
    if (x < 12) { log(j("yield", c)); d->yield(); log(j("yielded", c)); return false; }
    if (x < 26) { log(j("wait", c).n("e", e)); return tries(c, [&] { ev[e].wait(); }); }
    if (x < 36) { set(c, e); return false; }
    if (x < 41) { log(j("clear", c).n("e", e)); ev[e].clear(); return false; }
    if (x < 44) { bool v = ev[e].get(); log(j("get", c).n("e", e).b("v", v)); return false; }
    if (x < 54) { if (alive > 9) return false; spawn(c, k); return false; }
    if (x < 57) { ginterrupt(c, k + 1, g[k]); return false; }
    if (x < 62) { if (k <= level || dying[k]) return false; log(j("gwait", c).n("g", k + 1)); ++users[k]; g[k]->wait(); --users[k]; log(j("gwaited", c)); return false; }
    if (x < 64) { if (k <= level || dying[k] || users[k]) return false; ++dying[k]; ginterrupt(c, k + 1, nullptr); log(j("gwait", c).n("g", k + 1)); { auto *p = g[k]; delete p; } g[k] = new ContextGroup(*d); --dying[k]; log(j("gwaited", c)); return false; }
    if (x < 66) { std::vector<int> v; for (auto &y : native) v.push_back(y.first); interrupt(c, rng.pick(v)); return false; }
    if (x < 68) { bool v = d->interrupted(); log(j("check", c).b("v", v)); return false; }
    if (x < 75) return sleep(c, t);
    if (x < 77) { log(j("nap", c)); return tries(c, [&] { t.sleep(std::chrono::nanoseconds(0)); }); }
    if (x < 82) { expire(); return false; }
    if (x < 85) { over(); return false; }
    if (x < 88) { if (alive > 9) return false; int n = ++last, o = 1 + rng.u(5); log(j("rspawn", c).n("n", n)); ++alive; d->remoteSpawn([=] { begin(n); run(n, level, o, 2, 0); end(n, 0); }); return false; }
    if (depth > 2) return false;
    if (x < 93) {
      if (held >= L) return false; int l = held + 1 + rng.u(L - held); std::unique_ptr<EventLock> p; log(j("lock", c).n("e", l));
      if (tries(c, [&] { p.reset(new EventLock(ev[l])); })) return true;
      bool i = run(c, level, 1 + rng.u(4), l, depth + 1); log(j("set", c).n("e", l)); p.reset(); return i;
    }
    if (x < 96) {
      if (alive > 9) return false; int n = ++last, e2 = 1000 + n, o = 1 + rng.u(4); log(j("context", c).n("n", n).n("e", e2)); ++alive;
      auto *p = new Context<int>(*d, [=] { begin(n); run(n, level, o, L, depth + 1); end(n, e2); return n * 7; });
      bool i = run(c, level, rng.u(4), L, depth + 1);
      if (rng.p(60)) { log(j("result", c).n("n", n).n("e", e2)); int v = p->get(); if (v != n * 7) log(J().t("op", "wrong").n("c", c)); log(j("had", c)); }
      if (rng.p(40)) { log(j("interrupt", c).n("n", n)); p->interrupt(); }
      log(j("interrupt", c).n("n", n)); log(j("result", c).n("n", n).n("e", e2)); delete p; log(j("had", c)); return i;
    }
    if (x < 98) {
      int n = ++last, e2 = 1000 + n; Remote *r = new Remote{n, e2}; threads[n] = r; log(j("thread", c).n("n", n).n("e", e2));
      auto *p = new RemoteContext<int>(*d, [=] { r->go.get_future().wait(); return n * 5; });
      bool i = run(c, level, rng.u(4), held, depth + 1);
      if (rng.p(60)) { log(j("join", c).n("e", e2)); int v = p->get(); if (v != n * 5) log(J().t("op", "wrong").n("c", c)); log(j("had", c)); }
      log(j("join", c).n("e", e2)); delete p; log(j("had", c)); delete r; return i;
    }
    if (dying[k] || alive > 9) return false;
    int n = ++last, h = 1000 + n; log(j("timeout", c).n("n", n).n("g", k + 1).n("h", h)); auto *p = new ContextGroupTimeout(*d, *g[k], time(n));
    ++users[k]; bool i = run(c, level, 1 + rng.u(4), held, depth + 1); log(j("ginterrupt", c).n("g", h)); log(j("gwait", c).n("g", h)); delete p; --users[k]; log(j("gwaited", c)); return i;
  }
  void round() {
    d = new Dispatcher; last = 1; alive = 0; rescues = 0; ending = false; ev.clear(); g.clear(); native.clear(); armed.clear(); threads.clear(); dying.assign(NG, 0); users.assign(NG, 0);
    log(J().t("op", "round").n("events", NE).n("locks", L).n("groups", NG)); st.add("rounds");
    for (int e = 1; e <= NE; ++e) { ev[e] = Event(*d); if (e <= L) ev[e].set(); } for (int k = 0; k < NG; ++k) g.push_back(new ContextGroup(*d));
    native[1] = d->getCurrentContext(); run(1, -1, 5 + rng.u(40), 0, 0); ending = true;
    for (int n = 0; alive && n < 300; ++n) { for (int k = 0; k < NG; ++k) ginterrupt(1, k + 1, g[k]); rescue(1); log(j("yield", 1)); d->yield(); log(j("yielded", 1)); }
    log(J().t("op", "end")); if (alive) { out.flush(); st.add("left over"); _exit(0); }
    for (auto *x : g) delete x; ev.clear(); delete d;
  }
};
extern "C" int __wrap_timerfd_settime(int fd, int f, const itimerspec *n, itimerspec *o) { if (n->it_value.tv_sec >= 1000000) D->settime(fd, n->it_value.tv_sec - 1000000); return __real_timerfd_settime(fd, f, n, o); }
extern "C" int __wrap_epoll_wait(int e, epoll_event *v, int m, int t) {
  if (t >= 0) return __real_epoll_wait(e, v, m, t);
  for (;;) { int n = __real_epoll_wait(e, v, m, 0); if (n) return n; D->idle(); }
}
extern "C" ssize_t __wrap_write(int fd, const void *p, size_t n) { ssize_t r = __real_write(fd, p, n); if (std::this_thread::get_id() != here) ++written; return r; }
int main(int, char **v) {
  Driver d(atoll(v[1]), v[2]); D = &d; d.log(J().t("op", "init"));
  for (int n = atoi(v[3]); n--;) d.round();
  d.out.flush(); d.st.write(std::string(v[2]) + "/stats.json"); std::ofstream(std::string(v[2]) + "/t.defs.json") << "{}\n"; _exit(0);
}

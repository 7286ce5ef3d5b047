// Drives BlockingQueue, GroupClose and ObserverManager with deterministic threads.  usage: queues <seed> <dir> <rounds>
#include "threads.h"
#include "Common/BlockingQueue.h"
#include "Common/ObserverManager.h"
#include <algorithm>
#include <memory>
#include <unistd.h>
struct Driver;
struct Watcher { Driver *d; int id; int depth = 0; void told(int call, int a, std::string b); };
struct Driver {
  Rng rng; std::ofstream out; Stats st; int calls = 0, value = 0;
  Driver(uint64_t seed, std::string dir) : rng(seed), out(dir + "/t.ndjson") {}
  // a round's events are written at its end, every call with the answer it got
  std::vector<J> events; std::map<int, size_t> begun;
  void ev(const J &j) { events.push_back(j); }
  void flush() { for (auto &b : begun) events[b.second].b("got", false).b("ok", false).n("a", 0); for (auto &e : events) out << e.str() << "\n"; events.clear(); begun.clear(); }
  int call(const char *k, int v) { int c = ++calls; begun[c] = events.size(); ev(J().t("op", "call").n("c", c).t("k", k).n("v", v)); st.add(k); return c; }
  void ret(int c, bool ok, int v) { events[begun[c]].b("got", true).b("ok", ok).n("a", v); begun.erase(c); ev(J().t("op", "return").n("c", c)); if (!ok) st.add("refused"); }
  typedef BlockingQueue<std::shared_ptr<int>> Q;
  void push(Q &q) { int v = ++value; int c = call("push", v); auto p = std::make_shared<int>(v); bool ok = rng.p(50) ? q.push(p) : q.push(std::move(p)); ret(c, ok, v); }
  bool pop(Q &q) { int c = call("pop", 0); std::shared_ptr<int> v; bool ok = q.pop(v); ret(c, ok, ok ? v ? *v : -1 : 0); return ok; }
  tools::ObserverManager<Watcher> *list = nullptr; std::vector<Watcher> w;
  void observe(int depth) {
    int o = rng.u(w.size()), k = rng.u(20);
    if (k < 7) { int c = call("add", o); ret(c, list->add(&w[o]), o); }
    else if (k < 12) { int c = call("remove", o); ret(c, list->remove(&w[o]), o); }
    else if (k < 13) { int c = call("clear", 0); list->clear(); ret(c, true, 0); }
    else if (depth < 2) { int v = ++value; int c = call("notify", v); list->notify(&Watcher::told, c, v, std::to_string(c)); ret(c, true, v); }
  }
  void round() {
    auto *q = new Q(1 + rng.u(3)); calls = 0; std::vector<std::function<void()>> b; int left = 0; auto *t = new Threads; t->spurious = rng.p(40) ? 8 : 0;
    if (rng.p(30)) {
      list = new tools::ObserverManager<Watcher>; w.assign(2 + rng.u(4), Watcher{this, 0}); for (size_t i = 0; i < w.size(); ++i) w[i].id = i;
      for (int n = 1 + rng.u(3); n--;) b.push_back([this] { for (int k = 3 + rng.u(6); k--;) observe(0); });
    } else {
      int np = 1 + rng.u(3), nc = 1 + rng.u(4); GroupClose<Q> *g = nullptr; if (rng.p(40)) g = new GroupClose<Q>(*q, left = np);
      for (int i = 0; i < np; ++i) { int k = rng.u(5); bool extra = rng.p(10); b.push_back([=] { for (int j = 0; j < k; ++j) push(*q); if (g) for (int e = 0; e <= (int)extra; ++e) { int c = call("leave", 0); g->close(); ret(c, true, 0); } }); }
      for (int i = 0; i < nc; ++i) { int k = rng.p(40) ? 99 : 1 + rng.u(4); b.push_back([=] { for (int j = 0; j < k && pop(*q); ++j) {} }); }
      if (!g && rng.p(80)) for (int n = rng.p(35) ? 2 + rng.u(2) : 1; n--;) { int idle = rng.u(12); bool wait = rng.p(60); b.push_back([=] { for (int j = 0; j < idle; ++j) { int c = call("size", 0); ret(c, true, q->size()); } int c = call(wait ? "closewait" : "close", 0); q->close(wait); ret(c, true, 0); }); }
      if (rng.p(10)) b.push_back([=] { for (int j = 0; j < 3; ++j) { int c = call("size", 0); ret(c, true, q->size()); } });
    }
    ev(J().t("op", "round").n("max", q->capacity()).n("left", left)); t->run(rng, b); ev(J().t("op", "stuck")); flush(); st.add(t->stuck ? "ended with waiting threads" : "ended"); st.add("rounds");
  }
};
void Watcher::told(int call, int a, std::string b) { d->ev(J().t("op", "told").n("c", call).n("o", id).b("good", b == std::to_string(call) && a > 0)); ++depth; if (d->rng.p(15) && depth < 3) d->observe(depth); --depth; }
int main(int, char **v) {
  Driver d(atoll(v[1]), v[2]); d.ev(J().t("op", "init")); d.flush();
  for (int n = atoi(v[3]); n--;) d.round();
  d.out.flush(); d.st.write(std::string(v[2]) + "/stats.json"); std::ofstream(std::string(v[2]) + "/t.defs.json") << "{}\n"; _exit(0);
}

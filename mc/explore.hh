// Depth-bounded exhaustive explorer (stateful DFS, parallel workers, shared visited set).
// Every path over the action alphabet up to the depth bound is executed on the real code;
// a state (canonical hash of implementation memory + virtual OS + reference model) that has already
// been expanded with at least the same remaining depth is not expanded again.
#pragma once
#include "vos.hh"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <string>
#include <vector>
#include <chrono>
#include <algorithm>

namespace ex {
inline double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

struct Shared {
  std::atomic<uint64_t> states, transitions, pruned, paths, table_full, next_task, maxdepth, obs;
  std::atomic<int> stop, timeout;
  std::atomic<int> viol;
  char msg[8192];
  char trace[16384];
};
struct Entry { std::atomic<uint64_t> key; std::atomic<uint32_t> depth; uint32_t pad; };

struct Result { uint64_t states = 0, transitions = 0, pruned = 0, paths = 0, maxdepth = 0, table_full = 0, obs = 0; bool violated = false, complete = true; std::string msg, trace; double secs = 0; };

// Sys must provide: int nactions(); bool enabled(int); std::string step(int) ("" = ok); uint64_t hash();
//                   std::string name(int); struct Slot; void save(Slot&); void restore(const Slot&);
template <class Sys> struct Explorer {
  Sys &sys; int depth; int workers; double budget; size_t table_bits;
  Shared *sh = nullptr; Entry *tab = nullptr; size_t mask = 0;
  std::vector<std::unique_ptr<typename Sys::Slot>> slots;
  std::vector<int> path; double t0 = 0; bool dedup = true, unbounded = false;

  Explorer(Sys &s, int d, int w = 8, double b = 600, size_t bits = 22) : sys(s), depth(d), workers(w), budget(b), table_bits(bits) {}

  bool claim(uint64_t h, uint32_t rem) { // true if must expand
    if (!dedup) { sh->states++; return true; }
    if (h == 0) h = 1;
    size_t i = h & mask;
    for (int probe = 0; probe < 64; probe++, i = (i + 1) & mask) {
      uint64_t k = tab[i].key.load(std::memory_order_relaxed);
      if (k == 0) {
        uint64_t z = 0;
        if (tab[i].key.compare_exchange_strong(z, h)) { sh->states++; k = h; }
        else k = z;
      }
      if (k == h) {
        if (unbounded) { uint32_t z = 0; if (tab[i].depth.compare_exchange_strong(z, 1)) return true; sh->pruned++; return false; }
        uint32_t d = tab[i].depth.load();
        for (;;) {
          if (d >= rem + 1) { sh->pruned++; return false; }
          if (tab[i].depth.compare_exchange_weak(d, rem + 1)) return true;
        }
      }
    }
    sh->table_full++;
    return true;
  }
  std::string trace_str() {
    std::string t; for (int a : path) { t += sys.name(a); t += "\n"; } return t;
  }
  void violation(const std::string &m) {
    int z = 0;
    if (sh->viol.compare_exchange_strong(z, 1)) {
      snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str());
      snprintf(sh->trace, sizeof sh->trace, "%s", trace_str().c_str());
      sh->stop = 1;
    }
  }
  // probes: sequences of observations made in every state reached (and undone); returns with the state restored
  bool probes(const typename Sys::Slot &here) {
    int n = sys.nactions(), p = sys.nprobes();
    for (int a = n; a < n + p; a++) {
      if (!sys.enabled(a)) continue;
      path.push_back(a); std::string v = sys.step(a); sh->transitions++; sh->paths++;
      if (!v.empty()) { violation(v); return false; }
      path.pop_back(); sys.restore(here);
    }
    return true;
  }
  void dfs(int rem) {
    if (sh->stop) return;
    bool pr = sys.nprobes() > 0;
    if (rem == 0 && !pr) { sh->paths++; return; }
    if (now() - t0 > budget) { sh->timeout = 1; sh->stop = 1; return; }
    int d = depth - rem;
    if ((int)slots.size() <= d) slots.resize(d + 1);
    if (!slots[d]) slots[d].reset(new typename Sys::Slot);
    sys.save(*slots[d]);
    if (pr && !probes(*slots[d])) return;
    if (rem == 0) return;
    int n = sys.nactions(); bool dirty = false; bool any = false;
    for (int a = 0; a < n; a++) {
      if (sh->stop) return;
      if (dirty) { sys.restore(*slots[d]); dirty = false; }
      if (!sys.enabled(a)) continue;
      any = true;
      path.push_back(a); dirty = true;
      std::string v = sys.step(a);
      sh->transitions++;
      if (!v.empty()) { violation(v); return; }
      if ((uint64_t)path.size() > sh->maxdepth) sh->maxdepth = path.size();
      if (!sys.terminal() && claim(sys.hash(), rem - 1)) dfs(rem - 1); else sh->paths++;
      path.pop_back();
    }
    if (!any) sh->paths++;
    if (dirty) sys.restore(*slots[d]);
  }
  Result run() {
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    size_t n = 1ull << table_bits; mask = n - 1;
    tab = (Entry *)mmap(nullptr, n * sizeof(Entry), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    t0 = now();
    // tasks: all enabled prefixes of length 1 and 2 (done by workers on demand)
    int A = sys.nactions(); int split = depth >= 2 ? 2 : 1; if (unbounded) depth = 1000000;
    uint64_t ntask = split == 2 ? (uint64_t)A * A : A;
    std::vector<pid_t> kids;
    for (int w = 0; w < workers; w++) {
      fflush(nullptr);
      pid_t p = fork();
      if (p == 0) {
        vos::install_handlers();
        typename Sys::Slot root; sys.save(root);
        for (;;) {
          uint64_t t = sh->next_task++;
          if (t >= ntask || sh->stop) break;
          sys.restore(root); path.clear();
          if (t == 0 && sys.nprobes() && !probes(root)) break;
          int a = split == 2 ? t / A : t, b = split == 2 ? t % A : -1;
          if (!sys.enabled(a)) continue;
          path.push_back(a);
          std::string v = sys.step(a);
          if (b <= 0) sh->transitions++;
          if (!v.empty()) { violation(v); break; }
          if (b <= 0 && !unbounded) claim(sys.hash(), 0);
          if (sys.terminal()) continue;
          if (b <= 0 && sys.nprobes()) { typename Sys::Slot one; sys.save(one); if (!probes(one)) break; }
          if (b >= 0) {
            if (!sys.enabled(b)) continue;
            path.push_back(b);
            v = sys.step(b); sh->transitions++;
            if (!v.empty()) { violation(v); break; }
            if ((uint64_t)path.size() > sh->maxdepth) sh->maxdepth = path.size();
            if (!sys.terminal() && claim(sys.hash(), depth - 2)) dfs(depth - 2); else sh->paths++;
          }
        }
        sh->obs += sys.observations(); sh->states += sys.cases; sh->transitions += sys.cases;
        _exit(0);
      }
      kids.push_back(p);
    }
    bool bad = false;
    for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad = true; if (!sh->viol) fprintf(stderr, "worker died: status %x\n", st); } }
    Result r; r.states = sh->states; r.transitions = sh->transitions; r.pruned = sh->pruned; r.paths = sh->paths; r.maxdepth = sh->maxdepth; r.table_full = sh->table_full; r.obs = sh->obs;
    r.violated = sh->viol; r.msg = sh->msg; r.trace = sh->trace; r.complete = !sh->timeout && !bad; r.secs = now() - t0;
    munmap(tab, n * sizeof(Entry)); munmap(sh, sizeof(Shared));
    if (bad && !r.violated) { r.violated = false; r.complete = false; r.msg = "worker died"; }
    return r;
  }
};
} // namespace ex

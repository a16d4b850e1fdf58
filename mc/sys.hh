// Common base of the explored systems and the registry of checks.
#pragma once
#include "vos.hh"
#include "icb.hh"
#include <memory>
#include <functional>
#include <string>
#include <vector>

struct Sys {
  struct Slot { vos::Snap snap; std::shared_ptr<void> m; };
  virtual ~Sys() {}
  virtual std::string setup() = 0;                 // boot + reach the initial state; "" = ok
  virtual int nactions() = 0;
  virtual int nprobes() { return 0; }              // actions nactions() .. nactions()+nprobes()-1 are tried in every state but lead nowhere
  virtual bool enabled(int) { return true; }
  virtual std::string step(int) = 0;               // "" = property held on this step
  virtual std::string name(int) = 0;
  virtual bool terminal() { return false; }
  virtual uint64_t mhash() = 0;                    // hash of the reference model
  virtual std::shared_ptr<void> msave() = 0;
  virtual void mrestore(const std::shared_ptr<void> &) = 0;
  virtual std::string sample() { return ""; }
  uint64_t obs = 0;                                // observations compared with the oracle
  uint64_t cases = 0;                              // cases enumerated inside the steps (pure functions)
  uint64_t observations() { return obs; }
  uint64_t hash() { return vos::mix(vos::mix(vos::hash_memory(), vos::hash_state()), mhash()); }
  void save(Slot &s) { vos::save(s.snap); s.m = msave(); }
  void restore(const Slot &s) { vos::restore(s.snap); mrestore(s.m); }
};
template <class M> struct SysT : Sys {
  M m;
  std::shared_ptr<void> msave() override { return std::make_shared<M>(m); }
  void mrestore(const std::shared_ptr<void> &p) override { m = *static_cast<M *>(p.get()); }
};

struct Scenario {
  std::string name;
  std::function<std::unique_ptr<Sys>()> make;
  int depth;                 // 0: the whole reachable state space
  int table_bits = 22;
  double budget = 600;
};
typedef std::vector<Scenario> (*ScenFn)(bool thorough);
struct Registrar { Registrar(const char *id, ScenFn f, int order = 0); };

// --- helpers used by all systems
inline std::string run(const char *what = "") {
  vos::Stop s = vos::resume();
  if (s == vos::YIELD) return "";
  if (s == vos::FINISHED) return std::string("server process ended ") + what;
  return vos::crash_info + (*what ? std::string(" (") + what + ")" : "");
}
inline void std_env() {
  setenv("TZ", "UTC", 1); tzset();
  vos::S = vos::State(); vos::S.now_us = 1000000000ll * 1000000;
  vos::put_file("motd", "hello\n");
}

// Driving the real icbd (whole server, real main loop) inside the virtual OS.
#pragma once
#include "vos.hh"
#include <unistd.h>
#include <string>
#include <vector>

namespace icb {
using vos::S;
typedef int (*main_t)(int, char **);
typedef std::vector<std::string> Pkts;

inline std::string vis(const std::string &s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c == 1) o += "|"; else if (c < 32 || c >= 127) { snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; }
  return o;
}
inline std::string join(const Pkts &p) { std::string o; for (auto &x : p) o += "    [" + vis(x) + "]\n"; return o; }

inline std::string pkt(const std::string &payload) { // payload = type byte + data; NUL and length added
  std::string p; p += (char)(payload.size() + 1); p += payload; p += '\0'; return p;
}
inline std::string boot_argv(const std::vector<std::string> &argv) {
  static std::vector<std::string> args; static std::vector<char *> av;
  args = argv;
  av.clear(); for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
  main_t m = (main_t)vos::sym("icbd_main");
  if (!m) return "no icbd_main";
  optind = 0;
  vos::start([]() { main_t f = (main_t)vos::sym("icbd_main"); f((int)av.size() - 1, av.data()); });
  vos::Stop s = vos::resume();
  if (s != vos::YIELD) return "boot failed: " + vos::crash_info;
  return "";
}
inline std::string boot(bool tls = false, std::vector<std::string> extra = {}) {
  std::vector<std::string> args = {"./icbd", "-f", "-p", "7326"};
  if (tls) { args.push_back("-s7327"); }
  for (auto &e : extra) args.push_back(e);
  return boot_argv(args);
}
inline int connect(int host, bool tls = false, int hs = 0) {
  vos::Client c; c.pending = true; c.host = host; c.tls = tls; c.hs = hs;
  // reuse a finished client record so that the state space stays finite
  for (size_t i = 0; i < S.clients.size(); i++)
    if (S.clients[i].srv_closed && S.clients[i].out.empty()) { S.clients[i] = c; return i; }
  S.clients.push_back(c); return S.clients.size() - 1;
}
// split received bytes into packets; err set when the stream is not a sequence of well-formed packets
inline Pkts take(int c, std::string *err = nullptr) {
  Pkts r; std::string &o = S.clients[c].out; size_t i = 0;
  while (i < o.size()) {
    size_t L = (unsigned char)o[i];
    if (L == 0) { if (err) *err = "server sent a packet with length 0"; break; }
    if (i + 1 + L > o.size()) { if (err) *err = "server sent an incomplete packet"; break; }
    std::string d = o.substr(i + 1, L);
    if (d.back() != 0 || d.find('\0') != d.size() - 1) { if (err) *err = "packet content is not exactly one NUL-terminated string: " + vis(d); }
    d.pop_back(); size_t z = d.find('\0'); if (z != std::string::npos) d.resize(z);
    r.push_back(d); i += 1 + L;
  }
  o.clear();
  return r;
}
inline void send(int c, const std::string &payload) { S.clients[c].in += pkt(payload); }
inline vos::Stop tick(int64_t secs) { S.now_us += secs * 1000000; vos::want_timeout = true; return vos::resume(); }
} // namespace icb

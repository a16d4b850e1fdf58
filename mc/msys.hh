// Lock-step exploration of the real server and the reference model (model.hh).
// Actions are written in a small language:
//   "alice /m bob hi"        command packet "m" with argument "bob hi"
//   "alice : hello"          open message
//   "alice ! n|x"            raw packet payload ('|' stands for the field separator ^A)
//   "+alice [group] [pw] [nick] [type] [id]"   connect and log in ("-" = empty field)
//   "^alice"                 connect only
//   "-alice"                 the client closes its connection       "#alice"  the connection is reset
//   "A & B"                  two of the above (packets or ends of connections) are there when the server wakes up;
//                            any order of handling them is accepted
//   "A ;; B ;; ..."          one after the other, leaving out what is not possible
//   "=FILE TEXT"             the administrator of the machine writes FILE ("\\n" for a newline); "=FILE" removes it
//   "~N"                     N seconds pass (N may be fractional)
#pragma once
#include "sys.hh"
#include "model.hh"

namespace ms {
typedef std::string str;
struct Role { str name, id; int host; bool tls = false; };
struct Act { str line; char kind; int role = -1; str payload; int64_t us = 0; str file; bool remove = false; std::vector<Act> both; };
struct World { md::Model m; int cl[160]; int nconn = 0; std::map<str, str> disk; int fault = 0; };

struct Conf {
  std::vector<Role> roles = {{"alice", "al", 0}, {"bob", "bo", 1}, {"carol", "ca", 2}, {"dave", "da", 3}};
  std::vector<str> pre, acts, probes;            // probes: observed (and undone) in every state reached
  std::map<str, str> files;
  int mu = 16;                                   // MAX_USERS of the server
  bool tls = false, db = false, clean = false;   // clean: check that what is received is sanitised
  std::function<bool(const md::Model &)> stop;
  // extra property on the model state and on what was received
  std::function<str(const md::Model &)> inv;
};

inline str bars(str s) { for (auto &c : s) if (c == '|') c = 1; return s; }
inline std::vector<str> words(const str &s) { std::vector<str> w; size_t i = 0; while (i < s.size()) { while (i < s.size() && s[i] == ' ') i++; size_t j = i; while (j < s.size() && s[j] != ' ') j++; if (j > i) w.push_back(s.substr(i, j - i)); i = j; } return w; }

struct ModelSys : SysT<World> {
  Conf c; std::vector<Act> acts;
  explicit ModelSys(Conf k) : c(std::move(k)) {}
  int role(const str &n) const { for (size_t i = 0; i < c.roles.size(); i++) if (c.roles[i].name == n) return i; fprintf(stderr, "no role %s\n", n.c_str()); abort(); }
  Act parse(const str &line) const {
    Act a; a.line = line; a.kind = line[0];
    size_t semi = line.find(" ;; ");
    if (semi != str::npos) { a.kind = ';'; a.both = {parse(line.substr(0, semi)), parse(line.substr(semi + 4))}; return a; }
    size_t amp = line.find(" & ");
    if (amp != str::npos) { a.kind = '&'; a.both = {parse(line.substr(0, amp)), parse(line.substr(amp + 3))}; return a; }
    if (a.kind == '=') { size_t sp = line.find(' '); a.file = line.substr(1, sp == str::npos ? sp : sp - 1); a.remove = sp == str::npos;
      if (!a.remove) for (size_t i = sp + 1; i < line.size(); i++) { if (line[i] == '\\' && line[i + 1] == 'n') { a.payload += '\n'; i++; } else a.payload += line[i]; }
      return a; }
    if (a.kind == '~') { a.us = (int64_t)(atof(line.c_str() + 1) * 1e6 + 0.5); return a; }
    if (a.kind == '+') {
      auto w = words(line.substr(1)); a.role = role(w[0]);
      auto opt = [&](size_t i, const str &d) { return i < w.size() ? (w[i] == "-" ? str() : w[i]) : d; };
      const Role &r = c.roles[a.role];
      str grp = opt(1, "x"), pw = opt(2, ""), nick = opt(3, r.name), type = opt(4, "login"), id = opt(5, r.id);
      a.payload = "a" + id + "\001" + nick + "\001" + grp + "\001" + type + "\001" + pw; return a;
    }
    if (a.kind == '^' || a.kind == '-' || a.kind == '#') { a.role = role(line.substr(1)); return a; }
    size_t sp = line.find(' '); a.role = role(line.substr(0, sp)); str r = line.substr(sp + 1); a.kind = '>';
    if (r[0] == '/') { size_t k = r.find(' '); a.payload = "h" + r.substr(1, k == str::npos ? k : k - 1) + "\001" + (k == str::npos ? str() : r.substr(k + 1)); }
    else if (r[0] == ':') a.payload = "b" + (r.size() > 2 ? r.substr(2) : str());
    else a.payload = bars(r.substr(2));
    return a;
  }
  str setup() override {
    for (auto &f : c.files) { if (f.second == "\0none") continue; vos::put_file(f.first, f.second); }
    vos::max_sock_fd = c.mu - 1;
    str e = icb::boot(c.tls); if (!e.empty()) return e;
    m.m.now_us = vos::S.now_us; m.m.files = {{"motd", "hello\n"}}; for (auto &f : c.files) m.m.files[f.first] = f.second;
    m.m.init(c.mu); m.m.signtime(m.m.SRV, true);
    for (int &x : m.cl) x = -1;
    for (auto &l : c.acts) acts.push_back(parse(l));
    for (auto &l : c.probes) acts.push_back(parse(l));
    for (auto &l : c.pre) {
      Act a = parse(l);
      if (!can(a)) return "setup line not possible: " + l;
      e = apply(a); if (!e.empty()) return l + ": " + e;
    }
    return "";
  }
  int nactions() override { return acts.size() - c.probes.size(); }
  int nprobes() override { return c.probes.size(); }
  bool live(int r) const { return m.cl[r] >= 0; }
  bool can(const Act &a) const {
    if (a.kind == '~' || a.kind == '=') return true;
    if (a.kind == ';') return can(a.both[0]);
    if (a.kind == '&') return can(a.both[0]) && can(a.both[1]) && !held(a.both[0]) && !held(a.both[1]);
    if (a.kind == '+' || a.kind == '^') return !live(a.role);
    return live(a.role) && !(a.kind == '-' && held(a));
  }
  // is the input of this user not read for the time being?
  bool held(const Act &a) const { if (!live(a.role) || m.m.u.empty()) return false; int s = vos::S.clients[m.cl[a.role]].fd; return s >= 0 && (m.m.slow(s) || !m.m.u[s].pend.empty()); }
  bool enabled(int a) override { return a >= nactions() || can(acts[a]); }
  str name(int a) override { return acts[a].line; }
  bool terminal() override { return m.m.exited || (c.stop && c.stop(m.m)); }
  uint64_t mhash() override { uint64_t h = m.m.hash(); for (size_t r = 0; r < c.roles.size(); r++) h = vos::mix(h, m.cl[r] + 2); return h; }
  int slot(int r) const { return vos::S.clients[m.cl[r]].fd; }
  // let the server do everything it has to do now
  virtual bool replaced() { return false; }       // the process has replaced itself and the system goes on with the new one
  virtual str reexec() { return ""; }
  str settle(const char *what) {
    for (int i = 0; i < 3; i++) {
      if (i) vos::want_timeout = true;
      vos::Stop s = vos::resume();
      if (s == vos::YIELD && replaced()) { str e = reexec(); if (!e.empty()) return e + " (" + what + ")"; i = -1; continue; }
      if (s == vos::YIELD) continue;
      if (s == vos::FINISHED) { if (m.m.exited) return ""; return str("the server process ended after ") + what; }
      return vos::crash_info + " (" + what + ")";
    }
    return "";
  }
  // does the model state w predict what has been received?
  bool agrees(md::Model &w) {
    if (w.exited) { std::map<str, str> x; auto it = vos::S.files.find("icbdb.db"); if (w.exited != vos::S.exited || it == vos::S.files.end() || !parse_db(*it->second, x) || x != w.db) return false; }
    for (size_t r = 0; r < c.roles.size(); r++) {
      if (m.cl[r] < 0 || ended[r]) continue;
      str o = vos::S.clients[m.cl[r]].out; icb::Pkts got = icb::take(m.cl[r]); vos::S.clients[m.cl[r]].out = o;
      if (got != w.out[sl[r]]) return false;
      if ((w.u[sl[r]].conn && !w.exited) != (!vos::S.clients[m.cl[r]].srv_closed && !w.exited)) return false;
    }
    return true;
  }
  str both(const Act &a) {
    const Act &x = a.both[0], &y = a.both[1];
    for (auto &p : a.both) {
      if (p.kind == '-') vos::S.clients[m.cl[p.role]].fin = true;
      else if (p.kind == '#') vos::S.clients[m.cl[p.role]].rst = true;
      else send(p.role, p.payload);
      if (p.kind != '>') ended[p.role] = true;
    }
    std::vector<md::Model> cand;
    auto one = [&](md::Model &w, const Act &p) {
      int s = sl[p.role];
      if (!w.u[s].conn || w.u[s].closing || w.exited) return;
      if (p.kind == '>') w.packet(s, p.payload); else if (p.kind == '-') w.disconnect(s); else w.lost(s);
    };
    for (int k = 0; k < 4; k++) {
      if ((k & 1) && x.role == y.role && y.kind != '#') continue;   // a reset may discard what was sent before
      md::Model w = m.m; one(w, k & 1 ? y : x); if (x.role == y.role) w.settle(); one(w, k & 1 ? x : y); w.settle(k & 2); cand.push_back(w);
    }
    m.m.exited = cand[0].exited;
    str e = settle("two events"); if (!e.empty()) return e;
    for (auto &p : a.both) if (p.kind != '>' && !vos::S.exited && !vos::S.clients[m.cl[p.role]].srv_closed) return "the server keeps a connection that the client has closed";
    size_t pick = 0; for (size_t i = 0; i < cand.size(); i++) if (agrees(cand[i])) { pick = i; break; }
    m.m = cand[pick];
    for (auto &p : a.both) if (p.kind != '>') { icb::take(m.cl[p.role]); m.m.out[sl[p.role]].clear(); m.cl[p.role] = -1; }
    return "";
  }
  bool ended[160], nodb = false;
  // the database file holds exactly the data base of the model
  static bool parse_db(const str &d, std::map<str, str> &out) {
    auto u32 = [&](size_t i) { return (uint32_t)(uint8_t)d[i] | (uint32_t)(uint8_t)d[i + 1] << 8 | (uint32_t)(uint8_t)d[i + 2] << 16 | (uint32_t)(uint8_t)d[i + 3] << 24; };
    if (d.size() < 8 || d.compare(0, 4, str("IDB\x01", 4))) return false;
    uint32_t n = u32(4); size_t i = 8;
    for (uint32_t k = 0; k < n; k++) {
      if (i + 8 > d.size()) return false;
      size_t kl = u32(i), vl = u32(i + 4); i += 8;
      if (kl > 1 << 20 || vl > 1 << 20 || i + kl + vl > d.size()) return false;
      if (!out.insert({d.substr(i, kl), d.substr(i + kl, vl)}).second) return false;
      i += kl + vl;
    }
    return true;
  }
  str check_db() {
    std::map<str, str> have; auto it = vos::S.files.find("icbdb.db");
    if (it == vos::S.files.end()) return m.m.db.empty() ? "" : "there is no database file";
    if (!parse_db(*it->second, have)) return "the database file is damaged";
    obs++;
    if (have == m.m.db) return "";
    str e = "the database file differs from what the commands have stored:";
    for (auto &x : m.m.db) if (!have.count(x.first)) e += "\n  missing " + x.first; else if (have[x.first] != x.second) e += "\n  " + x.first + " is '" + have[x.first] + "' instead of '" + x.second + "'";
    for (auto &x : have) if (!m.m.db.count(x.first)) e += "\n  superfluous " + x.first;
    return e;
  }
  // independent of the model: valid UTF-8, no control characters but the separator, right number of fields
  static str sanitised(const str &p) {
    if (p.size() > 254) return "an oversized packet";
    int seps = 0;
    for (size_t i = 0; i < p.size();) {
      unsigned char b = p[i]; uint32_t cp; int n;
      if (b < 0x80) { cp = b; n = 1; } else if (b >= 0xC0 && b < 0xE0) { cp = b & 31; n = 2; } else if (b >= 0xE0 && b < 0xF0) { cp = b & 15; n = 3; } else if (b >= 0xF0 && b < 0xF8) { cp = b & 7; n = 4; } else return "an invalid byte";
      if (i + n > p.size()) return "a part of a character";
      for (int k = 1; k < n; k++) { if (((unsigned char)p[i + k] & 0xC0) != 0x80) return "a part of a character"; cp = cp << 6 | ((unsigned char)p[i + k] & 0x3F); }
      if ((n == 2 && cp < 0x80) || (n == 3 && cp < 0x800) || (n == 4 && cp < 0x10000) || cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) return "an invalid character";
      if (cp == 1) seps++; else if (cp < 0x20) return "a control character";
      i += n;
    }
    static const std::map<char, int> fields = {{'a', 0}, {'b', 1}, {'c', 1}, {'d', 1}, {'e', 0}, {'f', 1}, {'g', 0}, {'j', 2}, {'k', 0}, {'l', 0}};
    auto it = fields.find(p[0]);
    if (it != fields.end() && seps != it->second) return "a packet with " + std::to_string(seps + 1) + " fields";
    return "";
  }
  str compare() {
    if (m.m.exited != vos::S.exited) return m.m.exited ? "the server should have ended" : "the server ended";
    if ((m.m.exited || c.db) && !nodb) { str e = check_db(); if (!e.empty()) return e; }
    for (size_t r = 0; r < c.roles.size(); r++) {
      if (m.cl[r] < 0) continue;
      int k = m.cl[r]; str err; icb::Pkts got = icb::take(k, &err);
      if (!err.empty()) return c.roles[r].name + ": " + err;
      if (c.clean) for (auto &p : got) { err = sanitised(p); if (!err.empty()) return c.roles[r].name + " received " + err + ": " + icb::vis(p); }
      int s = sl[r]; auto &want = m.m.out[s];
      obs += want.size() + 1;
      if (got != want) return c.roles[r].name + " should have received\n" + icb::join(want) + "  but received\n" + icb::join(got);
      want.clear();
      bool open = m.m.u[s].conn && !m.m.exited, ropen = !vos::S.clients[k].srv_closed && !m.m.exited;
      if (open != ropen) return c.roles[r].name + (open ? ": the server closed a connection it should keep" : ": the server keeps a connection it should close");
      if (!open) m.cl[r] = -1;
    }
    if (c.inv) return c.inv(m.m);
    return "";
  }
  int sl[160];
  str apply(const Act &a) {
    md::Model &M = m.m;
    if (a.kind == ';') {   // what is not possible is left out
      for (auto &p : a.both) if (p.kind == ';' || can(p)) { str e = apply(p); if (!e.empty()) return e + (p.kind == ';' ? "" : "\n  (at: " + p.line + ")"); if (m.m.exited) break; }
      return "";
    }
    for (size_t r = 0; r < c.roles.size(); r++) sl[r] = m.cl[r] >= 0 ? vos::S.clients[m.cl[r]].fd : -1;
    memset(ended, 0, sizeof ended);
    str e;
    switch (a.kind) {
      case '=': if (a.remove) { vos::del_file(a.file); M.files.erase(a.file); } else { vos::put_file(a.file, a.payload); M.files[a.file] = a.payload; } break;
      case '&': if (!(e = both(a)).empty()) return e; break;
      case '~':
        vos::S.now_us += a.us; M.now_us += a.us; vos::want_timeout = true;
        M.settle(); M.settle3();
        if (!(e = settle("time passing")).empty()) return e;
        break;
      case '+': case '^': {
        const Role &R = c.roles[a.role];
        bool full = true; for (int i = vos::first_sock_fd; i < m.m.SRV; i++) if (i >= (int)vos::S.socks.size() || vos::S.socks[i].kind == 0) full = false;
        int k = icb::connect(R.host, R.tls, R.tls ? 1 : 0); m.cl[a.role] = k;
        if (R.tls) vos::S.clients[k].in += "H";
        if (!(e = settle("a connection")).empty()) return e;
        int s = vos::S.clients[k].fd;
        if (full) { // the last slot belongs to the server's own user
          if (s >= 0 || !vos::S.clients[k].srv_closed) return "a connection beyond the limit is kept";
          if (!vos::S.clients[k].out.empty()) return "a connection beyond the limit receives something";
          m.cl[a.role] = -1; break;
        }
        if (s < 0) return "the connection of " + R.name + " was not accepted";
        sl[a.role] = s;
        M.connect(s, vos::node_of(R.host), vos::hosts[R.host].ip, R.tls);
        if (a.kind == '^') break;
        send(a.role, a.payload); M.packet(s, a.payload); M.settle();
        if (!(e = settle("a login")).empty()) return e;
        break;
      }
      case '-': case '#': {
        vos::Client &k = vos::S.clients[m.cl[a.role]];
        if (a.kind == '-') k.fin = true; else k.rst = true;
        M.lost(sl[a.role]); M.settle();
        if (!(e = settle("a closed connection")).empty()) return e;
        icb::take(m.cl[a.role]); bool cl = k.srv_closed; int r = m.cl[a.role]; (void)r; m.cl[a.role] = -1;
        if (!cl) return "the server keeps a connection that the client has closed";
        M.out[sl[a.role]].clear();
        break;
      }
      default:
        send(a.role, a.payload); M.arrive(sl[a.role], a.payload); M.settle3();
        if (!(e = settle("a packet")).empty()) return e;
    }
    return compare();
  }
  void send(int r, const str &p) {
    str b = icb::pkt(p);
    if (c.roles[r].tls) { str t; for (size_t i = 0; i < b.size(); i += 250) { str q = b.substr(i, 250); t += "R"; t += (char)q.size(); t += q; } b = t; }
    vos::S.clients[m.cl[r]].in += b;
  }
  str step(int a) override { return apply(acts[a]); }
};
// "{a,b} /m {c,d}" -> all combinations
inline void brace(const str &s, std::vector<str> &o) {
  size_t i = s.find('{'); if (i == str::npos) { o.push_back(s); return; }
  size_t j = s.find('}', i), k = i + 1;
  for (;;) { size_t e = s.find(',', k); if (e == str::npos || e > j) e = j; brace(s.substr(0, i) + s.substr(k, e - k) + s.substr(j + 1), o); if (e == j) break; k = e + 1; }
}
inline std::vector<str> X(std::initializer_list<str> l) { std::vector<str> o; for (auto &s : l) brace(s, o); return o; }
inline str seq(std::initializer_list<str> l) { std::vector<str> v = X(l); str o; for (auto &s : v) o += (o.empty() ? "" : " ;; ") + s; return o; }
inline Scenario sc(const str &name, int depth, Conf c, int bits = 22) { return Scenario{name, [c]() { return std::unique_ptr<Sys>(new ModelSys(c)); }, depth, bits, 600}; }
} // namespace ms

// TLS connections from the first byte on (C24): handshakes that stall, fail, are abandoned or come together with data.
#include "sys.hh"
#include <algorithm>
using namespace vos; using icb::Pkts;
typedef std::string str;

static str rec(const str &d) { return str("R") + (char)d.size() + d; }
struct HC { int st = 0; int hs = 0; str in; bool fin = false, rst = false, block = false, hsw = false, cut = false; bool open = false, logged = false; int said = 0; int conns = 0; };   // st: 0 absent, 1 connected
struct HsM { HC x[2]; int spoke = 0, ticks = 0; };
struct HsSys : SysT<HsM> {
  int nx = 1, flights = 2, maxconn = 2, maxsay = 2; bool prelogged = false;
  struct Act { int kind, c; str data; }; std::vector<Act> acts;
  int cl[2] = {2, 3};
  str setup() override {
    str e = icb::boot(true); if (!e.empty()) return e;
    const char *n[2] = {"carol", "bob"};
    for (int i = 0; i < 2; i++) {
      int c = icb::connect(i); if (c != i) return "client numbering"; if (!(e = run("connect")).empty()) return e;
      icb::send(c, str("a") + n[i] + "\001" + n[i] + "\001x\001login\001"); if (!(e = run("login")).empty()) return e;
      bool ok = false; for (auto &p : icb::take(c)) if (p[0] == 'a') ok = true; if (!ok) return "login not acknowledged";
    }
    S.clients[0].out.clear();
    for (int k = 0; k < 2; k++) { Client c; c.srv_closed = true; S.clients.push_back(c); }   // the records of the two TLS clients
    for (int k = 0; k < nx; k++) {
      str nick = k ? "yves" : "xeno"; str lg = icb::pkt("a" + nick + "\001" + nick + "\001x\001login\001");
      acts.push_back({0, k, ""});
      acts.push_back({1, k, "H"});
      acts.push_back({1, k, "Z"});
      acts.push_back({1, k, "C"});
      acts.push_back({1, k, "H" + rec(lg)});
      acts.push_back({1, k, "HH" + rec(lg)});
      acts.push_back({1, k, rec(lg)});
      acts.push_back({1, k, rec(lg.substr(0, 3)) + rec(lg.substr(3)).substr(0, 4)});   // login in two records, the second arriving in pieces
      acts.push_back({1, k, rec(lg.substr(3)).substr(4)});
      acts.push_back({1, k, rec(icb::pkt("bone")) + rec(icb::pkt("btwo"))});
      acts.push_back({1, k, rec(icb::pkt("bone") + icb::pkt("btwo"))});
      acts.push_back({2, k, ""}); acts.push_back({3, k, ""}); acts.push_back({4, k, ""});
    }
    acts.push_back({5, 0, ""}); acts.push_back({6, 0, ""});
    return "";
  }
  int nactions() override { return acts.size(); }
  static bool raw(const str &d) { return d[0] != 'H' && d[0] != 'R' && d[0] != 'C' && d[0] != 'Z'; }
  bool part(HC &h) { return h.cut; }                     // the last thing it sent was the beginning of a record
  bool enabled(int a) override {
    Act &x = acts[a]; HC &h = m.x[x.c];
    switch (x.kind) {
      case 0: return h.st == 0 && h.conns < maxconn;
      case 1: if (h.st != 1 || h.fin || h.rst) return false;
        if (raw(x.data)) { if (!part(h)) return false; }         // only the rest of a record that was begun
        else if (part(h)) return false;
        if (h.block && h.logged && x.data.find('a') != str::npos) return false;   // keep what waits for it within the queue bound (C02)
        return h.in.size() < 60 && h.said < maxsay + 3;
      case 2: case 3: return h.st == 1 && !h.fin && !h.rst;
      case 4: return h.st == 1 && !h.rst;
      case 5: return m.spoke < 3;
      case 6: return m.ticks < 2;
    }
    return false;
  }
  str name(int a) override {
    Act &x = acts[a]; str w = x.c ? "yves" : "xeno";
    switch (x.kind) { case 0: return w + " connects (TLS)"; case 1: return w + " sends wire bytes " + icb::vis(x.data); case 2: return w + " closes"; case 3: return w + " resets"; case 4: return w + " stops/resumes accepting output"; case 5: return "carol speaks"; default: return "a second passes"; }
  }
  str step(int a) override {
    Act &x = acts[a]; Pkts due[2]; int leave = 0, join = 0; bool gone[2] = {false, false}, maybe[2] = {false, false}; str e; Pkts xdue[2]; bool welcome[2] = {false, false};
    switch (x.kind) {
      case 0: { HC n; n.st = 1; n.hs = flights; n.conns = m.x[x.c].conns + 1; m.x[x.c] = n; Client c; c.pending = true; c.host = 2 + x.c; c.tls = true; c.hs = flights; S.clients[cl[x.c]] = c; break; }
      case 1: S.clients[cl[x.c]].in += x.data; m.x[x.c].in += x.data; m.x[x.c].cut = x.data.size() > 4 && x.data.compare(0, 2, "R\x03") == 0; break;
      case 2: S.clients[cl[x.c]].fin = true; m.x[x.c].fin = true; break;
      case 3: S.clients[cl[x.c]].rst = true; m.x[x.c].rst = true; break;
      case 4: m.x[x.c].block = !m.x[x.c].block; S.clients[cl[x.c]].window = m.x[x.c].block ? 0 : -1; break;
      case 5: { str t = "hey" + std::to_string(m.spoke++); icb::send(0, "b" + t); due[1].push_back("bcarol\001" + t); for (int k = 0; k < 2; k++) if (m.x[k].logged) xdue[k].push_back("bcarol\001" + t); break; }
      case 6: m.ticks++; S.now_us += 1000000; want_timeout = true; break;
    }
    // reference: what the server must have done with the bytes of the client that acted
    for (int k = 0; k < nx; k++) {
      HC &h = m.x[k]; if (h.st != 1) continue; str nick = k ? "yves" : "xeno";
      bool dead = false, stalled = false;
      if (h.rst) dead = true;
      while (!dead && !stalled && h.hs > 0) {
        if (h.hsw) { if (h.block) { stalled = true; break; } h.hsw = false; h.hs--; continue; }
        if (h.in.empty()) { if (h.fin) dead = true; break; }
        if (h.in[0] != 'H') { dead = true; break; }
        h.in.erase(0, 1); h.hsw = true;
      }
      if (!dead && !stalled && h.hs == 0) {
        if (!h.open) { h.open = true; welcome[k] = true; }
        str &pl = plain[k] = plains(k);
        for (;;) {
          if (h.in.empty()) break;
          if (h.in[0] == 'C') { dead = true; break; }
          if (h.in[0] != 'R') { dead = true; break; }
          if (h.in.size() < 2 || h.in.size() < 2u + (unsigned char)h.in[1]) break;
          pl += h.in.substr(2, (unsigned char)h.in[1]); h.in.erase(0, 2 + (unsigned char)h.in[1]);
        }
        while (!pl.empty() && pl.size() >= 1u + (unsigned char)pl[0]) {
          str p = pl.substr(1, (unsigned char)pl[0] - 1); pl.erase(0, 1 + (unsigned char)pl[0]);
          if (p[0] == 'a' && !h.logged) { h.logged = true; join++; for (int j = 0; j < 2; j++) due[j].push_back("dSign-on\001" + nick + " (" + nick + "@h" + std::to_string(2 + k) + ".test) entered group"); if (m.x[1 - k].logged) xdue[1 - k].push_back("dSign-on\001" + nick + " (" + nick + "@h" + std::to_string(2 + k) + ".test) entered group"); }
          else if (p[0] == 'b' && h.logged) { h.said++; for (int j = 0; j < 2; j++) due[j].push_back("b" + nick + "\001" + p.substr(1)); if (m.x[1 - k].logged) xdue[1 - k].push_back("b" + nick + "\001" + p.substr(1)); }
          else if (p[0] == 'a') { }                      // a second login: an error for the client only
          // anything else before login is refused, with no effect for anybody else (C04)
        }
        pstore(k, pl);
        if (h.fin && !dead) dead = true;
      }
      if (stalled && h.fin) maybe[k] = true;             // noticed at the latest when the client accepts output again
      if (dead) { gone[k] = true; if (h.logged) { leave++; for (int j = 0; j < 2; j++) due[j].push_back("dSign-off\001" + nick + " (" + nick + "@h" + std::to_string(2 + k) + ".test) has signed off."); if (m.x[1 - k].logged && !gone[1 - k]) xdue[1 - k].push_back("dSign-off\001" + nick + " (" + nick + "@h" + std::to_string(2 + k) + ".test) has signed off."); } }
    }
    if (!(e = run()).empty()) return e;
    { int n = 0; for (auto &c : S.clients) if (c.tls && c.fd >= 0 && !c.srv_closed) n++; if (S.nssl > n) return "there are " + std::to_string(S.nssl) + " TLS objects for " + std::to_string(n) + " open TLS connections"; }
    for (int k = 0; k < nx; k++) {
      HC &h = m.x[k]; if (h.st != 1) continue; Client &c = S.clients[cl[k]]; str nick = k ? "yves" : "xeno";
      bool early = early_refused(k);
      if (gone[k] && !c.srv_closed && !early) return nick + "'s connection should have been closed";
      if (!gone[k] && c.srv_closed && !maybe[k]) return nick + "'s connection was closed for no reason";
      if (!c.srv_closed && !h.block) {
        str perr; Pkts got = icb::take(cl[k], &perr); if (!perr.empty()) return nick + ": " + perr; obs++;
        if (!h.open && !got.empty()) return nick + " received output before the handshake was over";
        if (welcome[k] && !got.empty() && got[0][0] != 'j') return nick + " was not greeted with the protocol packet after the handshake";
        if (welcome[k] && got.empty()) return nick + " got no protocol packet after the handshake";
        // relayed traffic, exactly and in order (its own login dialogue is not compared here)
        Pkts rel; for (auto &p : got) if (p[0] == 'b' || p.compare(0, 8, "dSign-on") == 0 || p.compare(0, 9, "dSign-off") == 0) if (p.find(nick) == str::npos) rel.push_back(p);
        Pkts want = owed(k); want.insert(want.end(), xdue[k].begin(), xdue[k].end()); setowed(k, {});
        if (rel != want) return nick + " should have received\n" + icb::join(want) + "  but received\n" + icb::join(rel);
      } else if (!c.srv_closed) { Pkts o = owed(k); o.insert(o.end(), xdue[k].begin(), xdue[k].end()); setowed(k, o); if (!c.out.empty()) return nick + " received bytes it did not accept"; }
      if (c.srv_closed) { int n = h.conns; m.x[k] = HC(); m.x[k].conns = n; pstore(k, ""); setowed(k, {}); c.out.clear(); }
    }
    for (int j = 0; j < 2; j++) {
      str perr; Pkts got = icb::take(j, &perr), rest; if (!perr.empty()) return perr;
      for (auto &p : got) if (p.compare(0, 8, "dSign-on") && p.compare(0, 9, "dSign-off")) rest.push_back(p); else rest.push_back(p);
      if (S.clients[j].srv_closed) return "a plain client lost its connection";
      obs++;
      if (rest != due[j]) return str(j ? "bob" : "carol") + " should have received\n" + icb::join(due[j]) + "  but received\n" + icb::join(rest);
    }
    return "";
  }
  // per-client plain bytes not yet forming a packet, and relayed packets owed to a client that does not accept output: part of the model
  str plain[2];
  struct Extra { str pl[2]; Pkts ow[2]; }; Extra x;
  str plains(int k) { return x.pl[k]; } void pstore(int k, const str &s) { x.pl[k] = s; }
  Pkts owed(int k) { return x.ow[k]; } void setowed(int k, const Pkts &p) { x.ow[k] = p; }
  bool early_refused(int) { return false; }
  struct Both { HsM m; Extra x; };
  std::shared_ptr<void> msave() override { auto b = std::make_shared<Both>(); b->m = m; b->x = x; return b; }
  void mrestore(const std::shared_ptr<void> &p) override { auto *b = static_cast<Both *>(p.get()); m = b->m; x = b->x; }
  uint64_t mhash() override {
    uint64_t h = 77; for (int k = 0; k < 2; k++) { HC &c = m.x[k]; h = mix(h, c.st | c.hs << 2 | c.fin << 5 | c.rst << 6 | c.block << 7 | c.hsw << 20 | c.cut << 21 | c.open << 8 | c.logged << 9 | c.conns << 10); h = mix(h, c.said); h = hash_bytes(c.in.data(), c.in.size(), h); h = hash_bytes(x.pl[k].data(), x.pl[k].size(), h); for (auto &p : x.ow[k]) h = hash_bytes(p.data(), p.size(), h); }
    return mix(h, m.spoke * 100 + m.ticks);
  }
  str sample() override { return "carol and bob signed on over plain connections; xeno's handshake takes 2 flights"; }
};
static Registrar r24b("C24", [](bool T) {
  std::vector<Scenario> v;
  v.push_back({"handshake of one client: stalled, failed, abandoned, blocked, data in the same flight", [=] { auto s = std::make_unique<HsSys>(); return s; }, T ? 10 : 8, 23});
  v.push_back({"handshakes of two clients at once", [=] { auto s = std::make_unique<HsSys>(); s->nx = 2; s->maxconn = 2; return s; }, T ? 8 : 7, 23});
  v.push_back({"handshake in a single flight", [=] { auto s = std::make_unique<HsSys>(); s->flights = 1; return s; }, T ? 10 : 8, 23});
  return v;
}, 1);

// Transport-level systems: inbound framing (C01), outbound queueing (C02), both over TLS (C24).
#include "sys.hh"
#include <algorithm>
using namespace vos; using icb::Pkts;
typedef std::string str;

static size_t rec_size = 250;   // plaintext bytes per TLS record
static str tls_rec(const str &d) { str o; size_t i = 0; do { str p = d.substr(i, rec_size); o += "R"; o += (char)p.size(); o += p; i += p.size(); } while (i < d.size()); return o; }
static str pad(const str &p, size_t n) { str s = p; for (size_t i = s.size(); i < n; i++) s += "abcdefghijklmnopqrstuvwxyz"[i % 26]; return s; }
static str login_payload(const str &user, const str &nick, const str &grp) { return "a" + user + "\001" + nick + "\001" + grp + "\001login\001"; }

static str boot_users(std::vector<std::array<str, 2>> us, const std::vector<bool> &tls) {
  bool any = false; for (bool t : tls) any |= t;
  str e = icb::boot(any); if (!e.empty()) return e;
  for (size_t i = 0; i < us.size(); i++) {
    int c = icb::connect(i % 4, tls[i], tls[i] ? 2 : 0); if (c != (int)i) return "client numbering";
    if (tls[i]) S.clients[c].in += "HH";
    if (!(e = run("connect")).empty()) return e;
    str p = icb::pkt(login_payload(us[i][0], us[i][0], us[i][1]));
    S.clients[c].in += tls[i] ? tls_rec(p) : p;
    if (!(e = run("login")).empty()) return e;
    bool ok = false; for (auto &x : icb::take(c)) if (x[0] == 'a') ok = true;
    if (!ok) return "login of " + us[i][0] + " not acknowledged";
  }
  for (size_t i = 0; i < us.size(); i++) S.clients[i].out.clear();
  return "";
}
static str expect(const char *who, const Pkts &want, const Pkts &got) {
  if (want == got) return "";
  return str(who) + " should have received\n" + icb::join(want) + "  but received\n" + icb::join(got);
}

// every TLS object belongs to an open connection: nothing is left behind by those that ended
static str ssl_count() { int n = 0; for (auto &c : S.clients) if (c.tls && c.fd >= 0 && !c.srv_closed) n++; return S.nssl > n ? "there are " + std::to_string(S.nssl) + " TLS objects for " + std::to_string(n) + " open TLS connections" : str(); }
// ------------------------------------------------------------------ inbound
struct Frame { str bytes; Pkts other, self; bool bad = false; int code = 0; };
static Frame openf(const str &nick, const str &text, bool nul = true) {
  Frame f; str p = "b" + text; f.bytes = str(1, (char)(p.size() + (nul ? 1 : 0))) + p; if (nul) f.bytes += '\0';
  str t = text.substr(0, text.find('\0')); f.other = {"b" + nick + "\001" + t.substr(0, 240)}; return f;
}
static Frame privf(const str &nick, const str &to, const str &text) {
  Frame f; str p = "hm\001" + to + " " + text; f.bytes = icb::pkt(p); f.other = {"c" + nick + "\001" + text.substr(0, 240)}; return f;
}
static Frame noopf() { Frame f; f.bytes = icb::pkt("n"); return f; }
static Frame badf(int len, const str &rest) { Frame f; f.bytes = str(1, (char)len) + rest; f.bad = true; return f; }

struct InM {
  size_t pos[2] = {0, 0}; size_t fr[2] = {0, 0}; bool closed[2] = {false, false}, fin[2] = {false, false};
  bool blocked = false; int said = 0; Pkts owed; int ticks = 0;
};
struct InSys : SysT<InM> {
  std::vector<Frame> frames[2]; str stream[2]; std::vector<size_t> ends[2];
  std::vector<bool> tls{false, false, false}; int rdchunk = -1; int maxchunk = 1000; bool with_fin = true; int maxsay = 1; bool with_block = true; bool pairs = false; bool closepairs = false; size_t recsize = 250; int wiresplit = 0;
  struct Act { int kind, c, n, n2; }; std::vector<Act> acts;   // 0 chunk, 1 block/unblock, 2 carol speaks, 3 fin, 4 tick, 5 chunk of both, 6 spurious readiness, 7 one closes (n2: resets) while the other sends a chunk
  const char *nick[3] = {"alice", "bob", "carol"};
  str setup() override {
    str e = boot_users({{"carol", "x"}, {"alice", "x"}, {"bob", "x"}}, tls); if (!e.empty()) return e;
    rec_size = recsize;
    for (int k = 0; k < 2; k++) { stream[k] = ""; ends[k].clear(); for (auto &f : frames[k]) { stream[k] += f.bytes; ends[k].push_back(stream[k].size()); } }
    int mx = 0;
    for (int k = 0; k < 2; k++) { S.clients[k + 1].rdchunk = rdchunk; for (int n = 1; n <= (int)std::min<size_t>(stream[k].size(), maxchunk); n++) { acts.push_back({0, k, n, 0}); mx = n; } }
    if (with_block) acts.push_back({1, 0, 0, 0});
    if (maxsay) acts.push_back({2, 0, 0, 0});
    if (with_fin) { acts.push_back({3, 0, 0, 0}); if (!frames[1].empty()) acts.push_back({3, 1, 0, 0}); }
    acts.push_back({4, 0, 0, 0});
    acts.push_back({6, 0, 0, 0});
    if (closepairs) for (int k = 0; k < 2; k++) for (int n = 1; n <= (int)stream[1 - k].size(); n++) for (int r = 0; r < 2; r++) acts.push_back({7, k, n, r});
    if (pairs) for (int n = 1; n <= (int)stream[0].size(); n++) for (int k = 1; k <= (int)stream[1].size(); k++) acts.push_back({5, 0, n, k});
    return "";
  }
  int nactions() override { return acts.size(); }
  bool gone(int k) { return m.closed[k] || m.fin[k]; }
  bool enabled(int a) override {
    Act &x = acts[a];
    switch (x.kind) {
      case 0: return !gone(x.c) && m.pos[x.c] + x.n <= stream[x.c].size();
      case 1: return !gone(0);
      case 2: return m.said < maxsay;
      case 3: return !gone(x.c);
      case 4: return m.ticks < 1;
      case 6: return !gone(0);
      case 7: return !gone(0) && !gone(1) && m.pos[1 - x.c] + x.n <= stream[1 - x.c].size();
      case 5: return !gone(0) && !gone(1) && m.pos[0] + x.n <= stream[0].size() && m.pos[1] + x.n2 <= stream[1].size();
    }
    return false;
  }
  str name(int a) override {
    Act &x = acts[a]; char b[80];
    switch (x.kind) {
      case 0: snprintf(b, 80, "%s sends next %d bytes", nick[x.c], x.n); break;
      case 1: snprintf(b, 80, "alice stops/resumes reading"); break;
      case 2: snprintf(b, 80, "carol speaks"); break;
      case 3: snprintf(b, 80, "%s closes", nick[x.c]); break;
      case 4: snprintf(b, 80, "tick"); break;
      case 6: snprintf(b, 80, "alice's connection is reported readable with nothing to read"); break;
      case 7: snprintf(b, 80, "%s %s and %s sends next %d bytes at once", nick[x.c], x.n2 ? "resets" : "closes", nick[1 - x.c], x.n); break;
      case 5: snprintf(b, 80, "alice sends next %d bytes and bob next %d at once", x.n, x.n2); break;
    }
    return b;
  }
  str ferr;
  void feed(int k, int n, Pkts *due) { // due[0..2]: packets for alice, bob, carol
    str d = stream[k].substr(m.pos[k], n);
    str w = tls[k + 1] ? tls_rec(d) : d; size_t cut = std::min<size_t>(wiresplit, w.size());
    if (cut) { S.clients[k + 1].in += w.substr(0, cut); str e = run(); if (!e.empty()) ferr = e; }   // the wire bytes of a record may arrive in pieces
    S.clients[k + 1].in += w.substr(cut);
    m.pos[k] += n;
    while (m.fr[k] < frames[k].size() && !m.closed[k]) {
      Frame &f = frames[k][m.fr[k]];
      size_t st = m.fr[k] ? ends[k][m.fr[k] - 1] : 0;
      if (f.bad) { if (m.pos[k] > st) m.closed[k] = true; break; }
      if (m.pos[k] < ends[k][m.fr[k]]) break;
      m.fr[k]++;
      if (f.code == 1) { if (gone(1 - k)) due[k].push_back("ebob not signed on."); else due[1 - k].push_back(f.other[0]); }   // personal: to the other streamer only
      else for (auto &p : f.other) { if (!gone(1 - k)) due[1 - k].push_back(p); due[2].push_back(p); }
    }
  }
  str step(int a) override {
    Act &x = acts[a]; Pkts due[3]; bool wasc[2] = {m.closed[0], m.closed[1]}; int leave = -1;
    switch (x.kind) {
      case 0: feed(x.c, x.n, due); break;
      case 5: feed(0, x.n, due); feed(1, x.n2, due); break;
      case 1: m.blocked = !m.blocked; S.clients[1].window = m.blocked ? 0 : -1; break;
      case 2: { str t = "bhey" + std::to_string(m.said++); S.clients[0].in += tls[0] ? tls_rec(icb::pkt(t)) : icb::pkt(t);
        for (int k = 0; k < 2; k++) if (!gone(k)) due[k].push_back("bcarol\001" + t.substr(1)); break; }
      case 3: S.clients[x.c + 1].fin = true; m.fin[x.c] = true; leave = x.c; break;
      case 4: m.ticks++; S.now_us += 1000000; want_timeout = true; break;
      case 6: S.clients[1].spur = true; break;
      case 7: feed(1 - x.c, x.n, due); due[x.c].clear(); (x.n2 ? S.clients[x.c + 1].rst : S.clients[x.c + 1].fin) = true; m.fin[x.c] = true; leave = x.c; break;
    }
    if (!ferr.empty()) { str x = ferr; ferr.clear(); return x; }
    str e = run(); if (!e.empty()) return e;
    if (m.blocked || !m.owed.empty()) { m.owed.insert(m.owed.end(), due[0].begin(), due[0].end()); due[0].clear(); if (!m.blocked) { due[0] = m.owed; m.owed.clear(); } }
    for (int k = 0; k < 2; k++) {
      bool left = (m.closed[k] && !wasc[k]) || leave == k;
      bool cl = S.clients[k + 1].srv_closed;
      if (left && !cl) return str("connection of ") + nick[k] + " should have been closed";
      if (!left && cl && !m.closed[k] && !m.fin[k]) return str("connection of ") + nick[k] + " was closed although everything it sent was well-formed";
    }
    if ((e = ssl_count()) != "") return e;
    for (int w = 0; w < 3; w++) {
      int cl = w == 2 ? 0 : w + 1;
      if (w < 2 && (m.closed[w] || m.fin[w])) { S.clients[cl].out.clear(); continue; }
      str perr; Pkts got = icb::take(cl, &perr); if (!perr.empty()) return str(nick[w]) + ": " + perr;
      Pkts rest; int so = 0;
      for (auto &p : got) { if (p.compare(0, 9, "dSign-off") == 0) so++; else rest.push_back(p); }
      int wantso = 0; for (int k = 0; k < 2; k++) if ((m.closed[k] && !wasc[k]) || leave == k) wantso++;
      if (w == 0 && m.blocked) wantso = so;
      if (so != wantso && !(w == 0 && !m.owed.empty())) { if (!(w == 0 && x.kind == 1)) return str(nick[w]) + " saw " + std::to_string(so) + " sign-off notices, expected " + std::to_string(wantso); }
      obs++;
      if (x.kind == 5 && w == 2) { auto bysender = [](const str &a, const str &b) { return a[1] < b[1]; }; std::stable_sort(due[w].begin(), due[w].end(), bysender); std::stable_sort(rest.begin(), rest.end(), bysender); }
      e = expect(nick[w], due[w], rest); if (!e.empty()) return e;
    }
    return "";
  }
  bool terminal() override { return false; }
  uint64_t mhash() override {
    uint64_t h = 9; for (int k = 0; k < 2; k++) { h = mix(h, m.pos[k]); h = mix(h, m.fr[k] * 4 + m.closed[k] * 2 + m.fin[k]); }
    h = mix(h, m.blocked * 100 + m.said + m.ticks * 1000); for (auto &p : m.owed) h = hash_bytes(p.data(), p.size(), h); return h;
  }
  str sample() override { return "alice's stream: " + icb::vis(stream[0]) + (stream[1].empty() ? str() : "; bob's stream: " + icb::vis(stream[1])); }
};
typedef std::vector<Frame> FV;
static std::unique_ptr<Sys> mk(FV a, FV b, std::function<void(InSys &)> cfg = nullptr) {
  auto s = std::make_unique<InSys>(); s->frames[0] = a; s->frames[1] = b;
  for (int k = 0; k < 2; k++) for (auto &f : s->frames[k]) if (f.other.size() == 1 && f.other[0][0] == 'c') f.code = 1;
  if (cfg) cfg(*s); return s;
}
static std::vector<Scenario> in_scen(bool T, bool tls) {
  std::vector<Scenario> v; auto t = [tls](InSys &s) { s.tls = {tls, tls, false}; };
  auto A = [](str x) { return openf("alice", x); };
  const int D = 0;
  v.push_back({"short frames, every segmentation, output and blocking interleaved", [=] { return mk({A("1"), noopf(), privf("alice", "bob", "p"), A("22"), A("")}, {}, t); }, D});
  // an empty open message is delivered as an empty text
  v.push_back({"frames without terminator or with embedded NUL", [=] { return mk({openf("alice", "xyz", false), openf("alice", str("ab\0cd", 5)), A("z")}, {}, t); }, D});
  v.push_back({"maximal frames", [=] { return mk({A(pad("m", 252)), A(pad("k", 251)), A("e")}, {}, [=](InSys &s) { t(s); s.maxsay = 0; s.with_block = T; s.with_fin = T; if (!T) s.maxchunk = 300; }); }, 0, 22});
  v.push_back({"maximal frame, output interleaved", [=] { return mk({A(pad("m", 252)), A("e")}, {}, [=](InSys &s) { t(s); s.with_fin = false; }); }, 0});
  if (!tls) v.push_back({"zero length byte after good frames", [=] { return mk({A("1"), A("2"), badf(0, "b9\0bx")}, {}, t); }, D});
  v.push_back({"oversized length byte after good frames", [=] { return mk({A("1"), A("2"), badf(255, pad("bQ", 60))}, {}, t); }, D});
  v.push_back({"bad frame first", [=] { return mk({badf(255, "bzz"), A("1")}, {}, t); }, D});
  v.push_back({"two streams, partial frames of both", [=] { return mk({A("a1"), privf("alice", "bob", "q"), A("a2")}, {openf("bob", "b1"), openf("bob", "b22")}, [=](InSys &s) { t(s); s.maxsay = 0; s.with_block = T; }); }, D});
  v.push_back({"one stream ends while the other goes on", [=] { return mk({A("a1"), A("a2")}, {openf("bob", "b1"), openf("bob", "b2")}, [=](InSys &s) { t(s); s.maxsay = 1; s.with_fin = false; s.with_block = false; s.closepairs = true; }); }, D});
  v.push_back({"two streams arriving in the same poll", [=] { return mk({A("a1"), A("a2")}, {openf("bob", "b1"), openf("bob", "b2")}, [=](InSys &s) { t(s); s.maxsay = 0; s.with_fin = false; s.with_block = false; s.pairs = true; }); }, D});
  if (!tls) {
    v.push_back({"reads return one byte at a time", [=] { return mk({A("1"), privf("alice", "bob", "p"), A(pad("w", 30))}, {}, [](InSys &s) { s.rdchunk = 1; }); }, D});
    v.push_back({"reads return three bytes at a time", [=] { return mk({A("12345"), noopf(), A(pad("w", 40))}, {}, [](InSys &s) { s.rdchunk = 3; }); }, D});
  }
  if (tls) for (size_t r : {(size_t)1, (size_t)3, (size_t)250}) for (int w : {0, 1, 2, 5}) if (r != 250 || w) {
    v.push_back({"TLS records of at most " + std::to_string(r) + " bytes, wire cut after " + std::to_string(w), [=] { return mk({A("1"), privf("alice", "bob", "p"), A("22"), A("")}, {}, [=](InSys &s) { t(s); s.recsize = r; s.wiresplit = w; }); }, D});
  }
  if (T) {
    v.push_back({"many frames", [=] { FV f; for (int i = 0; i < 14; i++) f.push_back(i % 3 == 1 ? privf("alice", "bob", std::to_string(i)) : A(std::to_string(i * 7))); return mk(f, {}, [=](InSys &s) { t(s); s.maxsay = 2; }); }, 0, 24});
    for (int L : {126, 127, 128, 129, 200, 250, 251})
      v.push_back({"frame of text length " + std::to_string(L), [=] { return mk({A(pad("m", L)), A("e"), A(pad("n", L))}, {}, [=](InSys &s) { t(s); s.maxsay = 1; s.with_fin = false; }); }, 0, 23});
  }
  return v;
}

// ------------------------------------------------------------------ outbound
struct OutM { str acc; size_t deliv = 0; std::vector<size_t> ends; long win = -1; int att = 0; bool closed = false, drop = false; int n = 0, an = 0; int part = 0; };
struct OutSys : SysT<OutM> {
  bool tls = false; int longlen = 60, maxpart = 3; std::vector<int> grants{1, 7, 40, 300}; int bursts[3] = {1, 4, 0};
  struct Act { int kind, n; }; std::vector<Act> acts; // 0 bob speaks n times short, 1 bob speaks long, 2 grant n, 3 unlimited, 4 alice speaks, 5 alice closes, 6 alice resets, 7 alice sends a byte of her next message, 8 alice accepts n bytes (-1: everything) and speaks in the same poll
  str setup() override {
    str e = boot_users({{"carol", "x"}, {"alice", "x"}, {"bob", "x"}}, {false, tls, false}); if (!e.empty()) return e;
    for (int b : bursts) if (b) acts.push_back({0, b});
    acts.push_back({1, 1});
    if (!tls) for (int g : grants) acts.push_back({2, g});
    acts.push_back({2, 0}); acts.push_back({3, 0}); acts.push_back({4, 0}); acts.push_back({5, 0}); acts.push_back({6, 0}); acts.push_back({7, 0}); acts.push_back({8, -1}); if (!tls) acts.push_back({8, grants.back()});
    S.clients[1].window = 0; m.win = 0;
    return "";
  }
  int nactions() override { return acts.size(); }
  bool enabled(int a) override { if (m.closed) return acts[a].kind <= 1 && m.n < 60; if (acts[a].kind == 2 && acts[a].n == 0) return m.win != 0; if (acts[a].kind == 3) return m.win >= 0; if (acts[a].kind == 7) return m.part < 2 && m.an < maxpart; if (acts[a].kind == 8) return m.win >= 0 && m.att <= 10 && m.deliv < m.acc.size() && m.an < maxpart; return m.n < 60; }
  str name(int a) override {
    Act &x = acts[a]; str n = std::to_string(x.n);
    switch (x.kind) { case 0: return "bob speaks " + n + " times"; case 1: return "bob speaks long"; case 2: return x.n ? "alice accepts " + n + " more bytes" : "alice stops accepting"; case 3: return "alice accepts everything"; case 4: return "alice speaks"; case 5: return "alice closes"; case 7: return "alice sends the next byte of a message"; case 8: return "alice accepts " + (x.n < 0 ? str("everything") : n + " more bytes") + " and speaks at once"; default: return "alice resets"; }
  }
  // reference: bounded queue of whole packets in front of a byte window
  size_t waiting() { size_t w = 0; for (size_t e : m.ends) if (e > m.deliv) w++; return w; }
  void attempt() { // one round of writing to alice
    if (m.closed || m.deliv == m.acc.size()) return;
    if (m.att > 10) { m.drop = true; return; }
    size_t before = waiting();
    size_t can = m.win < 0 ? m.acc.size() - m.deliv : std::min<size_t>(m.win, m.acc.size() - m.deliv);
    if (tls && m.win >= 0) can = 0;
    m.deliv += can; if (m.win >= 0) m.win -= can;
    if (waiting() != before) m.att = 0;
    if (m.deliv < m.acc.size()) m.att++;
  }
  void produce(const str &p) {
    if (m.closed || m.drop) return;
    if (waiting() >= 10) return;                 // the only reason a packet may be lost
    m.acc += icb::pkt(p); m.ends.push_back(m.acc.size());
    attempt();
  }
  str step(int a) override {
    Act &x = acts[a]; Pkts due; Pkts bobdue; bool was = m.closed;
    switch (x.kind) {
      case 0: case 1: for (int i = 0; i < x.n; i++) {
          str t = std::to_string(m.n++) + (x.kind ? pad("-", longlen) : str()); icb::send(2, "b" + t); due.push_back("bbob\001" + t.substr(0, 240)); produce("bbob\001" + t.substr(0, 240));
          if (m.drop) { m.closed = true; }
        } break;
      case 2: m.win = x.n; S.clients[1].window = x.n; if (x.n) attempt(); break;
      case 3: m.win = -1; S.clients[1].window = -1; attempt(); break;
      case 7: { str p = icb::pkt("ba" + std::to_string(m.an)).substr(m.part++, 1); S.clients[1].in += tls ? tls_rec(p) : p; break; }
      case 8: m.win = S.clients[1].window = x.n; attempt(); // fall through
      case 4: { str t = "a" + std::to_string(m.an++); str p = icb::pkt("b" + t).substr(m.part); m.part = 0; S.clients[1].in += tls ? tls_rec(p) : p; due.push_back("balice\001" + t); bobdue.push_back("balice\001" + t); break; }
      case 5: S.clients[1].fin = true; m.closed = true; break;
      case 6: S.clients[1].rst = true; m.closed = true; break;
    }
    if (m.drop) m.closed = true;
    str e = run(); if (!e.empty()) return e;
    Client &al = S.clients[1];
    if (m.closed && !al.srv_closed) return "alice's connection should have been closed";
    if (!m.closed && al.srv_closed) return "alice's connection was closed after " + std::to_string(m.att) + " unsuccessful attempts to send to it";
    // alice's byte stream
    str want = m.acc.substr(0, m.deliv);
    if (x.kind != 5 && x.kind != 6 && al.out != want && !was) {
      if (!m.closed || want.compare(0, al.out.size(), al.out) != 0)
        return "bytes received by the slow client differ: expected " + std::to_string(want.size()) + " bytes\n    " + icb::vis(want) + "\n  got " + std::to_string(al.out.size()) + " bytes\n    " + icb::vis(al.out);
    }
    obs++;
    if (tls && (e = ssl_count()) != "") return e;
    // the others
    for (int c : {0, 2}) {
      str perr; Pkts got = icb::take(c, &perr), rest; if (!perr.empty()) return perr; int so = 0;
      for (auto &p : got) { if (p.compare(0, 9, "dSign-off") == 0) so++; else rest.push_back(p); }
      if (so != (m.closed && !was)) return "other users saw " + std::to_string(so) + " sign-off notices";
      e = expect(c ? "bob" : "carol", c ? bobdue : due, rest); if (!e.empty()) return e;
    }
    if (m.closed && !was) { m.acc.clear(); m.ends.clear(); m.deliv = 0; al.out.clear(); }
    // forget what has been completely delivered so that the state stays small
    if (!m.closed && m.deliv == m.acc.size() && m.deliv) { m.acc.clear(); m.ends.clear(); m.deliv = 0; al.out.clear(); }
    return "";
  }
  uint64_t mhash() override { uint64_t h = hash_bytes(m.acc.data(), m.acc.size(), 3); h = mix(h, m.deliv); h = mix(h, m.win + 5); h = mix(h, m.att); h = mix(h, m.closed); h = mix(h, m.n * 1000 + m.an + 1000000 * m.part); return h; }
  str sample() override { return "alice logged in and not reading; bob's first message queued as " + icb::vis(icb::pkt("bbob\0010")); }
};
static std::vector<Scenario> out_scen(bool T, bool tls) {
  std::vector<Scenario> v; int d = T ? 11 : 9;
  v.push_back({"slow reader, single messages", [=] { auto s = std::make_unique<OutSys>(); s->tls = tls; s->bursts[0] = 1; s->bursts[1] = 0; s->grants = T ? std::vector<int>{1, 7, 40, 300} : std::vector<int>{1, 9, 300}; return s; }, tls ? d + 3 : d, 24});
  v.push_back({"slow reader, bursts up to and beyond the queue bound", [=] { auto s = std::make_unique<OutSys>(); s->tls = tls; s->bursts[0] = 1; s->bursts[1] = 9; s->longlen = 240; s->grants = {5, 250}; return s; }, tls ? d + 3 : d, 24});
  if (!tls) v.push_back({"one byte at a time", [=] { auto s = std::make_unique<OutSys>(); s->bursts[0] = 1; s->bursts[1] = 0; s->grants = {1}; return s; }, T ? 18 : 14, 24});
  return v;
}
static Registrar r1("C01", [](bool T) { return in_scen(T, false); });
static Registrar r2("C02", [](bool T) { return out_scen(T, false); });
static Registrar r24("C24", [](bool T) { auto a = in_scen(T, true), b = out_scen(T, true); a.insert(a.end(), b.begin(), b.end()); return a; });

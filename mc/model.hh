// Reference model of icbd: what the server is expected to do, packet for packet, written against the
// documented behaviour and independently structured (value types, std::string, sets of rules).
// The explorer executes every action on the real server and on this model and compares the packets
// every client receives; the model state is part of the visited-state hash.
#pragma once
#include <arpa/inet.h>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include <functional>
#include <cstdint>
#include <cstring>
#include <ctime>
#include <cstdio>
#include <cstdlib>
#include <strings.h>

namespace md {
typedef std::string str;
typedef std::vector<str> Pkts;

enum { PUBLIC = 1, MODERATED, RESTRICTED, CONTROLLED };
enum { VISIBLE = 1, SECRET, INVISIBLE };
enum { QUIET = 1, NORMAL, LOUD };
enum { OUT = 0, PENDING = 1, ON = 2 };
constexpr int NICKLEN = 12, GROUPLEN = 8, TOPICLEN = 32;
constexpr long MOD_TIMEOUT = 300, DEF_IDLE = 3600, MAX_IDLE_MOD = 14400;

inline bool ieq(const str &a, const str &b) { return strcasecmp(a.c_str(), b.c_str()) == 0; }
inline str up(str s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
inline str low(str s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline bool blank(char c) { return c == ' ' || c == '\t'; }
inline str word(const str &s) { size_t i = 0; while (i < s.size() && !blank(s[i]) && i < 63) i++; return s.substr(0, i); }
inline str tail(const str &s) { size_t i = 0; while (i < s.size() && !blank(s[i])) i++; while (i < s.size() && blank(s[i])) i++; return s.substr(i); }
inline str cut(const str &s, size_t n) { return s.size() > n ? s.substr(0, n) : s; }
inline str num(long n) { return std::to_string(n); }
inline str plural(long n, const char *w) { return num(n) + " " + w + (n == 1 ? "" : "s"); }

inline bool alnum(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'); }
inline str okchars(str s, const char *ok) {
  for (auto &c : s) if (!alnum(c) && !strchr(ok, c)) c = c == ' ' ? '_' : '?';
  return s;
}
inline str nickchars(const str &s) { return okchars(s, "-.!'$+,/?_@"); }
inline str groupchars(const str &s) { return okchars(s, "-.!'$+,/?_~"); }

// Length of the valid UTF-8 character at s[i] (RFC 3629); 0: invalid, with *bad = bytes of the maximal
// valid prefix; -1: cut short by the end
inline int u8len(const str &s, size_t i, size_t end, size_t *good) {
  unsigned char c = s[i]; *good = 0;
  if (c < 0x80) return 1;
  int n; unsigned char lo = 0x80, hi = 0xBF;
  if (c >= 0xC2 && c <= 0xDF) n = 2;
  else if (c >= 0xE0 && c <= 0xEF) { n = 3; if (c == 0xE0) lo = 0xA0; if (c == 0xED) hi = 0x9F; }
  else if (c >= 0xF0 && c <= 0xF4) { n = 4; if (c == 0xF0) lo = 0x90; if (c == 0xF4) hi = 0x8F; }
  else return 0;
  *good = 1;
  for (int k = 1; k < n; k++) {
    if (i + k >= end) return -1;
    unsigned char d = s[i + k];
    if (d < lo || d > hi) return 0;
    lo = 0x80; hi = 0xBF; *good = k + 1;
  }
  return n;
}
// Text as it may be sent to clients: at most len bytes of input are looked at; control characters vanish,
// every invalid sequence becomes one '?', a character that does not fit is dropped
inline str clean(const str &src, size_t len) {
  str o; size_t end = std::min(len, src.size()), i = 0;
  while (i < end) {
    size_t good; int n = u8len(src, i, end, &good);
    if (n > 0) { unsigned char c = src[i]; if (n > 1 || c >= 0x20) o += src.substr(i, n); i += n; }
    else if (n < 0) break;
    else { o += '?'; i += good ? good : 1; }
  }
  return o;
}
// Textbook wildcard match
inline bool wild(const char *t, const char *p) {
  if (!*p) return !*t;
  if (*p == '*') { while (*p == '*') p++; for (;; t++) { if (wild(t, p)) return true; if (!*t) return false; } }
  if (!*t) return false;
  if (*p == '?') return wild(t + 1, p + 1);
  if (*p == '\\') { return p[1] && p[1] == *t && wild(t + 1, p + 2); }
  if (*p == '[') {
    const char *q = p + 1; bool neg = false, hit = false;
    if (*q == '^') { neg = true; q++; }
    bool first = true; int prev = -1;
    for (;; first = false) {
      if (!*q) return false;                                   // class not terminated
      if (*q == ']' && !first) break;
      if (*q == '-' && !first && q[1] != ']' && q[1]) { q++; if (*t >= prev && *t <= *q) hit = true; prev = *q; q++; continue; }
      if (*q == *t) hit = true;
      prev = *q++;
    }
    return hit != neg && wild(t + 1, q + 1);
  }
  return *p == *t && wild(t + 1, p + 1);
}

struct List {                       // newest first, distinct ignoring case
  std::vector<str> v; size_t max = 0;
  int pos(const str &n) const { for (size_t i = 0; i < v.size(); i++) if (ieq(v[i], n)) return i; return -1; }
  bool has(const str &n) const { return pos(n) >= 0; }
  bool matches(const str &s) const { for (auto &p : v) if (wild(s.c_str(), p.c_str())) return true; return false; }
  void put(const str &n) {
    int i = pos(n);
    if (i >= 0) { str o = v[i]; v.erase(v.begin() + i); v.insert(v.begin(), o); return; }
    if (v.size() >= max) v.pop_back();
    v.insert(v.begin(), n);
  }
  bool del(const str &n) { int i = pos(n); if (i < 0) return false; v.erase(v.begin() + i); return true; }
};

struct User {
  bool conn = false, closing = false, tls = false;   // transport
  int login = OUT, kill = 0;
  str id, host, ip, nick, pw, group, away;
  bool reg = false;
  int lastaway = 0; long lastawaytime = 0;
  int echo = 0, nobeep = 0; long perms = 0;
  long t_on = 0, t_recv = 0, t_group = 0;
  List hpn{{}, 32}, hon{{}, 32}, hps{{}, 32}, hos{{}, 32}, nn{{}, 40}, ns{{}, 40};
  int lpriv = -1, asker = -1; int64_t ping_us = 0;
  int burst = 0;
  std::vector<str> pend;                             // what has arrived but is not read yet (slow messages)
  int stuck = 0;                                     // 1: part of a packet has been read  2: output cannot be written  3: and there is some
};
struct Group {
  str name, topic, missing, bootmsg;
  int vis = VISIBLE, ctl = PUBLIC, vol = LOUD, mod = -1;
  long modtimeout = 0, idleboot = DEF_IDLE, idlemod = DEF_IDLE; int size = 0;
  List in{{}, 50}, inr{{}, 50}, is{{}, 50}, isr{{}, 50}, tn{{}, 50}, tnr{{}, 50};
};

struct Model {
  int MU = 16, MG = 12, SRV = 15;
  std::vector<User> u; std::vector<Group> g;
  std::map<str, str> db;
  std::vector<std::map<str, str>> *marks = nullptr;   // data base after each complete step of the work (for the crash checks)
  void mark() { if (marks) marks->push_back(db); }
  int64_t now_us = 0;
  std::vector<Pkts> out;
  long die = -1; int shutnote = 0; int loglevel = 0; bool exited = false, can_restart = false; int restart_fails = 0;
  long signons = 0, boots = 0, drops = 0, idleboots = 0, idlemods = 0, start = 0;
  str thishost = "icb.test", version = "ICB Server v1.3.0", adminpw = "adm_pw", motd = "hello\n";
  std::map<str, str> files;
  bool booting = false;
  std::vector<str> F; int argc = 0;
  bool tls_port = false;

  long now() const { return now_us / 1000000; }
  str f(int i) const { return i < (int)F.size() ? F[i] : str(); }

  void init(int mu = 16, int mg = 12) {
    MU = mu; MG = mg; SRV = mu - 1;
    u.assign(MU, User()); g.assign(MG, Group()); out.assign(MU, Pkts());
    User &s = u[SRV]; s.login = ON; s.id = "server"; s.host = thishost; s.nick = "Server"; s.group = "ICB"; s.reg = true; s.nobeep = 1;
    s.t_on = s.t_recv = now(); start = now();
    g[0].name = "ICB"; g[0].topic = "...here to serve you!"; g[0].vis = INVISIBLE; g[0].ctl = RESTRICTED; g[0].vol = QUIET; g[0].mod = SRV;
  }

  // ------------------------------------------------------------------ output
  void raw(int from, int to, const str &p0) {
    if (to < 0) return;
    str p = cut(p0, 254);
    if (to >= SRV) { toserver(from, p); return; }
    if (!u[to].conn || u[to].closing || u[to].kill > 0) return;
    if (u[to].stuck > 1) { u[to].stuck = 3; return; }
    out[to].push_back(p);
  }
  void error(int to, const str &m) { raw(-1, to, "e" + clean(m, 253)); }
  void status(int to, const str &tag, const str &m) { raw(-1, to, "d" + clean(tag, 20) + "\001" + clean(m, 232)); }
  void important(int to, const str &tag, const str &m) { raw(-1, to, "f" + clean(tag, 20) + "\001" + clean(m, 232)); }
  void cmdout(int to, const str &m) { raw(-1, to, "ico\001" + clean(m, 250)); }
  void stored(int to, const str &nick, const str &m) { raw(-1, to, "c" + clean(nick, 12) + "\001" + clean(m, 240)); }
  str addr(int n) const { return up(u[n].id + "@" + u[n].host); }
  str who(int n) const { return u[n].nick + " (" + u[n].id + "@" + u[n].host + ")"; }
  bool hushed_private(int to, int from) const { return u[to].hps.matches(addr(from)) || u[to].hpn.matches(up(u[from].nick)); }
  bool hushed_open(int to, int from) const { return u[to].hos.matches(addr(from)) || u[to].hon.matches(up(u[from].nick)); }
  void person(int from, int to, const str &m) {
    if (hushed_private(to, from)) { status(from, "Bounce", "Message did not go through"); return; }
    u[to].lpriv = from;
    raw(from, to, "c" + clean(u[from].nick, 12) + "\001" + clean(m, 240));
  }
  void open(int from, int to, const str &m) { raw(from, to, "b" + clean(u[from].nick, 12) + "\001" + clean(m, 240)); }
  void toserver(int from, const str &p) {
    if (p[0] == 'k') { person(SRV, from, "Beep yerself!"); u[SRV].t_recv = now(); }
    else if (p[0] == 'c') {
      split(p); str t = f(1);
      command(from, cut(word(t) + "\001" + tail(t), 251));
    }
  }
  void split(const str &s) {
    F.clear(); size_t i = 0;
    for (;;) {
      size_t j = s.find('\001', i);
      if (j == str::npos || F.size() == 19) { F.push_back(s.substr(i)); break; }
      F.push_back(s.substr(i, j - i)); i = j + 1;
    }
    argc = F.size();
  }

  // ------------------------------------------------------------------ lookups
  int user(const str &n) const { if (n.empty()) return -1; for (int i = 0; i < MU; i++) if (u[i].login >= ON && ieq(u[i].nick, n)) return i; return -1; }
  int group(const str &n) const { if (n.empty()) return -1; for (int i = 0; i < MG; i++) if (ieq(g[i].name, n)) return i; return -1; }
  int members(const str &n) const { int c = 0; if (!n.empty()) for (auto &x : u) if (ieq(x.group, n)) c++; return c; }
  int grp(int n) const { return group(u[n].group); }
  bool admin(int n) const { return ieq(u[n].nick, "ADMIN") && ieq(u[n].pw, adminpw); }
  bool invited(int n, int gi) const {
    const Group &x = g[gi];
    return x.in.has(u[n].nick) || x.is.matches(addr(n)) || (u[n].reg && (x.inr.has(u[n].nick) || x.isr.matches(addr(n))));
  }
  void tell(const str &group, int except, const str &tag, const str &m) {
    str gname = group;
    for (int i = 0; i < SRV; i++) if (ieq(u[i].group, gname) && i != except) status(i, tag, m);
  }
  int least_idle(const str &gname, bool skip_away) const {
    int b = -1;
    for (int i = 0; i < MU; i++) if (u[i].login >= ON && ieq(u[i].group, gname) && !(skip_away && !u[i].away.empty()))
      if (b < 0 || u[i].t_recv > u[b].t_recv) b = i;
    return b;
  }

  // ------------------------------------------------------------------ connections
  void connect(int s, const str &host, const str &ip, bool tls = false) {
    u[s].conn = true; u[s].closing = false; u[s].tls = tls; u[s].host = host; u[s].ip = ip;
    out[s].clear();
    raw(-1, s, "j1\001" + thishost + "\001" + version);
  }
  void clear_user(int n) {
    if (u[n].login > OUT) signtime(n, false);
    bool c = u[n].conn, cl = u[n].closing; int b = u[n].burst; long la = 0; (void)la;
    u[n] = User(); u[n].conn = c; u[n].closing = cl; u[n].burst = b;
    for (auto &x : u) { if (x.lpriv == n) x.lpriv = -1; if (x.asker == n) { x.asker = -1; x.ping_us = 0; } if (x.lastaway == n) { x.lastaway = 0; x.lastawaytime = 0; } }
  }
  void lost(int n) {               // the connection is gone
    if (n < SRV) signoff(n);
    u[n].conn = u[n].closing = false;
  }
  void signoff(int n) {
    if (u[n].login == OUT) { clear_user(n); return; }
    bool reg = u[n].reg, killed = u[n].kill > 0; str gname = u[n].group, nick = u[n].nick, fid = who(n), ad = addr(n);
    int og = group(gname);
    if (og >= 0 && g[og].vis != INVISIBLE)
      for (int j = 0; j < MU; j++) if (j != n && u[j].login > OUT && (u[j].nn.matches(up(nick)) || u[j].ns.matches(ad)))
        status(j, "Notify-Off", nick + " (" + ad + ") has just signed off");
    clear_user(n);
    if (og >= 0) {
      if (members(gname) > 0) { if (g[og].vol != QUIET) tell(gname, -1, "Sign-off", fid + (killed ? " has been disconnected." : " has signed off.")); }
      else g[og] = Group();
    }
    for (int i = 0; i < MG; i++) if (g[i].mod == n && !g[i].name.empty()) {
      if (members(g[i].name) == 0) continue;
      if (!reg) {
        if (g[i].vol != QUIET) tell(g[i].name, -1, "Sign-off", "Your group moderator signed off. (No timeout)");
        g[i].mod = least_idle(g[i].name, false);
        if (g[i].mod >= 0) tell(g[i].name, -1, "Pass", u[g[i].mod].nick + " is now mod.");
      } else {
        tell(g[i].name, -1, "Mod", "Your group moderator signed off. (" + num(MOD_TIMEOUT) + " second timeout)");
        g[i].mod = -1; g[i].missing = nick; g[i].modtimeout = now() + MOD_TIMEOUT;
      }
    }
  }
  void disconnect(int n) { if (n < SRV && u[n].conn) u[n].closing = true; }
  // everything the server does between two waits for input
  void settle(bool rev = false) {
    if (exited) return;
    for (;;) {
      mark();
      for (int k = 0; k < SRV; k++) { int i = rev ? SRV - 1 - k : k; if (u[i].conn && u[i].closing) { lost(i); mark(); } }
      periodic(); mark();
      bool again = false;
      for (int i = 0; i < SRV; i++) if (u[i].conn && u[i].closing) again = true;
      if (!again || exited) break;
    }
  }
  void periodic() {
    long t = now();
    if (die > 0 && t >= die) { exited = true; return; }
    if (die > 0 && t >= die - 300 && shutnote == 0) { for (int i = 0; i < SRV; i++) if (u[i].login > OUT) important(i, "Shutdown", "Server shutting down in 5 minutes!"); shutnote++; }
    if (die > 0 && t >= die - 60 && shutnote == 1) { for (int i = 0; i < SRV; i++) if (u[i].login > OUT) important(i, "Shutdown", "Server shutting down in 1 minute!"); shutnote++; }
    for (int i = 0; i < SRV; i++) if (u[i].kill > 0) { drops++; disconnect(i); }
    for (int i = 0; i < MG; i++) {
      Group &x = g[i];
      if (x.ctl != PUBLIC && x.mod >= 0 && t - u[x.mod].t_recv > x.idlemod) {
        int m = x.mod; bool other = false;
        for (int k = 0; k < SRV; k++) if (k != m && u[k].login >= ON && u[k].away.empty() && grp(k) == i && u[k].t_recv > u[m].t_recv) other = true;
        if (other) {
          status(m, "Idle-Mod", "A piano suddenly falls on you, dislodging moderatorship of " + x.name + ".");
          if (x.vol != QUIET) tell(x.name, m, "Idle-Mod", "A piano suddenly falls on " + u[m].nick + ", dislodging moderatorship of " + x.name + ".");
          x.modtimeout = 1; idlemods++;
        }
      }
      if (x.modtimeout > 0 && x.modtimeout < t) {
        int nm = least_idle(x.name, true);
        if (nm >= 0) { x.mod = nm; x.modtimeout = 0; x.missing.clear(); tell(x.name, -1, "Timeout", u[nm].nick + " is now mod."); }
      }
    }
    for (int i = 0; i < SRV; i++) {
      if (u[i].login < ON) continue;
      int gi = grp(i); if (gi < 0) continue;
      if (ieq(u[i].group, "~IDLE~") || g[gi].idleboot <= 0 || t - u[i].t_recv <= g[gi].idleboot) continue;
      str msg = g[gi].bootmsg.empty() ? "A swarm of bats swoops down and carries %s away." : g[gi].bootmsg;
      status(i, "Idle-Boot", subst(msg, "you"));
      if (g[gi].vol != QUIET) tell(u[i].group, i, "Idle-Boot", subst(msg, u[i].nick));
      for (int j = 0; j < MG; j++) if (g[j].mod == i) {
        g[j].mod = least_idle(g[j].name, false);
        if (g[j].mod >= 0) tell(g[j].name, g[j].name == u[i].group ? i : -1, "Pass", u[g[j].mod].nick + " is now mod.");
      }
      booting = true; change(i, "~IDLE~", false); booting = false; idleboots++;
    }
  }
  // printf-style expansion of a template that has passed fmtcheck
  static str subst(const str &m, const str &name) {
    str o; for (size_t i = 0; i < m.size(); i++) {
      if (m[i] == '%' && i + 1 < m.size()) { i++; if (m[i] == 's') o += name; else o += '%'; }
      else o += m[i];
    }
    return o;
  }
  static str fmtcheck(const str &m, int &n) {
    int s = 0, bad = 0;
    for (size_t i = 0; i < m.size(); i++) if (m[i] == '%') { i++; if (i < m.size() && m[i] == 's') s++; else if (i < m.size() && m[i] == '%') ; else { bad++; i--; } }
    if (bad) { n = -1; return "Message can't include %d, %f and such. Use %% to quote a single %."; }
    if (s != n) { str e = n == 0 ? "Message can't include %d, %f and such. Use %% to quote a single %." : "Message must contain (only) " + num(n) + " %s for the username."; n = s; return e; }
    return "";
  }

  // ------------------------------------------------------------------ packets
  bool slow(int n) const { return (u[n].perms & 2) && now() - u[n].t_recv < 1; }
  // a packet that arrives: what a user with slow messages sends is read a second after the last thing he did
  void arrive(int n, const str &payload) { if (!u[n].pend.empty() || slow(n)) u[n].pend.push_back(payload); else packet(n, payload); }
  void settle3() {   // and everything that can be read now
    for (bool any = true, first = true; any; first = false) {
      any = false;
      for (int i = 0; i < SRV; i++) if (!exited && u[i].conn && !u[i].closing && !u[i].pend.empty() && !slow(i)) { str p = u[i].pend[0]; u[i].pend.erase(u[i].pend.begin()); any = true; packet(i, p); }
      if (first || any) settle();
    }
  }
  void packet(int n, const str &payload) {
    char t = payload.empty() ? 0 : payload[0]; str rest = payload.empty() ? "" : payload.substr(1);
    static const std::map<char, const char *> no = {{'c', "PERSONAL"}, {'d', "STATUS"}, {'e', "ERROR"}, {'f', "IMPORTANT"}, {'g', "EXIT"}, {'i', "CMDOUT"}, {'j', "PROTO"}, {'k', "BEEP"}, {'l', "PING"}};
    if (t == 'a') {
      if (n >= SRV) { disconnect(n); return; }
      if (!login(n, rest)) { raw(-1, n, "g"); u[n].kill++; }
    } else if (t == 'b') openmsg(n, rest);
    else if (t == 'h') command(n, rest);
    else if (t == 'm') pong(n);
    else if (t == 'n') ;
    else if (no.count(t)) error(n, str("Server doesn't handle ICB_M_") + no.at(t) + " packets");
    else error(n, num(n) + ": Invalid packet type \"" + str(payload.c_str(), payload.empty() ? 0 : 1) + "\" (" + payload + ")");
  }
  bool may_talk(int n, int gi) {
    Group &x = g[gi];
    if (x.ctl != CONTROLLED || x.mod == n || x.tn.has(u[n].nick) || (u[n].reg && x.tnr.has(u[n].nick))) return true;
    error(n, "You do not have permission to send open messages in this group.");
    if (x.mod >= 0) status(n, "INFO", "Use \"/m " + u[x.mod].nick + " may i talk?\" to request permission.");
    return false;
  }
  void openmsg(int n, const str &p) {
    if (u[n].login < ON) return;
    if (!u[n].away.empty()) status(n, "Away", "Your away is still set...");
    if (u[n].group == "1") {
      u[n].burst++;
      if (u[n].t_recv == now()) {
        if (u[n].burst > 2) {
          status(n, "Boot", "No spamming in group 1.");
          tell(u[n].group, -1, "Boot", u[n].nick + " was auto-booted for spamming.");
          booting = true; change(n, "ICB", false); booting = false;
        }
      } else u[n].burst = 0;
    }
    u[n].t_recv = now();
    split(p); if (argc != 1) return;
    int gi = grp(n); str text = f(0);
    if (g[gi].vol == QUIET) { error(n, "Open messages not permitted in quiet groups."); return; }
    if (!may_talk(n, gi)) return;
    if (members(g[gi].name) < 2) { error(n, "No one else in group!"); return; }
    for (int i = 0; i < SRV; i++)
      if (u[i].login == ON && ieq(u[i].group, u[n].group) && (i != n || u[n].echo) && !hushed_open(i, n)) open(n, i, text);
  }
  void exclude(int n) {
    if (argc != 2) return;
    str w = word(f(1)), t = tail(f(1));
    if (t.empty()) { error(n, "Empty message."); return; }
    int gi = grp(n);
    if (g[gi].vol == QUIET) { error(n, "Open messages not permitted in quiet groups."); return; }
    if (!may_talk(n, gi)) return;
    int x = user(w); str shown = x > 0 ? u[x].nick : w;
    for (int i = 0; i < SRV; i++)
      if (u[i].login >= ON && ieq(u[i].group, u[n].group) && (i != n || u[n].echo) && !hushed_open(i, n) && !ieq(u[i].nick, w)) {
        status(i, "Exclude", u[n].nick + "'s next message excludes " + shown + ":");
        open(n, i, t);
      }
  }
  // ------------------------------------------------------------------ groups
  bool change(int n, str name, bool at_login) {
    if (!name.empty() && name[0] == '@') {
      int t = user(name.substr(1));
      if (t < 0 || g[grp(t)].vis != VISIBLE) { error(n, "User not found."); return false; }
      return change(n, u[t].group, false);
    }
    if (name.empty()) { error(n, "Null groupnames are not allowed."); return false; }
    int vis = VISIBLE; str nm;
    if (name[0] == '.') { if (name.size() > 1 && name[1] == '.') { vis = INVISIBLE; nm = cut(name.substr(2), GROUPLEN); } else { vis = SECRET; nm = cut(name.substr(1), GROUPLEN); } }
    else nm = cut(name, GROUPLEN);
    if (nm.empty()) { error(n, "Group name too short."); return false; }
    nm = groupchars(nm);
    int gi = group(nm);
    if (gi < 0) {
      for (int i = 0; i < MG && gi < 0; i++) if (g[i].name.empty()) gi = i;
      if (gi < 0) { error(n, "Too many groups!"); return false; }
      g[gi] = Group(); Group &x = g[gi]; x.name = nm; x.vis = vis;
      if (ieq(nm, "~RESEDA~")) { x.vis = SECRET; x.topic = "Boot-ees"; }
      else if (ieq(nm, "~IDLE~")) { x.vis = VISIBLE; x.vol = QUIET; x.idleboot = 0; x.topic = "Idlers"; }
      else if (nm != "1") { x.ctl = MODERATED; x.mod = n; }
    }
    Group &x = g[gi];
    auto probe = [&](const str &what) {
      if (x.mod > 0 && x.vol == LOUD && !hushed_private(x.mod, n)) { status(x.mod, "Probe", u[n].nick + what); u[x.mod].lpriv = n; }
    };
    if (x.ctl == RESTRICTED && !admin(n) && x.mod != n && !invited(n, gi) && !booting) {
      error(n, nm + " is restricted."); probe(" tried to enter the group."); return false;
    }
    int og = grp(n);
    if ((x.ctl == MODERATED || x.ctl == CONTROLLED) && x.size > 0 && x.mod != n) {
      int c = 0; for (int i = 0; i < SRV; i++) if (ieq(u[i].group, x.name)) c++;
      if (c >= x.size) { probe(" tried to enter the group, but it's full."); error(n, "Group " + nm + " is full."); return false; }
    }
    if (gi == og) { error(n, "You are already in that group!"); return false; }
    u[n].group = x.name;
    if (x.vol != QUIET) tell(x.name, n, (u[n].login < ON || at_login) ? "Sign-on" : "Arrive", who(n) + " entered group");
    status(n, "Status", "You are now in group " + x.name + (x.mod == n ? " as moderator" : ""));
    u[n].t_group = now();
    if (og >= 0) {
      if (members(g[og].name) > 0) {
        if (g[og].vol != QUIET) {
          tell(g[og].name, -1, "Depart", who(n) + " just left");
          if (g[og].mod == n) important(n, "Mod", "You are still mod of group " + g[og].name);
        }
      } else g[og] = Group();
    }
    return true;
  }
  // word-wise option parsing shared by several commands: letters of leading "-xyz" words; false: usage error
  bool options(int n, str &who, const str &allowed, const str &groups, const str &usage, std::map<char, int> &got) {
    // 'groups': letters listed here exclude each other
    while (!who.empty() && who[0] == '-') {
      str fl = word(who);
      for (size_t i = 1; i < fl.size(); i++) {
        char c = fl[i]; bool dup = got.count(c) > 0;
        if (groups.find(c) != str::npos) for (char d : groups) if (got.count(d)) dup = true;
        if (allowed.find(c) == str::npos || dup) { error(n, usage); return false; }
        got[c] = 1;
      }
      who = tail(who);
    }
    return true;
  }
  void cancel(int n) {
    if (argc != 2) return;
    int gi = grp(n); Group &x = g[gi]; bool r = x.ctl == RESTRICTED, m = x.mod == n; str w = f(1); std::map<char, int> o;
    if (!options(n, w, "qsn", "sn", "Usage: cancel {-q} {-n nickname | -s address}", o)) return;
    bool site = o.count('s');
    if (site) w = up(w);
    if (!r || !m) { if (!r) error(n, "The group isn't restricted."); if (!m) error(n, "You aren't the moderator."); return; }
    bool a = site ? x.is.del(w) : x.in.del(w), b = site ? x.isr.del(w) : x.inr.del(w);
    if (a || b) {
      if (!o.count('q')) status(n, "FYI", w + " cancelled");
      if (!site && user(w) < 0) status(n, "Warning", w + " is not signed on");
    } else status(n, "Warning", w + " was not invited");
  }
  // lines of at most 74 characters made of items
  struct Lines { Model &m; int n; str line; void add(const str &s) { if (s.size() >= 74) return; if (line.size() + s.size() + 1 >= 75) { m.cmdout(n, line); line.clear(); } if (line.empty() && s == ", ") return; line += s; } };
  void items(int n, const str &head, const List &a, const List &b) {
    Lines l{*this, n, ""};
    for (size_t i = 0; i < a.v.size(); i++) { l.add(i == 0 ? head : ", "); if (!a.v[i].empty()) l.add(a.v[i]); }
    for (size_t i = 0; i < b.v.size(); i++) { l.add(l.line.empty() ? head : ", "); if (!b.v[i].empty()) l.add(b.v[i] + "(r)"); }
    if (!l.line.empty()) cmdout(n, l.line);
  }
  int list_invites(int n, int gi) {
    Group &x = g[gi];
    items(n, "Nicks invited: ", x.in, x.inr); items(n, "Addrs invited: ", x.is, x.isr);
    return x.in.v.size() + x.inr.v.size() + x.is.v.size() + x.isr.v.size();
  }
  void invite(int n) {
    if (argc != 2) return;
    int gi = grp(n); Group &x = g[gi]; bool r = x.ctl == RESTRICTED, m = x.mod == n; str w = f(1); std::map<char, int> o;
    if (!options(n, w, "qsnr", "sn", "Usage: invite {-q} {-r} {-n nickname | -s address}", o)) return;
    if (w.empty()) {
      if (!r) status(n, "Invite", "Invite lists only function in restricted groups.");
      else if (list_invites(n, gi) < 1) status(n, "Invite", "No one on invite list");
      return;
    }
    bool site = o.count('s'), regonly = o.count('r');
    if (site) w = up(w);
    if (r && m) {
      (site ? (regonly ? x.isr : x.is) : (regonly ? x.inr : x.in)).put(w);
      if (!o.count('q')) status(n, "FYI", w + (regonly ? " invited (registered only)" : " invited"));
    }
    if (!site && (!r || m)) {
      int d = user(w);
      if (d >= 0) { if (u[d].reg || !regonly) status(d, "RSVP", "You are invited to group " + u[n].group + " by " + u[n].nick); }
      else status(n, "Warning", w + " is not signed on.");
    }
    if (site && !r) error(n, "The group isn't restricted.");
    if (!m && r) error(n, "You aren't the moderator.");
  }
  void pass(int n) {
    if (argc != 2) return;
    int gi = grp(n); Group &x = g[gi];
    if (!admin(n) && x.mod != n) { error(n, "You aren't the moderator."); return; }
    if (f(1).empty()) {
      x.mod = -1;
      if (x.vol != QUIET) tell(u[n].group, -1, "Pass", u[n].nick + " just relinquished the mod.");
      if (x.ctl == CONTROLLED) { x.ctl = PUBLIC; if (x.vol != QUIET) tell(u[n].group, -1, "Change", "Group is now public."); }
      return;
    }
    str w = word(f(1)); if (w.empty()) return;
    if (ieq(w, "server")) { error(n, "Cannot pass to Server."); return; }
    int d = user(w);
    if (d < 0) { error(n, w + " is not on!"); return; }
    x.mod = d;
    status(d, "Pass", u[n].nick + " just passed you moderation of group " + x.name);
    if (x.vol != QUIET) tell(u[n].group, -1, "Pass", u[n].nick + " has passed moderation to " + u[d].nick);
  }
  void boot(int n) {
    if (argc != 2) return;
    int gi = grp(n); Group &x = g[gi];
    if (!admin(n) && x.mod != n) { error(n, "You aren't the moderator."); return; }
    str w = word(f(1)), msg = tail(f(1)); int d = user(w);
    if (d < 0) { status(n, "Warning", w + " is not signed on"); return; }
    if (ieq(w, "ADMIN")) { error(n, "You nobk! You can't boot the admin!"); status(d, "Boot Attempt!", u[n].nick + " tried to boot you!"); return; }
    int s = 0;
    if (!msg.empty()) { s = 1; str e = fmtcheck(msg, s); if (!e.empty() && s != 0) { error(n, e); return; } }
    if (grp(d) != gi) { error(n, f(1) + " is not in your group"); return; }
    bool a = x.in.del(u[d].nick), b = x.inr.del(u[d].nick);
    if (a || b) status(n, "FYI", u[d].nick + " cancelled");
    str t = msg.empty() ? u[d].nick + " was booted." : s == 0 ? u[d].nick + " " + msg : subst(msg, u[d].nick);
    if (x.vol != QUIET) tell(u[n].group, -1, "Boot", t);
    status(d, "Boot", u[n].nick + " booted you.");
    booting = true; change(d, "~RESEDA~", false); booting = false; boots++;
  }
  static str hm(long s) { return plural(s / 3600, "hour") + ", " + plural(s % 3600 / 60, "minute"); }
  void show_status(int n) {
    int gi = grp(n); Group &x = g[gi];
    static const char *V[] = {"", "Visible", "Secret", "Invisible"}, *C[] = {"", "Public", "Moderated", "Restricted", "Controlled"}, *L[] = {"", "Quiet", "Normal", "Loud"};
    cmdout(n, "Name: " + x.name + " Mod: " + (x.mod >= 0 ? u[x.mod].nick : x.modtimeout == 0 ? str("None") : x.missing) + " (" + V[x.vis] + " / " + C[x.ctl] + " / " + L[x.vol] + ")");
    list_invites(n, gi);
    items(n, "Nicks who can talk: ", x.tn, x.tnr);
    cmdout(n, x.size == 0 ? str("Size: no limit") : "Size: " + plural(x.size, "user") + " limit");
    cmdout(n, x.idleboot == 0 ? str("Idle-Boot: no limit") : "Idle-Boot: " + hm(x.idleboot));
    if (!x.bootmsg.empty()) cmdout(n, "Idle-Boot Message: " + x.bootmsg);
    if (x.ctl != PUBLIC) cmdout(n, "Idle-Mod: " + hm(x.idlemod));
  }
  void group_status(int n) {
    if (argc != 2) return;
    if (f(1).empty()) { show_status(n); return; }
    int gi = grp(n); Group &x = g[gi];
    for (const char *b : {"1", "~IDLE~", "~RESEDA~"}) if (ieq(x.name, b)) { error(n, str("Can't change group ") + b + "!"); return; }
    bool has_mod = x.mod != -1 || x.modtimeout > 0;
    if (x.mod != n && has_mod && x.ctl != PUBLIC) { error(n, "You aren't the moderator."); return; }
    str rest = f(1); const str me = u[n].nick;
    auto say = [&](const str &m) { tell(u[n].group, -1, "Change", m); };
    auto opened = [&]() { x.in.v.clear(); x.inr.v.clear(); x.is.v.clear(); x.isr.v.clear(); };
    auto dur = [&](long s) { return s > 59 * 60 ? hm(s) : plural(s / 60, "minute"); };
    while (!word(rest).empty()) {
      str ow = word(rest), o = low(ow); rest = tail(rest);
      static const std::map<str, str> need = {{"r", "become restricted"}, {"m", "become moderated"}, {"c", "become controlled"}, {"b", "have idleboot changed"}, {"im", "have idlemod changed"}, {"q", "be changed to quiet"}};
      if (need.count(o) && !has_mod) {
        error(n, "Groups without a moderator cannot " + need.at(o) + ".");
        if (o == "b" || o == "im") rest = tail(rest);
        continue;
      }
      if (o == "r") {
        x.ctl = RESTRICTED;
        for (int i = 0; i < MU; i++) if (ieq(u[i].group, x.name)) {
          (u[i].reg ? x.inr : x.in).put(u[i].nick);
          if (x.mod > 0) status(x.mod, "FYI", u[i].nick + " invited");
          status(i, "FYI", "You are invited to group " + x.name + " by default.");
        }
        say("Group is now restricted.");
      }
      else if (o == "m") { x.ctl = MODERATED; opened(); say("Group is now moderated."); }
      else if (o == "c") { x.ctl = CONTROLLED; opened(); say("Group is now controlled."); }
      else if (o == "p") { x.ctl = PUBLIC; opened(); say(me + " made group public."); }
      else if (o == "i") { x.vis = INVISIBLE; say(me + " made group invisible."); }
      else if (o == "s") { x.vis = SECRET; say(me + " made group secret."); }
      else if (o == "v") { x.vis = VISIBLE; say(me + " made group visible."); }
      else if (o == "q") { x.vol = QUIET; say(me + " made group quiet."); }
      else if (o == "n") { x.vol = NORMAL; say(me + " made group normal."); }
      else if (o == "l") { x.vol = LOUD; say(me + " made group loud."); }
      else if (o == "#") {
        str a = word(rest); rest = tail(rest); int v = atoi(a.c_str());
        if (a.empty() || v < 0 || v > SRV) error(n, "Size must be between 0 and " + num(SRV) + ".");
        else { x.size = v; say(v == 0 ? me + " removed group size limit." : me + " made group limited to " + num(v) + " users."); }
      }
      else if (o == "b") {
        str a = word(rest); rest = tail(rest);
        if (a.empty()) error(n, "Idle-Boot must be specified in number of minutes (0=disabled).");
        else if (strtol(a.c_str(), nullptr, 10) < 0) error(n, "Idle-Boot must be > 0 (or 0 to disable).");
        else { x.idleboot = std::min(strtol(a.c_str(), nullptr, 10), 2147483647l / 60) * 60; say(x.idleboot == 0 ? me + " disabled idle-boot." : me + " set idle-boot to " + dur(x.idleboot) + "."); }
      }
      else if (o == "idlebootmsg") {
        if (rest.empty() || rest.size() > 54) error(n, "Idle-Boot message length must be between 1 and 54 (yours was " + num(rest.size()) + ").");
        else { int s = 1; str e = fmtcheck(rest, s); if (!e.empty()) error(n, e); else { x.bootmsg = rest; status(n, "Change", "Idle-boot msg: " + rest); } }
        rest.clear();
      }
      else if (o == "im") {
        str a = word(rest); rest = tail(rest); long v = std::max(std::min(strtol(a.c_str(), nullptr, 10), 2147483647l / 60), -2147483647l / 60) * 60;
        if (a.empty()) { error(n, "Idle-Mod must be between 0 and 240."); continue; }
        if (v == 0) { status(n, "Info", "Using maximum value allowed"); v = MAX_IDLE_MOD; }
        if (v < 1 || v > MAX_IDLE_MOD) error(n, "Idle-Mod must be between 0 and 240.");
        else { x.idlemod = v; say(me + " set idle-mod to " + dur(v) + "."); }
      }
      else if (o == "name") {
        str nn = groupchars(word(rest)); rest = tail(rest); str nm = cut(nn, GROUPLEN);
        if (nn.empty()) error(n, "New name may not be null.");
        else if (nm == "1") error(n, "Cannot change name to group 1.");
        else if (group(nm) >= 0 && group(nm) != gi) error(n, "That group already exists.");
        else {
          for (int i = 0; i < SRV; i++) if (ieq(u[i].group, x.name)) u[i].group = nm;
          x.name = nm; say(me + " renamed group to " + nn);
        }
      }
      else if (o == "?") {
        for (const char *l : {"Table Of Status Commands", "r - restricted c - controlled m - moderated p - public", "i - invisible s - secret v - visible", "q - quiet n - normal l - loud", "name - change group name", "? -- this table", "# - change the number of allowed users", "b - change the idleboot setting", "idlebootmsg - change the idleboot message", "im - change the idlemod setting"}) status(n, "Information", l);
      }
      else error(n, "Option " + ow + " unknown.");
    }
  }
  void topic(int n) {
    if (argc != 2) return;
    Group &x = g[grp(n)];
    if (f(1).empty()) { cmdout(n, x.topic.empty() ? str("The topic is not set.") : "The topic is: " + x.topic); return; }
    if (x.mod >= 0 && x.mod != n) { error(n, "You aren't the moderator."); return; }
    if (x.name == "1" || x.name == "~IDLE~" || x.name == "~RESEDA~") { error(n, "You can't change this group's topic."); return; }
    x.topic = cut(f(1), TOPICLEN);
    if (x.vol != QUIET) tell(u[n].group, -1, "Topic", u[n].nick + " changed the topic to \"" + x.topic + "\"");
  }
  int talk_delete(const str &w, int gi) {
    Group &x = g[gi]; bool a = x.tn.del(w), b = x.tnr.del(w); int d = user(w);
    if ((a || b) && d >= 0 && (a || u[d].reg))
      status(d, "TALK", "You no longer can talk in group " + u[x.mod].group + " (no thanks to " + u[x.mod].nick + ")");
    return a + b;
  }
  void talk_report(int n, int gi) {
    Group &x = g[gi];
    if (x.tn.has(u[n].nick) || (u[n].reg && x.tnr.has(u[n].nick))) cmdout(n, "Talk permission in: " + x.name);
  }
  void talk(int n) {
    if (argc != 2) return;
    const str usage = "Usage: talk {-a} {-q} {-r} {-d} nickname";
    int gi = grp(n); Group &x = g[gi]; str w = f(1); std::map<char, int> o;
    if (!options(n, w, "qadr", "", usage, o)) return;
    if (w.empty()) { error(n, usage); return; }
    if (x.ctl == PUBLIC) { error(n, "The group is public."); return; }
    if (x.mod != n) { error(n, "You aren't the moderator."); return; }
    bool quiet = o.count('q'), r = o.count('r');
    if (o.count('d')) {
      if (talk_delete(w, gi) == 0) error(n, w + " is not in talk list");
      else if (!quiet) status(n, "FYI", w + " removed from talk list");
      return;
    }
    if (!o.count('a')) {
      for (int k = 0; k < 2; k++) {
        List &l = k ? x.tnr : x.tn; size_t c = l.v.size();
        while (c--) { str e = l.v[0]; talk_delete(e, gi); if (!quiet) status(n, "FYI", e + (k ? " removed from registered talk list" : " removed from talk list")); }
      }
    }
    (r ? x.tnr : x.tn).put(w);
    if (!quiet) status(n, "FYI", w + (r ? " can talk (registered only)" : " can talk"));
    int d = user(w);
    if (d >= 0) { if (u[d].reg || !r) status(d, "TALK", "You can talk in group " + u[n].group + " (courtesy of " + u[n].nick + ")"); }
    else status(n, "Warning", w + " is not signed on.");
  }
  // ------------------------------------------------------------------ private messages, beeps, pings
  str clock12() const { long t = now() % 86400; int h = t / 3600, m = t % 3600 / 60; char b[32]; snprintf(b, 32, "%d:%02d%s", h > 12 ? h - 12 : h == 0 ? 12 : h, m, h > 11 ? "pm" : "am"); return b; }
  void away_reply(int n, int d) {
    if (u[d].away.empty()) return;
    if (u[d].lastaway == n && now() - u[d].lastawaytime <= 10) return;
    u[d].lastaway = n; u[d].lastawaytime = now();
    status(n, "Away", u[d].away);
    if (u[d].echo == 2) cmdout(d, cut("<*to: " + u[n].nick + "*> [=@" + clock12() + "=] " + u[d].away, 253));
  }
  void personal(int n) {
    if (argc != 2) return;
    str w = word(f(1)), t = tail(f(1)); int d = user(w);
    if (d < 0) { error(n, w + " not signed on."); return; }
    if (!u[n].away.empty() && d != SRV) status(n, "Away", "Your away is still set...");
    person(n, d, t);
    if (u[n].echo == 2) cmdout(n, cut("<*to: " + u[d].nick + "*> " + t, 253));
    away_reply(n, d);
  }
  void beep(int n) {
    if (argc != 2) return;
    str w = word(f(1)); if (w.empty()) return;
    int d = user(w);
    if (d < 0) { error(n, w + " not signed on."); return; }
    if (u[d].nobeep) { error(n, "User has nobeep enabled."); if (u[d].nobeep == 2) status(d, "No-Beep", u[n].nick + " attempted (and failed) to beep you"); }
    else raw(n, d, "k" + u[n].nick);
    if (u[n].echo == 2) cmdout(n, "<*to: " + u[d].nick + "*> [=Beep=]");
    away_reply(n, d);
  }
  void ping(int n) {
    if (argc != 2) return;
    str w = word(f(1)); int d;
    if (w.empty()) d = n;
    else { d = user(w); if (d <= 0) { error(n, "Can't locate user (" + w + ")"); return; } }
    u[d].ping_us = now_us; u[d].asker = n;
    raw(-1, d, "l" + u[n].nick);
  }
  void pong(int n) {
    if (u[n].login < ON) return;
    if (u[n].asker < 0) { status(n, "PONG", "You were pinged, but they aren't there to receive your pong."); return; }
    int64_t d = now_us - u[n].ping_us; char b[64]; snprintf(b, 64, "%ld.%02ld", (long)(d / 1000000), (long)(d % 1000000 / 10000));
    status(u[n].asker, "PONG", u[n].nick + " client responded in " + b + " seconds.");
    u[n].asker = -1; u[n].ping_us = 0;
  }
#include "model_user.hh"
};
} // namespace md

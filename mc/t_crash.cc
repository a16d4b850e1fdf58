// C18: user data survives a crash at any moment.  The lock-step exploration of msys.hh, extended by
//   - for every executed command: all states the disk can be in if the process or the machine stops before any file
//     operation or in the middle of any write (unsynced data lost or torn, renames not yet durable) - each must be the
//     database after a complete command; and the real server is restarted on every kind of left-over,
//   - "!crash", "!term" (SIGTERM), "!OPn LINE" (stop before the n-th OP while handling LINE), each followed by a restart,
//   - "*create" "*fwrite" "*fwrite3" "*fsync" "*rename": from now on this operation fails ("*wN": only the N-th write of every flush); "*short": files take 3 bytes per write; "*ok".
#include "msys.hh"
#include <set>
#include <fcntl.h>
#include <errno.h>
using namespace ms;
typedef std::map<str, str> Map;
typedef std::map<str, std::shared_ptr<str>> Files;
static const char *FM[] = {"ok", "create", "fwrite", "fwrite3", "fsync", "rename", "short", "w1", "w2", "w3", "w4", "w5", "w6", "w7"};
static const int NFM = sizeof FM / sizeof *FM;
static bool logf(const str &p) { return p.find(".log") != str::npos; }

struct CrashSys : ModelSys {
  vos::Snap pristine; bool deep; std::vector<str> lines; int wcount = 0; bool fired = false;   // fired: the failing operation was really attempted in this step
  CrashSys(Conf c, bool d) : ModelSys(std::move(c)), deep(d) { lines = this->c.acts; this->c.acts.clear(); this->c.db = false; }
  static constexpr const char *DB = "icbdb.db";
  str setup() override {
    vos::save(pristine);
    nodb = true; str e = ModelSys::setup(); if (!e.empty()) return e;
    m.disk = m.m.db; m.fault = 0; return check_db();
  }
  int nactions() override { return lines.size(); }
  str name(int a) override { return lines[a]; }
  bool terminal() override { return false; }
  uint64_t mhash() override { uint64_t h = ModelSys::mhash(); h = vos::mix(h, m.fault); for (auto &x : m.disk) h = vos::hash_bytes((x.first + "=" + x.second).data(), x.first.size() + x.second.size() + 1, h); return h; }
  static bool kill_line(const str &l, str &op, int &n, str &rest) { // "!fsync1 alice /p pw"
    if (l[0] != '!') return false; size_t sp = l.find(' '); if (sp == str::npos) return false;
    op = l.substr(1, sp - 1); n = op.back() - '0'; op.pop_back(); rest = l.substr(sp + 1); return true;
  }
  bool enabled(int a) override {
    const str &l = lines[a]; str op, rest; int n;
    if (l[0] == '*') return str(FM[m.fault]) != l.substr(1);
    if (kill_line(l, op, n, rest)) return m.fault == 0 && can(parse(rest));
    if (l[0] == '!') return true;
    return can(parse(l));
  }
  void faults() {
    vos::file_chunk = m.fault == 6 ? 3 : -1; wcount = 0; fired = false;
    if (m.fault == 0 || m.fault == 6) { vos::fault_hook = nullptr; return; }
    int f = m.fault;
    vos::fault_hook = [this, f](const char *op, int, const str &p) -> int { int r = failing(f, op, p); if (r) fired = true; return r; };
  }
  int failing(int f, const char *op, const str &p) {
      if (logf(p)) return 0; str o = op;
      if (f > 6) { if (o == "create") wcount = 0; else if (o == "fwrite" && ++wcount == f - 6) return EIO; return 0; }
      if (f == 1 && o == "create") return ENOSPC; if (f == 2 && o == "fwrite") return ENOSPC; if (f == 3 && o == "fwrite") return ++wcount >= 3 ? EIO : 0;
      if (f == 4 && o == "fsync") return EIO; if (f == 5 && o == "rename") return EIO; return 0;
  }
  str boot_from(Files f, Map db, int64_t now) {
    vos::fault_hook = nullptr; vos::fs_hook = nullptr; vos::file_chunk = -1;
    vos::restore(pristine); vos::S.files = f; vos::S.now_us = now;
    str e = icb::boot(c.tls); if (!e.empty()) return "restart after the crash: " + e;
    md::Model n; n.now_us = now; n.files = m.m.files; n.db = db; n.init(); n.signtime(n.SRV, true);
    m.m = n; for (int &x : m.cl) x = -1; m.fault = 0;
    e = settle("the restart"); if (!e.empty()) return e;
    e = check_db(); if (!e.empty()) return "after the restart " + e;
    m.disk = m.m.db; return "";
  }
  // ---- what the disk may hold after a crash
  struct Ev { str op, path, arg; Files files; };
  str crash_points(const Files &f0, const std::vector<Ev> &ev, const std::vector<Map> &okdb) {
    typedef std::set<str> Set; std::map<str, Set> D; std::map<str, bool> gone; Files cur = f0; str pend;
    for (auto &x : f0) D[x.first] = {*x.second};
    auto good = [&](const str &d, const char *when) -> str { Map x; obs++; if (!parse_db(d, x)) return str("if the machine stops ") + when + " the database file is damaged"; for (auto &o : okdb) if (o == x) return ""; 
      str e = str("if the machine stops ") + when + " the database is not the state after a complete command"; return e; };
    auto sync = [&](const Files &now) { // account for the effect of the last write
      if (pend.empty()) return; str o = cur.count(pend) ? *cur[pend] : str(), n = now.count(pend) ? *now.at(pend) : str(); Set &s = D[pend];
      size_t same = 0; while (same < o.size() && same < n.size() && o[same] == n[same]) same++;
      for (size_t j = same; j <= std::max(n.size(), o.size()); j++) s.insert(n.substr(0, std::min(j, n.size())) + (j < o.size() ? o.substr(j) : str()));
      s.insert(n); pend.clear(); };
    for (size_t i = 0; i <= ev.size(); i++) {
      const Files &now = i < ev.size() ? ev[i].files : vos::S.files;
      sync(now); cur = now;
      if (i < ev.size()) {
        const Ev &e = ev[i];
        if (e.op == "open") { D[e.path].insert(""); if (e.arg == "create") gone[e.path] = true; }
        else if (e.op == "write" || e.op == "trunc") pend = e.path;
        else if (e.op == "fsync") D[e.path] = {now.count(e.path) ? *now.at(e.path) : str()};
        else if (e.op == "rename") { for (auto &x : D[e.path]) D[e.arg].insert(x); }
        else if (e.op == "unlink") gone[e.path] = true;
      }
      if (i == ev.size() || ev[i].op == "rename" || ev[i].path == DB || i + 1 == ev.size())
        for (auto &x : D[DB]) { str w = i < ev.size() ? "before '" + ev[i].op + " " + ev[i].path + "'" : str("afterwards"); str e = good(x, w.c_str()); if (!e.empty()) return e; }
      if (f0.count(DB) && (gone[DB] || !now.count(DB))) return "the database file is absent for a moment";
    }
    // the real server is started again on what a killed process leaves behind
    std::set<uint64_t> seen; Slot here; save(here); World w = m; str err;
    for (auto &e : ev) {
      uint64_t h = 1; for (auto &x : e.files) { if (logf(x.first)) continue; if (x.first == DB || deep) h = vos::hash_bytes(x.second->data(), x.second->size(), vos::mix(h, x.first.size())); else h = vos::mix(h, x.first.size() * 4 + (x.second->size() > 8 ? 2 : x.second->size() ? 1 : 0)); }
      if (!seen.insert(h).second) continue;
      Map x; auto it = e.files.find(DB); if (it == e.files.end()) continue; parse_db(*it->second, x);
      err = boot_from(e.files, x, vos::S.now_us); restore(here); m = w;
      if (!err.empty()) { err = "process killed before '" + e.op + " " + e.path + "': " + err; break; }
    }
    restore(here); m = w;
    return err;
  }
  str step(int i) override {
    str l = lines[i], op, rest; int n;
    if (l == "!crash") return boot_from(vos::S.files, m.disk, vos::S.now_us);
    if (l == "!term") {
      faults(); vos::pending_signal = 15; vos::resume(); vos::fault_hook = nullptr;
      if (!vos::S.exited) return "SIGTERM does not end the server";
      str e = after(); if (!e.empty()) return "after SIGTERM " + e;
      return boot_from(vos::S.files, m.disk, vos::S.now_us);
    }
    if (l[0] == '*') { for (int k = 0; k < NFM; k++) if (l.substr(1) == FM[k]) m.fault = k; faults(); str e = settle("nothing"); return e.empty() ? after() : e; }
    if (kill_line(l, op, n, rest)) return killed(op, n, parse(rest));
    Act a = parse(l); std::vector<Map> ok = {m.m.db}; std::vector<Ev> ev; Files f0 = vos::S.files;
    faults(); m.m.marks = &ok;
    vos::fs_hook = [&](const char *o, const str &p, const str &arg) { if (!logf(p) && strcmp(o, "close")) ev.push_back({o, p, strcmp(o, "write") ? arg : str(), vos::S.files}); return false; };
    str e = apply(a);
    vos::fs_hook = nullptr; vos::fault_hook = nullptr; vos::file_chunk = -1; m.m.marks = nullptr; ok.push_back(m.m.db); ok.push_back(m.disk);
    if (!e.empty()) return e;
    if (m.m.exited) { if (!(e = after()).empty()) return e; return boot_from(vos::S.files, m.disk, vos::S.now_us); }
    if (!(e = after()).empty()) return e;
    if (!ev.empty()) e = crash_points(f0, ev, ok);
    return e;
  }
  str after() {
    if (!fired) { str e = check_db(); if (!e.empty()) return e; m.disk = m.m.db; return ""; }
    Map x; auto it = vos::S.files.find(DB); if (it == vos::S.files.end() || !parse_db(*it->second, x)) return "the old database file is lost or damaged after a failed write";
    if (m.fault > 6 && x == m.m.db) { m.disk = x; return ""; }   // a single failed write may be repeated
    if (x != m.disk) return "the database file changed although writing it failed";
    return "";
  }
  str killed(const str &op, int n, const Act &a) {
    if (a.kind != '>' && a.kind != '-') return "bad line";
    Map before = m.m.db; int cnt = 0; bool hit = false; vos::file_chunk = -1;
    int s = vos::S.clients[m.cl[a.role]].fd;
    std::vector<Map> ok = {before}; m.m.marks = &ok;
    if (a.kind == '>') { send(a.role, a.payload); m.m.packet(s, a.payload); m.m.settle(); } else { vos::S.clients[m.cl[a.role]].fin = true; m.m.lost(s); m.m.settle(); }
    m.m.marks = nullptr; ok.push_back(m.m.db);
    if (op == "sig") vos::signal_at_write = n;
    else vos::fs_hook = [&](const char *o, const str &p, const str &) { if (!logf(p) && op == o && ++cnt == n) { hit = true; return true; } return false; };
    for (int k = 0; k < 3 && !vos::S.exited; k++) { if (k) vos::want_timeout = true; if (vos::resume() != vos::YIELD) break; }
    vos::fs_hook = nullptr; if (op == "sig") { hit = vos::signal_at_write == 0; vos::signal_at_write = 0; if (hit && !vos::S.exited) return "SIGTERM does not end the server"; }
    if (!hit && !vos::crash_info.empty()) return vos::crash_info;
    Map x; auto it = vos::S.files.find(DB); if (it == vos::S.files.end() || !parse_db(*it->second, x)) return "killed in the middle: the database file is lost or damaged";
    bool done = false; if (op == "sig" && hit && a.kind == '>') done = icb::take(m.cl[a.role]) == m.m.out[s];
    if (done && x != m.m.db) return "the server was ended cleanly after it had answered a command, but the command's change is lost";
    bool fine = false; for (auto &o : ok) if (o == x) fine = true;
    if (!fine) return "killed in the middle: the database is not the state after a complete command";
    return boot_from(vos::S.files, x, vos::S.now_us);
  }
};
static Scenario cs(const str &n, int d, Conf c, bool deep, int bits = 23) { return Scenario{n, [=]() { return std::unique_ptr<Sys>(new CrashSys(c, deep)); }, d, bits, 600}; }
static Registrar c18("C18", [](bool T) -> std::vector<Scenario> {
  std::vector<Scenario> r; std::vector<str> kills;
  std::vector<str> cmds = {"alice /p pw", "alice /p bad", "alice /cp pw new", "alice /secure", "alice /rname Real", "alice /email a@b", "alice /delete pw", "alice /name zed", "bob /p bp", "bob /m server write alice hi", "alice /m server read", "-alice", "#bob", "+alice x", "+bob x", "+alice x pw", "+carol x - alice", "-carol", "~60", "alice : chat"};
  for (auto &k : {"open1", "write1", "write5", "fsync1", "rename1"}) for (auto &l : {"alice /p pw", "bob /m server write alice hi", "-alice"}) kills.push_back(str("!") + k + " " + l);
  { Conf a; a.pre = {"+alice x", "+bob x"}; a.acts = cmds; for (auto &k : kills) a.acts.push_back(k); for (auto &x : {"!crash", "!term", "!sig1 alice /rname Real", "!sig1 alice /p pw", "!sig2 bob /m server write alice hi", "!sig1 bob /m server write alice hi", "!sig1 alice /m server read", "!sig2 alice /m server read", "!sig1 alice /delete pw", "!sig1 -alice", "!sig1 alice /name zed"}) a.acts.push_back(x);
    r.push_back(cs("crashes, restarts and all crash points of every command", T ? 6 : 5, a, T, T ? 25 : 23)); }
  { Conf a; a.pre = {"+alice x", "+bob x", "alice /p pw", "bob /p bp"}; a.acts = {"alice /cp pw new", "alice /rname Real", "alice /delete pw", "bob /m server write alice hi", "bob /m server write alice again", "alice /m server read", "alice /whois alice", "bob /whois alice", "-alice", "+alice x", "+alice x pw", "+bob x", "!crash", "!term", "*ok", "*create", "*fwrite", "*fwrite3", "*fsync", "*rename", "*short", "~60"};
    Conf b = a; b.acts = {"alice /cp pw new", "alice /rname Real", "alice /delete pw", "bob /m server write alice hi", "alice /m server read", "bob /whois alice", "-alice", "+alice x pw", "!crash", "!term", "*ok"}; for (int i = 1; i <= 7; i++) b.acts.push_back("*w" + std::to_string(i));
    r.push_back(cs("a single failing write, the later ones succeed", T ? 7 : 5, b, false, T ? 26 : 24));
    r.push_back(cs("failing and short writes", T ? 6 : 5, a, false, T ? 26 : 24)); }
  { Conf a; a.pre = {"+alice x", "+bob x", "bob /p bp", "+carol x adm_pw Admin"}; a.acts = {"alice /p pw", "alice /rname Real", "bob /m server write alice hi", "alice /m server read", "-alice", "+alice x", "+bob x", "+carol x adm_pw Admin", "carol /shutdown 0", "carol /shutdown 1", "carol /restart", "carol /drop bob", "carol /drop alice", "alice /rname R2 & carol /restart", "alice /p pw & carol /shutdown 0", "carol /restart & alice /rname R3", "-alice & carol /restart", "~61", "!term", "!crash"};
    r.push_back(cs("shutdown, restart and disconnections by the administrator", T ? 7 : 6, a, T, 24)); }
  { Conf a; a.pre = {"+alice x", "+bob x", "alice /p pw", "bob /p bp"}; for (int i = 0; i < 18; i++) a.pre.push_back("bob /m server write alice message " + std::to_string(i)); for (auto &f : {"rname Alice Real", "addr 1 Street|Town", "phone 555", "email a@b.c", "text some text", "www http://x"}) a.pre.push_back(str("alice /") + f);
    a.acts = {"bob /m server write alice hi", "alice /m server read", "alice /delete pw", "alice /p pw", "alice /cp pw new", "bob /rname B", "-alice", "+alice x", "!crash", "!write9 alice /m server read", "!rename1 alice /m server read", "!fsync1 alice /delete pw", "!open1 bob /m server write alice hi"};
    r.push_back(cs("a large record", T ? 5 : 4, a, T)); }
  return r;
});

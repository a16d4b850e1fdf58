// C26: memory safety, absence of undefined behaviour, termination and continued service under hostile input.
// Meant for the instrumented (address and undefined-behaviour sanitizer) build; there is no reference model here: the
// oracle is the sanitizer, the watchdog, the well-formedness of what is received, and a witness whose requests must
// keep being answered.
#include "msys.hh"
using namespace ms;
typedef std::vector<str> V; typedef std::vector<Scenario> Sc;
static V operator+(V a, const V &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static str rep(const str &s, int n) { str o; while (n-- > 0) o += s; return o; }
std::vector<Scenario> scenarios_of(const std::string &id, bool T);
struct SafeSys : ModelSys {
  std::vector<vos::Host> hosts; bool admin_present = false;
  bool res = false; long lost0 = 0; int fds0 = 0;   // C29: account for memory and files
  static int open_files() { int n = 0; for (auto &f : vos::S.fds) if (f.used && f.path.find(".log") == str::npos) n++; return n; }
  str kept() {
    if (!res || vos::S.exited) return ""; long l = vos::lost_blocks(); int f = open_files(); obs += 2;
    if (l > lost0) return std::to_string(l - lost0) + " blocks of memory are allocated although nothing refers to them any more";
    if (f > fds0) { str e = std::to_string(f - fds0) + " files are left open:"; for (auto &x : vos::S.fds) if (x.used) e += " " + x.path; return e; }
    return "";
  }
  explicit SafeSys(Conf k) : ModelSys(std::move(k)) {}
  int wit = -1;                            // the witness
  str setup() override {
    if (!hosts.empty()) vos::hosts = hosts;
    for (auto &f : c.files) { if (f.second == "\0none") continue; vos::put_file(f.first, f.second); }
    vos::max_sock_fd = c.mu - 1;
    str e = icb::boot(c.tls); if (!e.empty()) return e;
    lost0 = vos::lost_blocks(); fds0 = open_files();
    for (int &x : m.cl) x = -1;
    wit = icb::connect(0); if (!(e = go("the witness"), e).empty()) return e;
    icb::send(wit, "awi\001witness\001wg\001login\001"); if (!(e = go("the witness")).empty()) return e; vos::S.clients[wit].out.clear();
    for (auto &l : c.acts) acts.push_back(parse2(l));
    for (auto &l : c.pre) { Act a = parse2(l); if (!can(a)) return "setup line not possible: " + l; e = apply2(a); if (!e.empty()) return l + ": " + e; }
    return "";
  }
  Act parse2(const str &l) const {         // "alice $ 01ff..": raw bytes
    size_t d = l.find(" $ "); if (d == str::npos || l.find(' ') != d || l.find(" ;; ") != str::npos || l.find(" & ") != str::npos) return parse(l);
    Act a; a.line = l; a.kind = '$'; a.role = role(l.substr(0, d)); for (size_t i = d + 3; i + 1 < l.size(); i += 2) a.payload += (char)strtol(l.substr(i, 2).c_str(), nullptr, 16); return a;
  }
  uint64_t mhash() override { uint64_t h = 3; for (int x : m.cl) h = vos::mix(h, x + 2); return vos::mix(h, admin_present); }
  bool terminal() override { return vos::S.exited; }
  std::shared_ptr<void> msave() override { return std::make_shared<std::pair<World, bool>>(m, admin_present); }
  void mrestore(const std::shared_ptr<void> &p) override { auto &x = *static_cast<std::pair<World, bool> *>(p.get()); m = x.first; admin_present = x.second; }
  str go(const char *what) {
    for (int i = 0; i < 3; i++) {
      if (i) vos::want_timeout = true;
      vos::Stop s = vos::resume();
      if (s == vos::YIELD) continue;
      if (s == vos::FINISHED) { if (vos::S.exited && admin_present) return ""; return str("the server process ended after ") + what; }
      return (vos::crash_info.empty() ? str("the server loops without progress") : vos::crash_info) + " (" + what + ")";
    }
    return "";
  }
  void put(const Act &a) {
    if (a.kind == '-') vos::S.clients[m.cl[a.role]].fin = true; else if (a.kind == '#') vos::S.clients[m.cl[a.role]].rst = true;
    else if (a.kind == '$') vos::S.clients[m.cl[a.role]].in += a.payload; else if (a.kind == '>') send(a.role, a.payload);
  }
  str apply2(const Act &a) {
    if (a.kind == ';') { str e = apply2(a.both[0]); if (!e.empty() || vos::S.exited || !can(a.both[1])) return e; return apply2(a.both[1]); }
    if (a.payload.find("adm_pw") != str::npos) admin_present = true;
    str e;
    switch (a.kind) {
      case '=': if (a.remove) vos::del_file(a.file); else vos::put_file(a.file, a.payload); break;
      case '&': put(a.both[0]); put(a.both[1]); e = go("two events"); break;
      case '~': vos::S.now_us += a.us; vos::want_timeout = true; e = go("time passing"); break;
      case '+': case '^': { const Role &R = c.roles[a.role]; int k = icb::connect(R.host, R.tls, R.tls ? 1 : 0); m.cl[a.role] = k; if (R.tls) vos::S.clients[k].in += "H"; e = go("a connection"); if (e.empty() && a.kind == '+') { send(a.role, a.payload); e = go("a login"); } break; }
      default: put(a); e = go("input");
    }
    if (!e.empty() || vos::S.exited) return e;
    for (size_t r = 0; r < c.roles.size(); r++) if (m.cl[r] >= 0) { str err; obs += icb::take(m.cl[r], &err).size() + 1; if (!err.empty()) return c.roles[r].name + ": " + err; if (vos::S.clients[m.cl[r]].srv_closed) m.cl[r] = -1; }
    // the witness is still served
    vos::S.clients[wit].out.clear(); icb::send(wit, "hv\001"); e = go("the witness' probe"); if (!e.empty()) return e;
    str err; auto p = icb::take(wit, &err); if (!err.empty()) return "the witness: " + err;
    bool ok = false; for (auto &x : p) if (x[0] == 'i' || x[0] == 'e') ok = true;
    if (!ok) return vos::S.clients[wit].srv_closed ? "the witness is disconnected" : "the witness is not served any more";
    return kept();
  }
  str step(int a) override { return apply2(acts[a]); }
};
static Scenario ss(const str &n, int depth, Conf c, int bits = 22, std::vector<vos::Host> h = {}) { return Scenario{n, [=]() { auto *s = new SafeSys(c); s->hosts = h; return std::unique_ptr<Sys>(s); }, depth, bits, 600}; }
static str hex(const str &s) { str o; char b[4]; for (unsigned char x : s) { snprintf(b, 4, "%02x", x); o += b; } return o; }
static const V CMDS = {"drop", "shutdown", "wall", "log", "restart", "beep", "cancel", "g", "invite", "pass", "boot", "status", "topic", "motd", "m", "echoback", "nobeep", "name", "v", "w", "whereis", "news", "hush", "shush", "s_help", "exclude", "shuttime", "notify", "talk", "ping", "away", "noaway", "stats", "read", "whois", "p", "rname", "write", "text", "addr", "phone", "delete", "info", "help", "?", "cp", "email", "secure", "nosecure", "www"};
static V hostile(const str &cmd) {
  str P = "alice ! h" + cmd; V o; size_t room = 252 - cmd.size() - 1;
  V args = {"", " ", "bob", "bob ", " bob", "bob hi", "%s%s%s%n", rep("A", 12), rep("A", 13), rep("A", 31), rep("A", 32), rep("A", 33), rep("A", 62), rep("A", 63), rep("A", 64), rep("A", 65), rep("A", 79), rep("A", 80), rep("A", 81), rep("A", 128), rep("A", 200), rep("A", room), rep("%s", room / 2), rep("%n", 30), rep(" ", room), rep("a ", room / 2), rep("\xff", room), rep("\xf0\x9f\x98\x80", room / 4), rep("?", room), rep("*", 40) + "a", rep("[", 60), rep("[a-", 20), rep("\\", 41), "-", "--", "-q", "-s", "-n", "-p", "-r", "-a", "-d", "-g", "-o", "-x", "-qsnrpod", "-q -q -q -q -q", "-s -s", rep("-", room), rep("-q ", 60), "-s " + rep("A", 100), "-n " + rep("A", 100), "-r " + rep("A", 64), "-q " + rep("B", 190), "bob " + rep("A", room - 4), rep("A", 100) + " " + rep("B", room - 101), "alice", "server", "SERVER", "carol", "@", "@bob", "@" + rep("A", 100), ".", "..", "...", ".x", "..x", "@@", "1", "0", "-1", "99999999999999999999", "-99999999999999999999", "2147483647", "-2147483648", "name", "name ", "name " + rep("A", 200), "name y", "b", "b -1", "b 99999999999", "im", "im 241", "#", "# -5", "# 99999999999", "idlebootmsg", "idlebootmsg " + rep("A", 53), "idlebootmsg " + rep("A", 54), "idlebootmsg " + rep("A", 55), "idlebootmsg %s%s%s", "idlebootmsg %s" + rep("%", 50), "q q q q q q q q q q", "?", "../../etc/passwd", rep("/", 80), "bp", "ap new", "a|b|c|d|e", "~", "ICB", "\x7f", "\x01\x02", "a\nb\nc", rep("\n", 100), rep("|", 100)};
  for (auto &a : args) { if (a.find(" & ") != str::npos) continue; str q = a; for (auto &ch : q) if (ch == '|') ch = '}'; o.push_back(P + "|" + q); }
  o.push_back(P); for (int n : {2, 3, 5, 18, 19, 20, 21, 60}) o.push_back(P + rep("|x", n)); o.push_back(P + rep("|", 200 - cmd.size())); o.push_back(P + "|bob|" + rep("A", 200)); o.push_back(P + "|" + rep("A", 200) + "|bob");
  return o;
}
static const V CTX = {"+alice x", "+bob x"};
static Registrar c26("C26", [](bool T) -> Sc {
  Sc r;
  { // every command with hostile arguments, in several roles
    Conf a; a.pre = {"+alice x", "+bob x", "+carol y", "bob /p bp", "alice /topic t"}; for (auto &c : CMDS) a.acts = a.acts + hostile(c);
    r.push_back(ss("every command, hostile arguments, by a moderator", 1, a));
    Conf b = a; b.pre = b.pre + V{"alice /p ap", "alice /status c", "alice /talk bob", "alice /hush bob", "alice /notify bob", "alice /invite carol", "alice /invite -s *@h2*", "alice /write bob hi", "bob /write alice hi", "alice /away x %s", "alice /echoback verbose", "alice /text " + rep("word ", 40), "alice /addr 1", "alice /rname " + rep("r", 25)};
    r.push_back(ss("every command, hostile arguments, by a registered user with lists", 1, b));
    Conf c = a; c.pre = {"+bob x", "+alice x adm_pw ADMIN", "+carol x", "bob /status r"};
    r.push_back(ss("every command, hostile arguments, by the administrator", 1, c));
    Conf d = a; d.pre = {"+bob x", "bob /status c", "+carol y", "^alice"};
    r.push_back(ss("every command, hostile arguments, before login", 1, d));
    Conf e = a; e.pre = {"+alice x", "+bob x", "bob /p bp", "+carol y", "alice /status name " + rep("z", 8)}; e.acts.clear();
    for (auto &c : {"read", "whois", "p", "rname", "write", "text", "addr", "phone", "delete", "info", "help", "?", "cp", "email", "secure", "nosecure", "www", ""}) for (auto &l : hostile("m")) { size_t bar = l.find('|'); if (bar == str::npos) continue; str q = l.substr(0, bar + 1) + "server " + c + " " + l.substr(bar + 1); if (q.size() - 8 <= 253) e.acts.push_back(q); }
    r.push_back(ss("every command to the Server user, hostile arguments", 1, e)); }
  { // pairs: what one command stores, another shows
    Conf a; a.pre = {"+alice x", "+bob x", "alice /p ap", "bob /p bp", "+carol y"};
    str L = rep("A", 230), U = rep("\xe2\x82\xac", 76);
    for (auto &t : {L, U, rep("%s", 110), rep("w ", 110), rep("\n", 200)}) for (const char *c : {"topic ", "away ", "away %s", "rname ", "addr ", "phone ", "email ", "www ", "text ", "name ", "status name ", "status idlebootmsg %s", "write bob ", "hush ", "hush -s ", "notify ", "notify -s ", "invite ", "invite -s ", "talk ", "g ", "cp ap ", "echoback ", "exclude "}) { str x = "alice /" + str(c) + t; x.resize(std::min<size_t>(x.size(), 245)); a.acts.push_back(x); }
    for (const char *c : {"-48", "-49", "-50", "-51", "-52", "-53", "-54"}) { (void)c; }
    for (int n : {25, 40, 50, 51, 52, 53, 54, 60, 62, 63, 64, 79, 80, 128, 199, 200}) { a.acts.push_back("alice /status idlebootmsg %s" + rep("m", n - 2)); a.acts.push_back("alice /text " + rep("t", n)); a.acts.push_back("alice /addr " + rep("a", n)); a.acts.push_back("alice /away %s" + rep("a", n)); a.acts.push_back("alice /topic " + rep("t", n)); }
    a.acts = a.acts + V{"bob /w", "bob /w -s", "bob /w x", "bob /topic", "bob /whois alice", "bob /read", "bob /m alice hi", "bob /beep alice", "alice /hush", "alice /notify", "alice /invite", "alice /talk", "alice /status", "alice /status c", "alice /status r", "~7300", "~61", "-alice", "-bob", "+alice x", "+bob x", "+carol y", "bob : hi", "bob /exclude alice hi", "alice /read", "alice /pass bob", "bob /g x", "alice /g y", "alice /name abcdefghijkl", "bob /boot alice", "alice /status q", "alice /stats", "bob /whereis alice", "alice /delete ap", "alice /status p"};
    r.push_back(ss("what one command stores, others show", T ? 3 : 2, a, 25)); }
  { // every packet type with hostile fields, before and after login
    V f = {"", "|", "||", rep("|", 19), rep("|", 20), rep("|", 252), rep("A", 252), rep("A", 120) + "|" + rep("B", 120), "a|b|c|d|e|f|g", rep("a|", 60), "|bob|x|login|", "al|" + rep("A", 240), "al|zed|" + rep("G", 230), "al|zed|y|" + rep("L", 230), "al|zed|y|login|" + rep("P", 200), rep("i", 12) + "|" + rep("n", 12) + "|" + rep("g", 60) + "|login|" + rep("p", 60), rep("i", 13) + "|zed|x|login|", "al|" + rep("n", 63) + "|x|login|", "al|" + rep("n", 64) + "|x|login|", "al|zed|" + rep("g", 63) + "|login|", "al|zed|@|login|", "al|zed|@" + rep("b", 100) + "|login|", "al|zed|.|w|", "al|zed||wg|", "al|zed|x|" + rep("w", 64) + "|", "%s|%n|%s|%n|%s", "\xff|\xff|\xff|login|\xff", "al|zed|x|login||" + rep("|", 30), "al|zed|x|login|pw|sts", "server|server|server|login|server", "al|admin|x|login|adm_p", "al|?|?|login|?", "al|" + rep("?", 12) + "|x|login|", "bob", "bob hi", "m|bob hi"};
    Conf a; a.pre = {"+bob x", "^alice", "+carol y"};
    for (int t = 0; t < 256; t++) for (auto &x : f) { if (t == '|' || (t >= 128 && x.size() > 20) || (t >= 'p' && t < 128 && x.size() > 100)) continue; str p(1, (char)t); str q = bars(x); str raw = icb::pkt(p + q); a.acts.push_back("alice $ " + hex(raw)); }
    Conf b = a; b.pre[1] = "+alice x"; a.acts = a.acts + V{"alice $ 00", "alice $ ff", "-alice"};
    r.push_back(ss("every packet type, hostile fields, before login", 1, a)); r.push_back(ss("every packet type, hostile fields, after login", 1, b));
    // two such packets
    Conf d = a; d.acts.clear(); for (str t : {"a", "b", "c", "h", "l", "m", "n", "z", "j"}) for (auto &x : f) d.acts.push_back("alice $ " + hex(icb::pkt(t + bars(x)))); d.acts = d.acts + V{"^alice", "+alice x", "-alice", "bob /w", "bob /m alice hi"};
    r.push_back(ss("pairs of packets with hostile fields", 2, d, 23)); }
  { // byte level: arbitrary byte sequences, arbitrary pieces
    Conf a; a.pre = {"+bob x", "^alice", "+carol x"};
    for (str b : {"00", "01", "02", "03", "05", "61", "62", "68", "6c", "6d", "77", "7f", "80", "fe", "ff"}) a.acts.push_back("alice $ " + b);
    a.acts = a.acts + V{"alice $ 056261006200", "alice $ 0a61610161017801776700", "bob : hi", "-alice", "#alice", "^alice", "~1", "alice $ " + hex(rep("\xff", 600)), "alice $ " + hex(rep(str("\0", 1), 300)), "alice $ " + hex(rep("\x02" "b\xff", 200)), "alice $ fe" + rep("61", 253) + "00", "alice $ ff" + rep("61", 254) + "00"};
    r.push_back(ss("byte sequences", T ? 5 : 4, a, T ? 26 : 24)); }
  { // hostile host names and ids from the resolver
    std::vector<vos::Host> h; static std::vector<str> keep; if (keep.empty()) keep = {"w.test", rep("h", 63) + "." + rep("i", 63) + "." + rep("j", 63), "%s%n%s", rep("\xff", 40)};
    const char *ips[] = {"10.0.0.1", "10.0.0.2", "10.0.0.3", "10.0.0.4"}; for (int i = 0; i < 4; i++) h.push_back({keep[i].c_str(), ips[i]});
    Conf a; a.roles = {{"alice", "al", 1}, {"bob", "bo", 2}, {"carol", "ca", 3}, {"dave", "da", 1}}; a.files = {{"icbd.deny", "*@nowhere no\n"}, {"icbd.perms", "mask 1.2.3.4 255.255.255.255 perm_deny\nuser q " + rep("z", 100) + " perm_deny\n"}};
    a.acts = {"+alice x", "+bob x", "+carol x", "+dave x - dave login abcdefghijkl", "-alice", "#bob", "alice /w", "bob /w -s", "alice /p ap", "alice /whois alice", "bob /p bp", "bob /whois alice", "bob /notify -s *@*", "bob /hush -s *@%s*", "alice /m bob hi", "alice /invite -s " + rep("h", 200), "alice /status r", "bob /g x", "bob /g y", "alice /w @bob", "carol /stats", "~61", "carol /whereis alice", "alice /boot bob", "+dave x", "=icbd.deny *@h* no\\n", "=icbd.deny " + rep("x", 300) + "\\n" + rep("y", 2000), "=icbd.perms " + rep("user ", 400), "=icbd.perms user al " + rep("h", 255) + " " + rep("|", 300) + "\\n", "=icbd.deny %s%n\\n", "=icbd.perms mask " + rep("1.", 200) + " 1 x\\n", "=icbd.deny  \\n\\n \\n"};
    r.push_back(ss("hostile host names and rules files", T ? 5 : 4, a, T ? 26 : 24, h)); }
  { // hostile files
    Conf a; a.pre = {"+alice x", "+bob x"};
    for (str f : {"motd", "news.1", "icbd_help"}) for (str t : {str(""), str("\\n"), rep("x", 253) + "\\n", rep("x", 254) + "\\n", rep("x", 255) + "\\n", rep("x", 256) + "\\n", rep("x", 1023) + "\\n", rep("x", 5000), rep("%s%n", 100) + "\\n", rep("%", 300) + "\\n", str("%"), str("a\\n%"), rep("\xff", 300) + "\\n", rep("%U", 200) + "\\n", rep("a\\n", 300)}) a.acts.push_back("=" + f + " " + t);
    a.acts = a.acts + V{"=motd", "=news.1", "=icbd_help", "alice /motd", "alice /news", "alice /news 1", "alice /news 2", "alice /help", "alice /s_help", "alice /info", "+carol x", "-carol", "alice /v", "alice /stats", "^dave", "-dave", "alice ! hmotd", "alice ! hnews"};
    r.push_back(ss("hostile files", 3, a, 24)); }
  { // full tables
    Conf a; a.roles.clear(); for (int i = 0; i < 8; i++) a.roles.push_back({"u" + std::to_string(i), "id", i % 4});
    a.pre = {"+u0 g0", "+u1 g1", "+u2 g2", "+u3 g3", "+u4 g4", "+u5 g5", "+u6 g6"};
    a.acts = {"+u7 g7", "-u7", "u0 /g a", "u1 /g b", "u2 /g a", "u0 /g " + rep("q", 100), "u3 /status name zz", "u0 /w", "u1 /w -s", "u2 /g @u3", "u4 /status i", "u5 /status r", "u6 /g g5", "-u0", "+u0 c", "-u1", "+u1 a", "u0 /status", "u2 /boot u0", "u3 /pass u4", "~3601", "~61", "u5 /status b 1", "u0 /stats"};
    r.push_back(ss("many groups", T ? 5 : 4, a, T ? 26 : 24)); }
  { // simultaneous ends and commands
    Conf a; a.pre = {"+alice x", "+bob x", "+carol x", "bob /p bp", "alice /status c", "alice /talk bob"};
    V one = {"alice /boot bob", "alice /drop bob bp", "alice /m bob hi", "alice : hi", "alice /pass bob", "alice /g y", "alice /talk -d bob", "alice /talk -ad bob", "alice /status p", "alice /ping bob", "alice /beep bob", "alice /name zed", "-alice", "#alice"}, two = {"bob : hi", "bob /g y", "bob /m alice hi", "bob /name rob", "bob ! m", "bob /p bp", "bob /delete bp", "-bob", "#bob", "bob /exclude alice x"};
    for (auto &x : one) for (auto &y : two) { a.acts.push_back(x + " & " + y); }
    for (auto &x : one) for (auto &y : one) if (x != y && x[0] == 'a' && y[0] == 'a') a.acts.push_back(x + " & " + y);
    a.acts = a.acts + one + two + V{"+alice x", "+bob x", "~1", "~301", "carol /w"};
    r.push_back(ss("simultaneous events", T ? 3 : 2, a, T ? 25 : 23)); }
  { // users whose input is read slowly
    Conf a; a.pre = {"=icbd.perms user bo h1.test perm_slowmsgs\\n", "+alice x", "+bob x"};
    a.acts = {"bob : hi", "bob : a ;; bob : b ;; bob : c", "bob /w", "-bob", "#bob", "bob : x & -bob", "+bob x", "alice : hi", "~0.4", "~1", "bob $ 05", "bob $ 026100", "alice /m bob x", "=icbd.perms"};
    r.push_back(ss("input that is read slowly", T ? 6 : 5, a, T ? 25 : 22)); }
  // the alphabets of all other checks, explored under the sanitizers
  int k = 0;
  for (const char *id : {"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C21", "C22", "C23", "C25", "C27", "C28"}) for (auto &s : scenarios_of(id, T)) {
    std::unique_ptr<Sys> y = s.make(); ModelSys *p = dynamic_cast<ModelSys *>(y.get()); if (!p || p->c.acts.size() > (T ? 400 : 150) || (!T && p->c.probes.size())) continue;
    r.push_back(ss(str(id) + " alphabet: " + s.name, T ? (p->c.acts.size() < 60 ? 4 : 3) : (p->c.acts.size() < 75 ? 3 : 2), p->c, T ? 25 : 23)); k++;
  }
  return r;
});

// the same with many connections (see t_wide.cc)
static Registrar c26b("manysafe", [](bool T) -> Sc {
  Sc r;
  for (auto &s : scenarios_of("many", T)) { std::unique_ptr<Sys> y = s.make(); Conf k = dynamic_cast<ModelSys *>(y.get())->c; k.probes.clear(); r.push_back(ss(s.name, T ? 4 : 3, k, T ? 25 : 22)); }
  return r;
});

// ------------------------------------------------------------------ C29: nothing is used up
static Registrar c29("C29", [](bool T) -> Sc {
  Sc r;
  auto add = [&](const str &n, int d, const Conf &c, int bits) { r.push_back(Scenario{n, [=]() { auto *s = new SafeSys(c); s->res = true; return std::unique_ptr<Sys>(s); }, d, bits, 600}); };
  for (const char *id : {"C26", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C21", "C22", "C23", "C24", "C25", "C27", "C28"}) for (auto &s : scenarios_of(id, T)) {
    if (s.name.find("alphabet:") != str::npos) continue;
    std::unique_ptr<Sys> y = s.make(); ModelSys *p = dynamic_cast<ModelSys *>(y.get()); if (!p) continue;
    size_t n = p->c.acts.size(); if (!n) continue; int d = n < 24 ? 5 : n < 45 ? 4 : n < 170 ? 3 : n < 700 ? 2 : 1; if (T && n < 700) d++;
    Conf k = p->c; k.probes.clear(); add(str(id) + " alphabet: " + s.name, d, k, T ? 26 : 24);
  }
  return r;
});

// C30: a restart keeps everybody signed on.  The lock-step exploration of msys.hh; execve() of the running server really boots a
// new process image that finds the sockets (unless close-on-exec), the files and nothing else of the old one.
//   "!full NAME LINE"   nothing can be written to NAME while LINE (a restart) is handled
//   "!half NAME LINE"   the server has read a part of a packet of NAME when LINE is handled
//   "!conn NAME LINE"   NAME connects at the moment of LINE
//   "!OP LINE"          OP = fork, execve, create (the state file), fwrite (to it) fails while LINE is handled
#include "msys.hh"
#include <errno.h>
using namespace ms;
typedef std::vector<Scenario> Sc; typedef std::vector<str> V;
static V operator+(V a, const V &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
std::vector<Scenario> scenarios_of(const std::string &id, bool T);

struct RestartSys : ModelSys {
  std::shared_ptr<vos::Snap> pristine = std::make_shared<vos::Snap>(); std::vector<str> lines, pr;
  explicit RestartSys(Conf k) : ModelSys(std::move(k)) { lines = c.acts; pr = c.probes; c.acts.clear(); c.probes.clear(); }
  str setup() override {
    vos::save(*pristine);
    m.m.can_restart = true; str e = ModelSys::setup(); return e;
  }
  int nactions() override { return lines.size(); }
  int nprobes() override { return pr.size(); }
  const str &at(int a) const { return a < (int)lines.size() ? lines[a] : pr[a - lines.size()]; }
  str name(int a) override { return at(a); }
  bool enabled(int a) override { const str &l = at(a); str op, who, rest; if (!special(l, op, who, rest)) return a >= nactions() || can(parse(l)); return can(parse(rest)) && (who.empty() || live(role(who)) == (op != "conn")); }
  static bool special(const str &l, str &op, str &who, str &rest) {
    if (l[0] != '!') return false; size_t sp = l.find(' '); op = l.substr(1, sp - 1); rest = l.substr(sp + 1);
    if (op == "full" || op == "half" || op == "conn") { sp = rest.find(' '); who = rest.substr(0, sp); rest = rest.substr(sp + 1); }
    return true;
  }
  bool replaced() override { return vos::S.execd; }
  str reexec() override {
    vos::State k = vos::S; std::vector<str> argv = k.exec_argv;
    for (auto &f : k.fds) if (f.used) return "the file " + f.path + " is left open across the restart";
    k.exited = k.execd = false; k.exec_argv.clear(); k.fds.clear(); k.nssl = 0; for (auto &r : k.roots) r = nullptr;
    for (auto &h : k.sighandler) if (h != (void *)1) h = nullptr;
    for (auto &s : k.socks) if (s.cloexec) { if (s.kind == 2) { k.clients[s.client].srv_closed = true; k.clients[s.client].fd = -1; } s = vos::Sock(); }
    auto fh = vos::fault_hook; vos::fault_hook = nullptr;
    vos::restore(*pristine); vos::S = k;
    str e = icb::boot_argv(argv); vos::fault_hook = fh;
    if (!e.empty()) return "restart: " + e;
    if (replaced()) return reexec();
    if (vos::S.exited) return "the new server ends at once";
    return "";
  }
  str step(int i) override {
    str l = at(i), op, who, rest;
    if (!special(l, op, who, rest)) return apply(parse(l));
    if (!who.empty()) {
      int r = role(who); 
      if (op == "conn") {
        const Role &R = c.roles[r]; int k = icb::connect(R.host, R.tls, R.tls ? 1 : 0); m.cl[r] = k; if (R.tls) vos::S.clients[k].in += "H";
        Act a = parse(rest); for (size_t q = 0; q < c.roles.size(); q++) sl[q] = m.cl[q] >= 0 ? vos::S.clients[m.cl[q]].fd : -1;
        send(a.role, a.payload); m.m.packet(sl[a.role], a.payload); m.m.settle();
        str e = settle("a restart"); if (!e.empty()) return e;
        if (R.tls) { if (!vos::S.clients[k].srv_closed && vos::S.clients[k].fd < 0) return "the connection is not accepted"; if (vos::S.clients[k].srv_closed) { m.cl[r] = -1; return compare(); } }
        int s = vos::S.clients[k].fd; if (s < 0) return "the connection of " + R.name + " was lost";
        sl[r] = s; m.m.connect(s, vos::node_of(R.host), vos::hosts[R.host].ip, R.tls);
        return compare();
      }
      vos::Client &k = vos::S.clients[m.cl[r]]; int s = k.fd;
      if (op == "full") { k.window = 0; m.m.u[s].stuck = 2; str e = apply(parse(rest)); m.m.u[s].stuck = 0; if (m.cl[r] >= 0) k.window = -1; return e; }
      else { k.in += "\x09" "bhal"; str e = settle("half a packet"); if (!e.empty()) return e; m.m.u[s].stuck = 1;
        e = apply(parse(rest)); if (!e.empty() || m.cl[r] < 0) return e;
        m.m.u[s].stuck = 0; k.in += str("fway\0", 5); m.m.packet(s, "bhalfway"); m.m.settle(); e = settle("the other half"); return e.empty() ? compare() : e; }
    }
    int fired = 0;
    vos::fault_hook = [&](const char *o, int, const str &p) -> int { if (op != o) return 0; if ((op == "create" || op == "fwrite") && p.find(".dump") == str::npos) return 0; fired++; return op == "fork" ? EAGAIN : op == "execve" ? ENOENT : ENOSPC; };
    m.m.restart_fails = 1; str e = apply(parse(rest)); m.m.restart_fails = 0; vos::fault_hook = nullptr;
    return e;
  }
};
static Scenario rs(const str &name, int depth, Conf c, int bits = 22) { return Scenario{name, [c]() { return std::unique_ptr<Sys>(new RestartSys(c)); }, depth, bits, 600}; }
static const str AFTER = seq({"{alice,bob,erin,carol,dave} : o", "{dave,bob} /w", "alice /m bob hi", "bob /m alice yo", "{alice,bob,dave} /{hush,notify,echoback on}", "alice /{invite,talk,status,topic T}", "{dave,erin} /g x"});

static Registrar c30("C30", [](bool T) -> Sc {
  Sc r;
  Conf b; b.roles.push_back({"erin", "er", 1}); b.roles.push_back({"frank", "fr", 2});
  b.pre = X({"+alice x", "~1", "+bob x", "~1", "+erin x", "~1", "+carol y adm_pw Admin", "+dave y", "{bob,erin} /p pw"});
  V look = {AFTER, seq({"{alice,bob,erin,dave} /whois {alice,bob}", "alice /stats", "carol /log", "carol /shuttime", "{bob,erin} /read", "~301", "bob /w", "~3600", "bob /w"}),
            seq({"-alice", "#bob", "+alice x", "+bob x - bob login zz", "dave /w", "alice : a", "bob : b", "^frank", "-dave", "+dave x", "-frank", "+frank x", "frank /w", "-erin", "-carol", "frank : f", "dave : d"}),
            seq({"alice /m  x", "dave /beep alice", "alice ! m", "dave ! m", "alice /hush bob", "alice /m bob 1", "bob /m alice 2", "~10", "bob /m alice 3", "~1", "bob /m alice 4", "dave /m bob q", "erin /drop dave", "carol /drop dave"})};
  V rst = {"carol /restart", "carol /restart quiet", "dave /restart", "alice /restart quiet", "carol /restart nonsense"};
  { // every piece of the state of users and groups, restarts in between
    Conf a = b; a.probes = look;
    a.acts = rst + X({"alice /hush {,-o ,-p -s ,-s -o ,-q }{bob,*@h1*,dave}", "bob /notify {,-s ,-q }{dave,*@h3*,er*}", "{alice,bob} /away {gone %s,  two  spaces %s,}", "bob /noaway", "{bob,alice} /echoback {on,verbose}", "bob /nobeep {on,verbose}",
      "alice /status {r,c,m,i,s,q,l,# 4,b 1,im 1,idlebootmsg %s  is off,idlebootmsg   %s,name zz}", "alice /topic {T,  spaces ,a|b,%d}", "alice /invite {,-r ,-s ,-s -r }{dave,*@h3*,bob}", "alice /talk {,-r }{bob,erin}", "bob /{rname Bob,write erin hi,secure}", "alice /p pw", "alice /pass {bob,}", "-{alice,bob}", "#erin", "~{1,12,301,3601}", "dave /name {zed,d d}", "^frank", "frank ! afr|frank|x|login|pw", "-frank", "+alice x", "carol /shutdown 6", "carol /log 3", "alice /m bob hi", "bob /m alice x", "dave /ping bob", "bob /g {y,z}", "alice /boot erin", "carol /drop dave"});
    r.push_back(rs("everything that is remembered, restarts in between", T ? 4 : 3, a, T ? 28 : 24)); }
  { // lists in their order, full lists
    Conf a = b; a.probes = look; for (str n : {"a1", "b2", "c3"}) { a.pre = a.pre + X({"alice /hush {,-o ,-p }" + n, "alice /hush -s {,-o ,-p }" + n + "@*", "alice /notify " + n, "alice /notify -s " + n + "*", "alice /talk -a " + n}); }
    a.pre = a.pre + V{"alice /status r c", "alice /invite dave", "alice /invite -s a@*", "alice /invite -s b@*", "alice /talk bob", "alice /talk erin", "alice /invite bob", "alice /invite -r erin", "alice /invite -r bob", "alice /invite -s -r x@*", "alice /invite -s -r y@*", "alice /talk -r erin", "alice /talk -r bob"};
    a.acts = rst + X({"alice /{hush,hush -s,notify,notify -s,invite,talk}", "alice /hush {,-s ,-o }b2", "alice /notify {b2,a1,-s b2*}", "alice /cancel {dave,-s a@*}", "alice /talk -d {erin,bob}", "~1", "-alice", "bob /name c3"});
    for (int i = 0; i < 32; i++) a.pre.push_back("bob /hush n" + std::to_string(i)); for (int i = 0; i < 40; i++) a.pre.push_back("bob /notify w" + std::to_string(i));
    a.acts = a.acts + X({"bob /hush {new,n3}", "bob /notify {new,w3}", "bob /{hush,notify}"});
    r.push_back(rs("lists", T ? 4 : 3, a, T ? 28 : 24)); }
  { // longest strings
    Conf a = b; str L(230, 'w'); a.probes = look;
    a.acts = rst + V{"alice /away %s" + str(200, 'a'), "alice /topic " + L, "alice /status idlebootmsg %s" + str(51, 'm'), "alice /status idlebootmsg  %s x ", "alice /rname " + L, "alice /hush -s " + L, "bob /notify -s " + L, "alice /invite -s " + L, "bob /name abcdefghijklm", "alice /status name abcdefgh", "alice /status idlebootmsg %s", "alice /topic ", "alice /topic X", "alice /topic  ", "alice /away X%s", "alice /away %sX", "alice /away %s ", "bob /name X", "alice /name x", "dave /g X", "dave /g  q", "dave /g a b"};
    for (str p : {"X", " ", "  p", "p p ", "a\nb", "a\tb", "\n", "abcdefghijklm", "\xff\xfe", "%s"}) { a.acts.push_back("frank ! afr|frank|x|login|" + p); a.acts.push_back("frank ! a" + p + "|frank|x|login|"); a.acts.push_back("frank ! afr|" + p + "|x|login|"); a.acts.push_back("frank ! afr|frank|" + p + "|login|"); a.acts.push_back("alice ! htopic|" + p); a.acts.push_back("alice ! haway|%s" + p); a.acts.push_back("alice ! hhush|" + p); a.acts.push_back("alice ! hhush|-s " + p); a.acts.push_back("alice ! hnotify|" + p); a.acts.push_back("alice ! hinvite|-s " + p); a.acts.push_back("alice ! hstatus|idlebootmsg " + p + "%s"); a.acts.push_back("alice ! hname|" + p); a.acts.push_back("alice ! hstatus|name " + p); }
    a.acts = a.acts + V{"^frank", "-frank", "-alice", "~3700", "~7300"}; a.pre.push_back("^frank");
    r.push_back(rs("unusual and longest strings", T ? 3 : 2, a, T ? 26 : 22)); }
  { // simultaneous events
    Conf a = b; a.probes = look; a.pre = a.pre + V{"alice /status c", "alice /talk bob"};
    for (str x : {"alice : hi", "bob : hi", "dave : hi", "alice /m bob x", "dave /g x", "bob /g y", "alice /boot bob", "alice /pass bob", "bob /name zed", "bob /p pw", "-alice", "-bob", "#bob", "#dave", "-dave", "carol : hi", "carol /drop bob", "carol /restart", "dave ! m", "carol /name x", "dave /drop bob pw", "alice /drop bob pw", "alice /drop erin pw", "bob /drop erin pw", "carol /restart quiet"}) for (str q : {"carol /restart", "carol /restart quiet"}) if (x != q && x.substr(0, 14) != "carol /restart") a.acts.push_back(x + " & " + q);
    a.acts = a.acts + V{"carol /restart & carol : on", "carol /restart & -carol", "carol /restart & #carol", "carol /restart & carol /restart quiet", "carol /restart", "~1", "+alice x", "+bob x", "+dave x", "-carol", "+carol y adm_pw Admin", "bob /g x", "dave : x", "alice : x"};
    for (str w : {"alice", "bob", "dave"}) for (str q : {"carol /restart", "carol /restart quiet"}) { a.acts.push_back("!full " + w + " " + q); a.acts.push_back("!half " + w + " " + q); }
    a.acts = a.acts + X({"!conn frank carol /restart", "!conn frank carol /restart quiet", "!{fork,execve,create,fwrite} carol /{restart,restart quiet}", "-frank", "frank ! afr|frank|x|login|", "frank : hi", "!half carol carol : x"});
    a.acts.pop_back();
    r.push_back(rs("at the same moment; what cannot be handed over; what fails", T ? 4 : 3, a, T ? 28 : 24)); }
  { // TLS
    Conf a = b; a.tls = true; a.roles.push_back({"tess", "te", 1, true}); a.roles.push_back({"tom", "to", 0, true}); a.probes = look; a.pre = a.pre + V{"+tess x", "alice /status r", "alice /invite tess", "^tom"};
    a.acts = rst + X({"+tess {x,y}", "+tom x", "^tom", "tom ! ato|tom|x|login|", "-{tess,tom,alice}", "#tess", "tess : hi", "alice : hi", "alice /m tess hi", "tess /status", "alice /pass tess", "tess /p pw", "tess /status # 9", "~{1,301}", "!conn tom carol /restart", "!conn tess carol /restart quiet", "tess : hi & carol /restart", "-tess & carol /restart", "^frank", "frank ! afr|frank|x|login|", "alice /boot tess", "dave /notify tess"});
    r.push_back(rs("TLS clients", T ? 4 : 3, a, T ? 28 : 24)); }
  { // one user, all slots
    Conf a; a.roles.clear(); a.probes = {}; a.pre = {"+u0 x adm_pw Admin"}; str all; for (int i = 0; i < 12; i++) { str n = "u" + std::to_string(i); a.roles.push_back({n, "id", i % 4}); if (i && i < 11) a.pre.push_back("+" + n + " g" + std::to_string(i % 7)); all += (i ? " ;; " : "") + n + " : o"; }
    a.probes = {all, "u11 : o ;; u11 /w ;; u3 /w"}; a.acts = {"u0 /restart", "u0 /restart quiet", "+u11 x", "^u11", "-u11", "-u1", "-u5", "#u10", "+u1 x", "+u5 g3", "+u10 q", "~1", "~3700", "u2 /g g3", "u4 /status i", "u5 /status r", "-u0", "+u0 x adm_pw Admin", "u6 /name zz", "u11 /w"};
    r.push_back(rs("all slots and groups", T ? 6 : 5, a, T ? 27 : 23)); }
  { // slow messages: what has not been read yet is read afterwards
    Conf a = b; a.pre = V{"=icbd.perms user bo h1.test perm_slowmsgs\\n"} + a.pre; a.probes = {"bob : 1 ;; bob : 2 ;; alice : 3 ;; ~1 ;; ~1 ;; ~1 ;; alice /w"};
    a.acts = rst + V{"bob : hi", "bob /g y", "bob ! n", "~0.5", "~1", "#bob", "+bob x", "=icbd.perms", "alice : ho", "bob /name zed", "carol /drop bob"};
    r.push_back(rs("slow messages", T ? 5 : 4, a, T ? 25 : 22)); }
  // the alphabets of the other checks: in every state reached a restart, then the observations of that check
  for (const char *id : {"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C21", "C22", "C23", "C25", "C27", "C28"}) for (auto &s : scenarios_of(id, T)) {
    std::unique_ptr<Sys> y = s.make(); ModelSys *p = dynamic_cast<ModelSys *>(y.get()); if (!p || p->c.probes.empty()) continue;
    Conf k = p->c; bool carol = false; for (auto &l : k.pre) if (l.find("+carol") == 0 && l.find("adm_pw Admin") != str::npos) carol = true;
    if (!carol) continue;
    for (size_t i = 0; i < k.probes.size(); i++) k.probes[i] = str(i & 1 ? "carol /restart quiet" : "carol /restart") + " ;; " + k.probes[i];
    size_t n = k.acts.size(); r.push_back(rs("a restart, then the observations of " + str(id) + " " + s.name, T ? (n < 60 ? 4 : n < 400 ? 3 : 2) : n < 24 ? 3 : 2, k, T ? 26 : 23));
  }
  return r;
});

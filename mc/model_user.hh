  // (body of struct Model, continued) ------------------------------------------ registration data base
  str dbkey(const str &n, const str &a) const { return low(n + "." + a); }
  bool dbget(const str &n, const str &a, str *v = nullptr) const { auto i = db.find(dbkey(n, a)); if (i == db.end()) return false; if (v) *v = i->second; return true; }
  str dbstr(const str &n, const str &a, const str &dflt = "") const { str v; return dbget(n, a, &v) ? v : dflt; }
  void dbset(const str &n, const str &a, const str &v) { db[dbkey(n, a)] = v; }
  void dbdel(const str &n, const str &a) { db.erase(dbkey(n, a)); }
  str stamp() const { time_t t = now(); struct tm tm; gmtime_r(&t, &tm); char b[128]; strftime(b, sizeof b, "%e-%h-%Y %H:%M UTC", &tm); return b; }
  str home(int n) const { return u[n].id + "@" + u[n].host; }
  void signtime(int n, bool on) {
    if (!u[n].reg) return;
    if (!on && !dbget(u[n].nick, "nick")) return;
    dbset(u[n].nick, on ? "signon" : "signoff", stamp());
  }
  // 0: known and at home, -2: known but has to give the password, -1: unknown
  int known(int n) const {
    str h; if (!dbget(u[n].nick, "home", &h)) return -1;
    return ieq(h, home(n)) && !dbget(u[n].nick, "secure") ? 0 : -2;
  }
  void regain(int n) {
    for (int i = 1; i < MG; i++) if (g[i].modtimeout > 0 && g[i].missing == u[n].nick) {
      g[i].modtimeout = 0; g[i].mod = n; g[i].missing.clear();
      for (int j = 1; j < SRV; j++) if (j != n && ieq(u[j].group, g[i].name)) status(j, "Mod", u[n].nick + " is the active moderator again.");
      status(n, "Mod", "You are the moderator of group " + g[i].name);
    }
  }
  void mail_count(int n) {
    if (!dbget(u[n].nick, "nummsg")) dbset(u[n].nick, "nummsg", "0");
    int c = atoi(dbstr(u[n].nick, "nummsg").c_str());
    if (c > 0) status(n, "Message", "You have " + plural(c, "message"));
  }
  void registered(int n) { u[n].reg = true; status(n, "Register", "Nick registered"); signtime(n, true); }
  void recognised(int n) { registered(n); regain(n); mail_count(n); }
  void ask_password(int n) {
    status(n, "Register", "Send password to authenticate your nickname.");
    int c = 0;
    for (auto &x : g) if (!x.missing.empty() && ieq(x.missing, u[n].nick)) { status(n, "Mod", "You are moderator of group " + x.name); c++; }
    if (c) status(n, "Mod", str("You must register using /p <password> to regain mod of the above group") + (c > 1 ? "s." : "."));
  }
  bool give_password(int n, str pw, bool create) {
    if (pw.empty()) { error(n, "Password cannot be null"); return false; }
    pw = cut(pw, 12);
    str have;
    if (!dbget(u[n].nick, "password", &have)) {
      if (!create) { error(n, "[ERROR] Nick " + u[n].nick + " not found"); return false; }
      dbset(u[n].nick, "password", pw); dbset(u[n].nick, "nick", u[n].nick); dbset(u[n].nick, "home", home(n));
      registered(n); u[n].pw = pw;
      return true;
    }
    if (have != pw) { error(n, "Authorization failure"); u[n].reg = false; return false; }
    registered(n); u[n].pw = pw; regain(n); mail_count(n);
    for (int i = 1; i < MG; i++) talk_report(n, i);
    return true;
  }
  void setsecure(int n, bool on) {
    if (!u[n].reg) { error(n, "You must be registered to change your security."); return; }
    if (on) dbset(u[n].nick, "secure", "SECURED"); else dbdel(u[n].nick, "secure");
    cmdout(n, on ? "Security set to password required." : "Security set to automatic.");
  }
  void delete_record(int n, str pw) {
    if (pw.empty()) { cmdout(n, "Usage: delete password"); return; }
    str nick = u[n].nick, have;
    if (!u[n].reg) { error(n, "You must be registered to delete your entry."); return; }
    if (!dbget(nick, "password", &have)) { error(n, "You don't have a password."); return; }
    if (have != cut(pw, 12)) { error(n, "Password incorrect."); return; }
    for (const char *a : {"secure", "realname", "email", "signon", "signoff", "nick", "password", "phone", "text", "home", "addr", "nummsg", "www"}) dbdel(nick, a);
    for (int i = 1; i <= 20; i++) for (const char *a : {"header", "message", "from"}) dbdel(nick, a + num(i));
    u[n].reg = false;
    cmdout(n, "Record Deleted");
  }
  void leave_message(int n, const str &to, const str &text) {
    if (to.empty() || text.empty()) { cmdout(n, "Usage: write nickname message text"); return; }
    if (!u[n].reg) { error(n, "You must be registered to write a message."); return; }
    if (!dbget(to, "nick")) { error(n, to + " is not registered"); return; }
    int c = atoi(dbstr(to, "nummsg", "0").c_str()) + 1;
    if (c > 20) { error(n, "User mailbox full"); return; }
    dbset(to, "header" + num(c), "Message left at " + stamp() + ":");
    dbset(to, "from" + num(c), u[n].nick);
    dbset(to, "message" + num(c), clean(text, 4095));
    dbset(to, "nummsg", num(c));
    status(n, "Message", "Text saved to file");
    int d = user(to);
    if (d > 0) { status(n, "Warning", u[d].nick + " is logged in now."); status(d, "Message", "You have " + plural(c, "message")); }
  }
  void read_messages(int n) {
    if (!u[n].reg) { error(n, "You must be registered to read any messages."); return; }
    str nick = u[n].nick; int c = atoi(dbstr(nick, "nummsg", "0").c_str());
    if (c == 0) error(n, "No messages");
    for (int i = 1; i <= c; i++) {
      str v;
      if (dbget(nick, "header" + num(i), &v)) cmdout(n, v);
      if (dbget(nick, "message" + num(i), &v)) stored(n, cut(dbstr(nick, "from" + num(i), "Server"), 12), v);
      for (const char *a : {"header", "message", "from"}) dbdel(nick, a + num(i));
    }
    dbset(nick, "nummsg", "0");
  }
  void set_info(int n, const str &usage, const str &attr, str v, size_t max, const str &label) {
    if (v.empty()) { cmdout(n, "Usage: " + usage); return; }
    if (!u[n].reg) { error(n, "Setting your name requites that you be registered."); return; }
    if (v.size() > max) { v = cut(v, max); error(n, label + " truncated to " + num(max) + " characters"); }
    dbset(u[n].nick, attr, v);
    cmdout(n, label + " set to '" + cut(v, 160) + "'");
  }
  void change_password(int n, const str &o, const str &w) {
    str have, nick = u[n].nick;
    if (!dbget(nick, "password", &have) || have != cut(o, 12)) { error(n, "Authorization failure"); return; }
    if (w.empty()) { error(n, "Missing paramater"); return; }
    dbset(nick, "password", cut(w, 12));
    status(n, "Pass", "Password changed");
    dbset(nick, "home", home(n));
  }
  static str pad(str s, size_t w) { if (s.size() < w) s.append(w - s.size(), ' '); return s; }
  void whois(int n, const str &who) {
    if (who.empty()) { cmdout(n, "Usage: whois nickname"); return; }
    if (who.size() > 12) { error(n, "nickname too long"); return; }
    str v;
    if (!dbget(who, "home", &v)) { error(n, who + " is not in the database."); return; }
    cmdout(n, pad("Nickname:     " + dbstr(who, "nick"), 36) + "Address:   " + v);
    cmdout(n, pad("Phone Number: " + dbstr(who, "phone", "(None)"), 36) + "Real Name: " + dbstr(who, "realname", "(None)"));
    cmdout(n, pad("Last signon:  " + dbstr(who, "signon", "(unknown)"), 36) + "Last signoff:  " + dbstr(who, "signoff", "(unknown)"));
    if (dbget(who, "email", &v)) cmdout(n, "E-mail addr:  " + v);
    if (dbget(who, "www", &v)) cmdout(n, "WWW:  " + v);
    if (dbget(who, "addr", &v)) {
      cmdout(n, "Street Address:");
      size_t i = 0; for (;;) { size_t j = v.find('|', i); cmdout(n, "  " + v.substr(i, j == str::npos ? j : j - i)); if (j == str::npos) break; i = j + 1; }
    }
    if (dbget(who, "text", &v)) {          // lines of at most 62 bytes, broken at a space where there is one, and at every newline
      const size_t W = 62;
      for (size_t b = 0;;) {
        size_t nl = v.find('\n', b), s = 0; bool last = nl == str::npos; str t = v.substr(b, last ? nl : nl - b); b = nl + 1;
        while (t.size() - s > W) {
          size_t sp = s; for (size_t k = s; k <= s + W; k++) if (t[k] == ' ') sp = k;
          size_t w = W - 1; while (w && ((unsigned char)t[s + w] & 0xC0) == 0x80) w--;   // whole characters only
          if (s + W - sp > 40) { cmdout(n, "Text: " + t.substr(s, w) + "-"); s += w; }
          else { cmdout(n, "Text: " + t.substr(s, sp - s)); s = sp + 1; }
        }
        if (!last || s < t.size()) cmdout(n, "Text: " + t.substr(s));
        if (last) break;
      }
    }
  }
  bool automaton(int n, const str &verb, const str &arg) {     // the Server user's commands
    str v = low(verb);
    static const char *all[] = {"read", "whois", "p", "rname", "write", "text", "addr", "phone", "delete", "info", "help", "?", "cp", "email", "secure", "nosecure", "www"};
    bool ok = false; for (auto a : all) if (v == a) ok = true;
    if (!ok) return false;
    if (v == "read") read_messages(n);
    else if (v == "whois") whois(n, word(arg));
    else if (v == "info") whois(n, "server");
    else if (v == "p") give_password(n, word(arg), true);
    else if (v == "rname") set_info(n, "rname Real Name", "realname", arg, 25, "Real Name");
    else if (v == "text") set_info(n, "text Message Text", "text", arg, 200, "Message text");
    else if (v == "addr") set_info(n, "addr Address Line 1 | Address Line 2 | Address Line 3", "addr", arg, 79, "Address");
    else if (v == "phone") set_info(n, "phone 1-800-555-1212", "phone", arg, 14, "Phone Number");
    else if (v == "www") set_info(n, "www URL", "www", arg, 80, "WWW");
    else if (v == "email") set_info(n, "email e-mail address", "email", arg, 60, "E-Mail");
    else if (v == "write") leave_message(n, word(arg), tail(arg));
    else if (v == "delete") delete_record(n, word(arg));
    else if (v == "cp") change_password(n, word(arg), word(tail(arg)));
    else if (v == "secure" || v == "nosecure") setsecure(n, v == "secure");
    else if (v == "help") for (const char *l : {"Command <argument(s)>           What it does", "---------------------           ------------",
        "whois <nick>                    returns info if available", "p <passwd>                      registers current user info",
        "delete <password>               deletes your info from the server db", "cp <oldpassword> <newpasswd>    changes password",
        "rname                           sets your real name", "phone                           sets your phone number",
        "addr                            sets your street address", "email                           sets your e-mail address",
        "text                            sets your text message", "www                             sets your WWW home page",
        "read                            reads your server messages", "write <nick>                    send someone a server message",
        "secure                          always requires a password to register", "nosecure                        auto-validates based on username/hostname",
        "info                            gives more info on Server", "help                            lists this table",
        "?                               shows usage", "See also /s_help"}) cmdout(n, l);
    else person(SRV, n, "usage: /m server {whois | p | cp | delete | rname | email | phone | addr | text | read | write | www | info | secure | nosecure | help | ?}");
    u[SRV].t_recv = now();
    return true;
  }
  // ------------------------------------------------------------------ the user's own settings
  void toggle(int n, List &l, const str &w, const str &kind, const str &tag, bool quiet, const str &full, bool &stop) {
    if (!l.has(w)) {
      if (l.v.size() == l.max) { error(n, full); stop = true; return; }
      l.put(w);
      if (!quiet) status(n, tag, w + " added to " + kind + " list.");
    } else { l.del(w); if (!quiet) status(n, tag, w + " removed from " + kind + " list."); }
  }
  void hush(int n) {
    str w = f(1); std::map<char, int> o;
    if (!options(n, w, "qnspo", "ns", "Usage: hush {-q} {-p} {-o} {-n nickname | -s address}", o)) return;
    User &x = u[n];
    if (w.empty()) {
      if (x.hpn.v.empty() && x.hon.v.empty() && x.hps.v.empty() && x.hos.v.empty()) { status(n, "Hush-List", "Empty List"); return; }
      for (auto &e : x.hpn.v) status(n, "Personal-Nick-Hushed", e);
      for (auto &e : x.hon.v) status(n, "Open-Nick-Hushed", e);
      for (auto &e : x.hps.v) status(n, "Personal-Site-Hushed", e);
      for (auto &e : x.hos.v) status(n, "Open-Site-Hushed", e);
      return;
    }
    w = up(w); bool site = o.count('s'), q = o.count('q'), both = !o.count('p') && !o.count('o'), stop = false; str k = site ? "site" : "nickname";
    if (both || o.count('p')) toggle(n, site ? x.hps : x.hpn, w, k + " personal hush", "Hush", q, "Max number of " + k + " personal hushes reached.", stop);
    if (!stop && (both || o.count('o'))) toggle(n, site ? x.hos : x.hon, w, k + " open hush", "Hush", q, "Max number of " + k + " open hushes reached.", stop);
  }
  void notify(int n) {
    str w = f(1); std::map<char, int> o;
    if (!options(n, w, "qns", "ns", "Usage: notify {-q} {-n nickname | -s address}", o)) return;
    User &x = u[n];
    if (w.empty()) {
      if (x.nn.v.empty() && x.ns.v.empty()) { status(n, "Notify-List", "Empty List"); return; }
      for (auto &e : x.nn.v) status(n, "Notify-Nickname", e);
      for (auto &e : x.ns.v) status(n, "Notify-Site", e);
      return;
    }
    w = up(w); bool site = o.count('s'), q = o.count('q'), stop = false; str k = site ? "site" : "nickname";
    bool had = (site ? x.ns : x.nn).has(w);
    toggle(n, site ? x.ns : x.nn, w, k + " notify", "Notify", q, "Max number of " + k + " notifies reached.", stop);
    if (!stop && !site && !had && !q && user(w) > 0) status(n, "Notify", u[user(w)].nick + " is logged in now.");
  }
  void name(int n) {
    if (argc != 2) return;
    if (f(1).empty()) { error(n, "The nickname may not be null."); return; }
    str nn = nickchars(cut(f(1), 12));
    bool own = ieq(nn, u[n].nick);
    if ((user(nn) >= 0 && !own) || (ieq(nn, "admin") && u[n].pw != adminpw)) { error(n, "Nickname already in use."); return; }
    str m = u[n].nick + " changed nickname to " + nn;
    tell(u[n].group, n, "Name", m);
    signtime(n, false);
    u[n].nick = nn;
    status(n, "Name", m);
    u[n].reg = false;
    int k = known(n);
    if (k == 0) recognised(n);
    else if (k == -2) ask_password(n);
    else status(n, "No-Pass", "To register your nickname type /m server p mypassword");
    for (int i = 0; i < MG; i++) talk_report(n, i);
  }
  void away(int n) {
    if (argc > 2) return;
    if (f(1).empty()) { status(n, "Away", u[n].away.empty() ? str("Away message is not set.") : "Away message is set to \"" + u[n].away + "\""); return; }
    int s = 1; str e = fmtcheck(f(1), s);
    if (!e.empty()) { error(n, e); return; }
    u[n].away = cut("(%s@" + clock12() + ") " + f(1), 202);
    status(n, "Away", "Away message set to \"" + u[n].away + "\"");
    u[n].lastaway = 0; u[n].lastawaytime = 0;
  }
  void noaway(int n) {
    if (argc > 2) return;
    if (u[n].away.empty()) { status(n, "Away", "Away not set!"); return; }
    u[n].away.clear(); u[n].lastaway = 0; u[n].lastawaytime = 0;
    status(n, "Away", "Away message unset.");
  }
  // ------------------------------------------------------------------ who is there
  bool sees(int n, int gi) const { return gi == grp(n) || invited(n, gi) || u[n].nick == "ADMIN"; }
  void show_group(int n, int gi, char mode) {
    const Group &x = g[gi];
    str mod = x.mod >= 0 ? u[x.mod].nick : x.modtimeout == 0 ? str("(None)") : x.missing + " (" + num(x.modtimeout - now()) + ")";
    str nm = x.vis == VISIBLE ? x.name : sees(n, gi) ? "*" + x.name + "*" : str("-SECRET-");
    str flags = str("(") + "*pmrc"[x.ctl] + "*vsi"[x.vis] + "*qnl"[x.vol] + ")";
    cmdout(n, " ");
    cmdout(n, "Group: " + pad(nm, 8) + " " + flags + " Mod: " + pad(mod, 13) + " Topic: " + (x.topic.empty() ? str("(None)") : x.topic));
    if (mode == 'g') return;
    std::vector<int> m; for (int i = 0; i < MU; i++) if (!u[i].group.empty() && ieq(u[i].group, x.name)) m.push_back(i);
    if (mode == 's') {
      Lines l{*this, n, ""}; l.add("    Members: ");
      for (size_t i = 0; i < m.size(); i++) { l.add(u[m[i]].nick); if (i + 1 < m.size()) l.add(", "); }
      if (!l.line.empty()) cmdout(n, l.line);
      return;
    }
    if (m.size() >= 2) raw(-1, n, "iwh");
    std::sort(m.begin(), m.end(), [&](int a, int b) { return u[a].t_group != u[b].t_group ? u[a].t_group < u[b].t_group : a > b; });
    for (int i : m) {
      str st; auto add = [&](const char *s) { st += st.empty() ? "(" : ","; st += s; };
      if (!u[i].reg) add("nr"); if (!u[i].away.empty()) add("aw"); if (u[i].tls) add("ssl"); if (!st.empty()) st += ")";
      raw(-1, n, str("iwl\001") + (x.mod == i ? "m" : " ") + "\001" + u[i].nick + "\001" + num(now() - u[i].t_recv) + "\0010\001" + num(u[i].t_on) + "\001" + u[i].id + "\001" + u[i].host + "\001" + st);
    }
  }
  int group_count() const { int c = 0; for (auto &x : g) if (!x.name.empty() && (x.name != "ICB" || members("ICB") > 1)) c++; return c; }
  int user_count() const { int c = 0; for (int i = 0; i < SRV; i++) if (u[i].login > OUT) c++; return c; }
  void who_cmd(int n, const str &arg) {
    str w = word(arg); char mode = ieq(w, "-g") ? 'g' : ieq(w, "-s") ? 's' : 0;
    if (w == "?") { cmdout(n, "Usage: /w {-g | -s} {groupname}"); return; }
    str which = mode ? word(tail(arg)) : w;
    if (which.empty()) {
      std::vector<int> l; for (int i = 0; i < MG; i++) if (!g[i].name.empty() && (g[i].vis != INVISIBLE || sees(n, i))) l.push_back(i);
      std::sort(l.begin(), l.end(), [&](int a, int b) { return strcasecmp(g[a].name.c_str(), g[b].name.c_str()) < 0; });
      for (int i : l) show_group(n, i, mode);
      int us = user_count(), gs = group_count();
      cmdout(n, us == 0 ? str("No users found.") : "Total: " + num(us) + (us > 1 ? " users" : " user") + " in " + num(gs) + (gs > 1 ? " groups" : " group"));
      return;
    }
    which = cut(which, GROUPLEN);
    if (arg[0] == '@') {
      int d = user(arg.substr(1));
      if (d < 0 || (g[grp(d)].vis == INVISIBLE && u[n].nick != "ADMIN")) { error(n, "User not found."); return; }
      which = u[d].group;
    }
    if (which == ".") which = u[n].group;
    int gi = group(which);
    if (gi < 0) error(n, "The group " + which + " doesn't exist."); else show_group(n, gi, mode);
  }
  void whereis(int n) {
    if (argc != 2) return;
    str w = cut(word(f(1)), 19); int d = w.empty() ? u[n].lpriv : user(w);
    if (d < 0) { cmdout(n, "Nickname not found."); return; }
    long i = now() - u[d].t_recv;
    cmdout(n, pad(u[d].nick, 14) + " " + u[d].id + "@" + u[d].host + " (" + (d == SRV ? str("(unknown)") : u[d].ip) + ") "
              + (i < 60 ? num(i) + "s" : i < 3600 ? num(i / 60) + "m" : i < 86400 ? num(i / 3600) + "h" : num(i / 86400) + "d") + (u[d].away.empty() ? "" : " (aw)"));
  }
  void lines_of(int n, const str &text) { size_t i = 0, j; while ((j = text.find('\n', i)) != str::npos) { cmdout(n, cut(text.substr(i, j - i), 254)); i = j + 1; } }
  void show_motd(int n) {
    if (!files.count("motd")) { error(n, "No MOTD file found."); return; }
    str t, &s = files["motd"];
    for (size_t i = 0; i < s.size(); i++) { if (s[i] != '%') t += s[i]; else if (++i < s.size()) { if (s[i] == 'U') t += dbstr("server", "signon"); else t += s[i]; } }
    lines_of(n, t);
  }
  void news(int n) {
    const str bar(38, '-'); bool any = false;
    if (f(1).empty() || f(1) == "(null)") {
      for (int i = 1; i < 10; i++) if (files.count("news." + num(i))) { if (!any) cmdout(n, bar); any = true; lines_of(n, files["news." + num(i)]); cmdout(n, bar); }
      if (!any) status(n, "News", "No news.");
    } else if (files.count("news." + f(1))) { cmdout(n, bar); lines_of(n, files["news." + f(1)]); cmdout(n, bar); }
    else error(n, "Entry not found.");
  }
  void stats(int n) {
    if (argc == 2 && f(1) == "reset") {
      if (!admin(n)) { error(n, "You are not authorized to do this."); return; }
      signons = boots = drops = idleboots = idlemods = 0; start = now();
      status(n, "Stats", "Stats have been reset."); return;
    }
    cmdout(n, "Server Settings:"); cmdout(n, "  " + version + ", Protocol Level 1");
    cmdout(n, "  Max Users: " + num(SRV) + " Max Groups: " + num(MG)); cmdout(n, "Server Stats:");
    time_t t = start; struct tm tm; gmtime_r(&t, &tm); char b[64]; asctime_r(&tm, b); str st = b; st.pop_back();
    cmdout(n, "  Started: " + st);
    cmdout(n, "  " + plural(signons, "signon") + ", " + plural(boots, "boot") + ", " + plural(drops, "drop"));
    cmdout(n, "  " + plural(idleboots, "idleboot") + ", " + num(idlemods) + " idlemod pass" + (idlemods != 1 ? "es" : ""));
    int aw = 0; for (int i = 0; i < SRV; i++) if (u[i].login > OUT && !u[i].away.empty()) aw++;
    cmdout(n, "  " + plural(user_count(), "user") + " in " + plural(group_count(), "group") + " (" + plural(aw, "away user") + ")");
  }
  void shuttime(int n) {
    if (argc != 2) return;
    if (die < 0) { status(n, "Shutdown", "No shutdown time scheduled."); return; }
    long l = die - now();
    status(n, "Shutdown", (l >= 3600 ? num(l / 3600) + " hour(s), " + num(l % 3600 / 60) + " minute(s) left until scheduled shutdown." : l > 60 ? num(l / 60) + " minute(s) left until scheduled shutdown." : num(l) + " second(s) left until scheduled shutdown!"));
  }
  void everyone(const str &tag, const str &m) { for (int i = 0; i < SRV; i++) if (u[i].login > OUT) important(i, tag, m); }
  // a new process goes on with everybody; only what cannot be handed over is lost
  void reborn(bool quiet) {
    die = -1; shutnote = loglevel = 0; signons = boots = drops = idleboots = idlemods = 0; start = now();
    for (auto &x : u) { x.lpriv = x.asker = -1; x.ping_us = 0; x.burst = 0; if (x.conn && (x.tls || x.stuck == 1 || x.stuck == 3)) x.closing = true; x.stuck = 0; }
    for (int i = 0; i < SRV; i++) if (u[i].login > OUT && (!quiet || ieq(u[i].nick, "admin"))) important(i, quiet ? "Quiet-Restart" : "Restart", "Server is back up.");
  }
  void drop(int n) {
    if (argc != 2) return;
    int d = user(word(f(1)));
    if (d < 0) { error(n, "User not found."); return; }
    if (admin(n)) { disconnect(d); return; }
    str pw = cut(word(tail(f(1))), 12), have;
    if (!pw.empty() && dbget(u[d].nick, "password", &have) && have == pw) { status(d, "Drop", "You have been disconnected by " + u[n].nick); u[d].kill++; }
    else error(n, "Authentication failure.");
  }
  // ------------------------------------------------------------------ dispatch
  void command(int n, const str &payload) {
    if (u[n].login < ON) return;
    u[n].t_recv = now();
    split(payload);
    str c = low(f(0));
    if (c == "drop") drop(n);
    else if (c == "shutdown" || c == "restart" || c == "wall") {
      if (!admin(n)) { error(n, "You are not authorized to do this."); return; }
      if (c == "restart") {
        bool q = argc == 2 && ieq(f(1), "quiet"); const str m = "Server restarting...please be patient.";
        if (q) important(n, "Quiet-Restart", m); else everyone("Restart", m);
        if (!can_restart) { exited = true; return; }
        if (restart_fails) { if (q) important(n, "Quiet-Restart", "Restart not done."); else everyone("Restart", "Restart not done."); }
        else reborn(q);
        return;
      }
      if (c == "wall" && argc == 2) everyone("WALL", f(1));
      if (c == "shutdown" && argc == 2) { long m = std::max(std::min(atol(f(1).c_str()), 2147483647l), -2147483647l); everyone("Shutdown", "Server going down in " + num(m) + " minute(s)!"); die = now() + 60 * m; shutnote = m < 300; }
    }
    else if (c == "log") {
      if (argc < 2) { cmdout(n, "wrong number of parz"); return; }
      if (!admin(n)) { error(n, "You are not authorized to do this."); return; }
      if (!f(1).empty()) loglevel = std::max(0, atoi(word(f(1)).c_str()));
      cmdout(n, "The log level is " + num(loglevel));
    }
    else if (c == "beep") beep(n);
    else if (c == "cancel") cancel(n);
    else if (c == "g") { if (argc == 2) change(n, f(1), false); else if (argc == 3) change(n, f(1), true); }
    else if (c == "invite") invite(n);
    else if (c == "pass") pass(n);
    else if (c == "boot") boot(n);
    else if (c == "status") group_status(n);
    else if (c == "topic") topic(n);
    else if (c == "motd") show_motd(n);
    else if (c == "m") personal(n);
    else if (c == "echoback" || c == "nobeep") {
      if (argc != 2) return;
      bool e = c == "echoback"; int v = ieq(f(1), "off") ? 0 : ieq(f(1), "on") ? 1 : ieq(f(1), "verbose") ? 2 : -1;
      if (v < 0) { error(n, e ? "Echoback: needs on/off/verbose" : "No-Beep: needs off/on/verbose"); return; }
      (e ? u[n].echo : u[n].nobeep) = v;
      static const char *E[] = {"Echoback off", "Echoback on", "Echoback on verbose"}, *B[] = {"No-Beep off", "No-Beep on", "No-Beep on (verbose)"};
      status(n, e ? "Echo" : "No-Beep", e ? E[v] : B[v]);
    }
    else if (c == "name") name(n);
    else if (c == "v") { if (argc == 2) { cmdout(n, version); cmdout(n, "Proto Level: 1 Max Users: " + num(SRV) + " Max Groups: " + num(MG)); } }
    else if (c == "w") { if (argc == 2) who_cmd(n, f(1)); }
    else if (c == "whereis") whereis(n);
    else if (c == "news") news(n);
    else if (c == "hush" || c == "shush") hush(n);
    else if (c == "s_help") { if (files.count("icbd_help")) lines_of(n, files["icbd_help"]); else error(n, "No help file found."); }
    else if (c == "exclude") exclude(n);
    else if (c == "shuttime") shuttime(n);
    else if (c == "notify") notify(n);
    else if (c == "talk") talk(n);
    else if (c == "ping") ping(n);
    else if (c == "away") away(n);
    else if (c == "noaway") noaway(n);
    else if (c == "stats") stats(n);
    else if (!automaton(n, f(0), f(1))) status(n, "Server", "Unknown command");
  }
  // ------------------------------------------------------------------ login
  long perms_of(int n, const str &id) const {
    auto it = files.find("icbd.perms"); if (it == files.end()) return 0;
    const str &s = it->second; size_t i = 0;
    while (i < s.size()) {
      size_t j = s.find('\n', i); if (j == str::npos) j = s.size();
      str l = s.substr(i, j - i); i = j + 1;
      if (l.empty() || l[0] == '\t' || l[0] == '#') continue;
      std::vector<str> w; size_t k = 0;
      while (k < l.size()) { while (k < l.size() && blank(l[k])) k++; size_t b = k; while (k < l.size() && !blank(l[k])) k++; if (k > b) w.push_back(l.substr(b, k - b)); }
      if (w.size() < 4) continue;
      bool hit = false;
      if (ieq(w[0], "user")) hit = ieq(w[1], id) && ieq(w[2], u[n].host);
      else if (ieq(w[0], "mask")) {
        if (u[n].ip.find(":") != str::npos && u[n].ip.compare(0, 7, "::ffff:")) continue;   // no IPv4 address
        auto ip = [](const str &a) { return inet_addr(a.compare(0, 7, "::ffff:") ? a.c_str() : a.c_str() + 7); };
        hit = (ip(u[n].ip) & ip(w[2])) == ip(w[1]);
      }
      if (!hit) continue;
      long p = 0; size_t b = 0;
      for (;;) { size_t e = w[3].find('|', b); str t = w[3].substr(b, e == str::npos ? e : e - b); if (ieq(t, "perm_deny")) p |= 1; if (ieq(t, "perm_slowmsgs")) p |= 2; if (e == str::npos) break; b = e + 1; }
      return p;
    }
    return 0;
  }
  bool refused(int n, const str &id) {
    auto it = files.find("icbd.deny"); if (it == files.end()) return false;
    str me = up(id + "@" + u[n].host); const str &s = it->second;
    for (size_t i = 0; i < s.size();) {        // one rule per line: pattern, reason
      size_t j = s.find('\n', i); str l = s.substr(i, j == str::npos ? j : j - i); i = j == str::npos ? s.size() : j + 1;
      size_t b = 0; while (b < l.size() && isspace((unsigned char)l[b])) b++;
      size_t e = b; while (e < l.size() && !isspace((unsigned char)l[e])) e++;
      if (e == b || !wild(me.c_str(), up(l.substr(b, e - b)).c_str())) continue;
      error(n, "Login refused for " + me);
      error(n, "Reason: " + (e < l.size() ? l.substr(e + 1) : str()));
      return true;
    }
    return false;
  }
  bool login(int n, const str &rest) {
    if (u[n].login > OUT) { error(n, "Already logged in."); return true; }
    split(rest);
    if (argc < 4) return false;
    str id = f(0), nick = f(1), grp_ = f(2), type = f(3), pw = f(4);
    if (grp_.empty()) grp_ = "1";
    grp_ = cut(grp_, 15);
    if (ieq(type, "w")) { who_cmd(n, ""); return false; }
    if (ieq(type, "wg")) { who_cmd(n, f(2)); return false; }
    if (!ieq(type, "login")) { error(n, "Unknown login type \"" + type + "\""); return false; }
    nick = nickchars(nick);
    if (user(nick) >= 0) { error(n, "Nickname already in use."); return false; }
    if (nick.empty() || nick.size() > 12) { error(n, "Nickname must be between 1 and 12 characters."); return false; }
    if (id.empty() || id.size() > 12) { error(n, "Login id must be between 1 and 12 characters."); return false; }
    for (unsigned char c : id) if (!alnum(c)) { error(n, "Login id must contain only alphanumeric characters."); return false; }
    long p = perms_of(n, id);
    if (p & 1) { error(n, "Login denied."); return false; }
    if (p) status(n, "Permissions", p & 2 ? "slowmsgs" : "");
    if (refused(n, id)) return false;
    User &x = u[n];
    x.id = id; x.nick = nick; x.pw = cut(pw, 12); x.group.clear(); x.away.clear(); x.echo = x.nobeep = 0; x.perms = p;
    if (ieq(nick, "admin") && !admin(n)) { error(n, "Nickname already in use."); return false; }
    raw(-1, n, "a");
    show_motd(n);
    if (grp_[0] == '@') {
      int d = user(grp_.substr(1));
      if (d < 0 || (g[grp(d)].vis != VISIBLE && nick != "ADMIN")) { error(n, "User not found or is in a secret or invisible group."); return false; }
      grp_ = u[d].group;
    }
    x.login = PENDING; x.burst = 0; x.t_on = x.t_recv = now();
    for (List *l : {&x.hpn, &x.hon, &x.hps, &x.hos, &x.nn, &x.ns}) l->v.clear();
    cmdout(n, "Welcome to ICB " + nick);
    int k = known(n);
    if (k == -2) {
      if (!x.pw.empty() && give_password(n, x.pw, false)) k = 0;
      else ask_password(n);
    }
    if (k == 0 && !x.reg) recognised(n);
    if (k == -1) { status(n, "No-Pass", "Your nickname does not have a password."); status(n, "No-Pass", "For help type /m server ?"); }
    for (int i = 0; i < MG; i++) if (invited(n, i)) cmdout(n, "Invited to: " + g[i].name);
    if (!x.reg) for (int i = 0; i < MG; i++) talk_report(n, i);
    if (!change(n, grp_, true)) return false;
    x.login = ON; signons++;
    if (g[grp(n)].vis != INVISIBLE)
      for (int j = 0; j < MU; j++) if (j != n && u[j].login >= ON && (u[j].nn.matches(up(nick)) || u[j].ns.matches(addr(n))))
        status(j, "Notify-On", nick + " (" + addr(n) + ") has just signed on");
    return true;
  }
  // ------------------------------------------------------------------ state identity
  uint64_t hash() const {
    str s; auto put = [&](const str &x) { s += x; s += '\0'; }; auto n = [&](long x) { s.append((const char *)&x, sizeof x); };
    auto l = [&](const List &x) { n(x.v.size()); for (auto &e : x.v) put(e); };
    for (auto &x : u) {
      n(x.conn); n(x.closing); n(x.tls); n(x.login); n(x.kill); put(x.id); put(x.host); put(x.nick); put(x.pw); put(x.group); put(x.away); n(x.reg); n(x.lastaway); n(x.lastawaytime);
      n(x.echo); n(x.nobeep); n(x.perms); n(x.t_on); n(x.t_recv); n(x.t_group); l(x.hpn); l(x.hon); l(x.hps); l(x.hos); l(x.nn); l(x.ns); n(x.lpriv); n(x.asker); n(x.ping_us); n(x.burst); n(x.pend.size()); for (auto &q : x.pend) put(q);
    }
    for (auto &x : g) { put(x.name); if (x.name.empty()) continue; put(x.topic); put(x.missing); put(x.bootmsg); n(x.vis); n(x.ctl); n(x.vol); n(x.mod); n(x.modtimeout); n(x.idleboot); n(x.idlemod); n(x.size); l(x.in); l(x.inr); l(x.is); l(x.isr); l(x.tn); l(x.tnr); }
    for (auto &e : db) { put(e.first); put(e.second); }
    for (auto &e : files) { put(e.first); put(e.second); }
    n(now_us); n(die); n(shutnote); n(loglevel); n(signons); n(boots); n(drops); n(idleboots); n(idlemods); n(start);
    uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
  }

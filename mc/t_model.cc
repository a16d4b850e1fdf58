// Per-property scenarios of the lock-step exploration: alphabets are chosen around one guarantee each and
// include the events that interact with it (renames, sign-offs, slot reuse, time, registration ...).
#include "msys.hh"
using namespace ms; using md::cut;
typedef std::vector<Scenario> Sc;
static std::vector<str> operator+(std::vector<str> a, const std::vector<str> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static str rep(const str &s, int n) { str o; while (n--) o += s; return o; }

// ------------------------------------------------------------------ C03 sign-off
static Registrar c03("C03", [](bool T) -> Sc {
  Sc r;
  { // everything a user can own, then the connection ends and somebody else gets the slot
    Conf a; a.pre = {"+alice x", "+bob x", "carol: "}; a.pre.pop_back();
    a.acts = {"bob /away gone %s", "bob /hush alice", "bob /hush -s -o *@h0*", "bob /notify dave", "bob /echoback verbose", "bob /nobeep on", "bob /p pw", "bob /m alice hi", "alice /m bob hi", "bob /ping alice", "alice ! m", "alice /ping bob", "alice /notify bob",
              "-bob", "#bob", "+dave x", "+bob x", "-dave", "dave : hello", "alice : hello", "alice /m dave yo", "dave /m alice yo", "alice /beep dave", "dave /whereis", "alice /whereis", "dave /hush", "dave /notify", "dave /away", "dave ! m", "alice /w", "+carol x"};
    r.push_back(sc("slot reuse after a user with settings leaves", T ? 7 : 6, a, T ? 27 : 23));
  }
  { // a user with every kind of setting is there from the start; its slot goes to connections that have not signed on yet
    Conf a; a.pre = {"+alice x", "+bob x", "bob /p pw", "bob /away gone %s", "bob /hush alice", "bob /hush -s *@h0*", "bob /notify *", "bob /notify -s *", "bob /echoback verbose", "bob /nobeep verbose", "bob /m alice hi", "alice /m bob hi", "bob /ping alice", "alice /ping bob", "bob /g y", "alice /notify bob"};
    a.acts = {"-bob", "#bob", "^bob", "^dave", "-dave", "dave ! ada|dave|x|login|", "dave ! ada|bob|x|login|", "dave ! ada|alice|x|login|", "dave ! ada|dave|x|w|", "+dave y", "+bob y", "+carol x", "-carol", "-alice", "+alice x", "alice : hi", "dave : hi", "alice /m dave yo", "dave /m alice yo", "alice /m bob yo", "alice /beep dave", "dave /beep alice", "dave ! m", "alice ! m", "dave /whereis", "alice /w", "dave /hush", "dave /notify", "dave /away", "dave /noaway", "dave /read", "dave /echoback on", "bob : hi"};
    r.push_back(sc("the slot of a user with every setting is taken over", T ? 6 : 5, a, T ? 27 : 23));
  }
  { // moderators, several groups, ends at every stage of the login
    Conf a; a.pre = {"+alice x", "+bob y", "+carol x"};
    a.acts = {"^dave", "dave : x", "dave /w", "dave ! m", "-dave", "#dave", "dave ! ada|dave|x|login|", "dave ! ada|dave|y|login|", "dave ! ada|bob|x|login|", "+dave x", "+dave y - d.d", "-alice", "#alice", "-bob", "-carol", "+alice x", "+bob x", "+carol y", "alice /g y", "bob /g x", "alice /w", "carol /w", "bob /w", "alice /notify dave", "alice /status q", "alice /status i", "bob /pass alice", "alice /p pw"};
    r.push_back(sc("ends at every stage of the login, moderators leaving", T ? 7 : 6, a, T ? 27 : 23));
  }
  { // simultaneous events
    Conf a; a.pre = {"+alice x", "+bob x", "+carol x", "+dave y", "bob /p pw"};
    a.acts = {"-alice & -bob", "#alice & #bob", "-bob & alice : hi", "bob : hi & -alice", "bob /m carol hi & -carol", "-dave & -carol", "carol /drop bob pw & bob : hi", "bob : last & -bob", "bob /g y & -bob", "bob /name rob & -bob", "alice /boot bob & -bob", "-alice & bob /pass carol", "-alice & carol /topic zz",
              "+alice x", "+bob y", "+dave x", "carol /w", "carol : any", "dave /w", "~1", "+carol y - - login -", "^alice", "-alice", "-alice & carol /g y"};
    r.push_back(sc("simultaneous events", T ? 7 : 6, a, T ? 27 : 23));
  }
  { // dropped by the server: by password, by the administrator, failed login; the victim's group hears it once
    Conf a; a.pre = {"+alice x", "+bob x", "bob /p pw", "+carol x adm_pw Admin"};
    a.acts = {"alice /drop bob pw", "alice /drop bob bad", "carol /drop bob", "carol /drop alice", "carol /drop carol", "alice /drop alice pw", "+bob x", "+bob x pw", "+dave x", "-dave", "alice /notify bob", "alice /w", "dave /w", "bob : hi", "alice : hi", "bob /ping alice", "alice ! m", "~1", "alice /stats", "+dave x - bob", "carol /drop server", "alice /drop nobody pw", "carol /drop dave"};
    r.push_back(sc("users dropped by the server", T ? 7 : 6, a, T ? 27 : 23));
  }
  return r;
});

// ------------------------------------------------------------------ C04 login
static Registrar c04("C04", [](bool T) -> Sc {
  Sc r;
  { // an unidentified connection tries everything
    Conf a; a.pre = {"+alice x", "+bob x", "alice /notify carol", "alice /notify -s *@h2*", "^carol"};
    a.acts = {"carol : hi", "carol /m alice hi", "carol /g x", "carol /w", "carol /beep alice", "carol /ping alice", "carol ! m", "carol ! n", "carol /topic t", "carol /name zed", "carol /drop alice", "carol /p pw", "carol /exclude bob hi", "carol /status r", "carol /invite bob", "carol /boot alice", "carol /write alice hi", "carol /away a %s", "carol /hush alice", "carol /notify alice", "carol ! c|alice|hi", "carol ! d", "carol ! j", "carol ! z", "carol /wall hi", "carol /shutdown 0", "carol /whereis alice", "carol /read", "carol /m server p pw",
              "alice : any", "alice /m carol hi", "alice /w", "alice /beep carol", "alice /ping carol", "alice /whereis carol", "carol ! aca|carol|x|login|", "carol ! aca|carol|y|login|", "carol ! aca|alice|x|login|", "carol ! aca|carol|x|w|", "-carol", "^carol"};
    r.push_back(sc("an unidentified connection tries everything", T ? 5 : 4, a, T ? 27 : 23));
  }
  { // all kinds of login packets
    Conf a; a.pre = {"+alice x", "+bob y", "bob /status r", "alice /status # 1 c", "bob /invite -s *@h3*", "bob /p bp", "bob /invite carol", "alice /notify -s *@h2*"};
    a.acts = {"+carol y", "+carol x", "+carol z", "+carol -", "+carol 1", "+carol .z", "+carol ..z", "+carol . ", "+carol .. ", "+carol @alice", "+carol @bob", "+carol @nobody", "+carol ICB", "+carol z - alice", "+carol z - ALICE", "+carol z - server", "+carol z - admin", "+carol z adm_pw admin", "+carol z ADM_PW aDmin", "+carol z bad admin", "+carol z - -", "+carol z - abcdefghijkl", "+carol z - abcdefghijklm", "+carol z - a%b", "+carol z - al\x01ice", "+carol z - a\xc3\xa9",
              "+carol z - - login -", "+carol z - carol login abcdefghijkl", "+carol z - carol login abcdefghijklm", "+carol z - carol login a-b", "+carol z - carol login a\xc3\xa9", "+carol z - carol LOGIN", "+carol z - carol w", "+carol y - carol wg", "+carol q - carol wg", "+carol - - carol wg", "+carol @bob - carol wg", "+carol z - carol foo", "+carol z - carol -", "+carol abcdefghijklmnopqrst",
              "^carol", "carol ! a", "carol ! aca", "carol ! aca|carol|z", "carol ! aca|carol|z|login", "carol ! aca|carol|z|login||extra|extra", "carol ! aca|a b|z|login|", "carol /w", "alice /w", "bob /w", "-carol", "carol ! aca|karl|y|login|", "+dave z - carol", "+dave y", "carol : hi", "alice /status p", "-alice", "-bob"};
    r.push_back(sc("all kinds of login packets", T ? 5 : 4, a, T ? 27 : 23));
  }
  { // login and more in one go; two logins for one nickname at once
    Conf a; a.pre = {"+alice x", "^bob", "^carol"};
    a.acts = {"bob ! abo|zed|x|login| & carol ! aca|zed|x|login|", "bob ! abo|zed|x|login| & carol ! aca|ZED|y|login|", "bob ! abo|alice|x|login| & bob : spam", "bob ! abo|bob|x|login| & bob : hi", "bob ! abo|bob|x|login| & bob ! abo|rob|x|login|", "bob ! abo|bob|x|login| & -bob", "bob ! abo|alice|x|login| & -bob", "bob ! abo|alice|x|login| & bob ! abo|bob|x|login|", "carol ! aca|bob|x|login| & -alice", "carol ! aca|alice|x|login| & -alice", "carol ! aca|alice|x|login| & alice /name al", "carol ! aca|al|x|login| & alice /name al", "carol ! aca|carol|x|login| & alice : hi", "carol ! aca|carol|x|login|", "carol ! abo|bob|x|login|", "^bob", "^carol", "-bob", "-carol", "alice /w", "alice /m bob hi", "alice /m zed hi", "bob : x", "carol : x"};
    r.push_back(sc("simultaneous logins", T ? 6 : 5, a, T ? 27 : 23));
  }
  return r;
});
// ------------------------------------------------------------------ C05 nicknames
static Registrar c05("C05", [](bool T) -> Sc {
  Sc r;
  { Conf a; a.pre = {"+alice x", "+bob y", "carol /x"}; a.pre.pop_back();
    a.acts = {"alice /name bob", "alice /name BOB", "alice /name Alice", "alice /name al", "alice /name a b", "alice /name a_b", "bob /name a b", "bob /name a%b", "bob /name a?b", "bob /name alice", "bob /name al", "alice /name abcdefghijklmnop", "bob /name abcdefghijkl", "bob /name ABCDEFGHIJKLZ", "alice /name", "alice /name admin", "alice /name ADMIN", "alice /name server", "alice /name Server", "alice /name ~~", "alice /name a|b", "+carol x", "+carol x - al", "+carol x - AL", "+carol x - a.b", "+carol x - a_b", "+carol x - Abcdefghijkl", "-alice", "-bob", "-carol", "+alice x", "+bob x",
              "carol /m al hi", "carol /m alice hi", "bob /m a_b hi", "carol /w", "bob /whereis al", "carol /name alice", "bob /g x"};
    r.push_back(sc("renames and logins compete for names", T ? 6 : 5, a, T ? 28 : 23)); }
  { // registration and rights around renames
    Conf a; a.pre = {"+alice x", "+bob x", "+carol y", "alice /p apw", "bob /p bpw", "alice /status r"};
    a.acts = {"alice /name zed", "alice /name alice", "alice /name bob", "bob /name alice", "bob /name bob", "bob /name rob", "bob /p apw", "bob /p bpw", "alice /p apw", "-alice", "+alice x", "+alice y", "+carol x - alice", "-carol", "carol /name alice", "carol /name bob", "carol /p apw", "carol /g x", "alice /invite bob", "alice /invite -r carol", "carol /p cpw", "carol /name carol", "alice /w", "carol /w", "alice /topic t", "carol /m alice hi", "carol /m zed hi", "alice /secure", "alice /g y", "bob /g x", "carol /rname Caz", "bob /whois alice", "~301"};
    r.push_back(sc("registration and rights around renames", T ? 6 : 5, a, T ? 28 : 24)); }
  { // renames seen by lists that hold names
    Conf a; a.pre = {"+alice x", "+bob x", "+carol x"};
    a.acts = {"alice /hush bob", "alice /hush rob", "alice /notify rob", "alice /notify bob", "bob /name rob", "bob /name bob", "carol /name bob", "carol /name rob", "carol /name carol", "bob : hi", "carol : hi", "bob /m alice psst", "carol /m alice psst", "alice /m rob hi", "alice /m bob hi", "alice /m carol hi", "-bob", "-carol", "+carol x", "alice /beep rob", "alice /exclude rob hi", "alice /status c", "alice /talk rob", "alice /talk bob", "alice /whereis rob", "alice /boot rob", "alice /pass rob", "carol /name rob & bob /name rob", "carol /name zed & bob /name ZED", "alice /w"};
    r.push_back(sc("renames seen by lists that hold names", T ? 6 : 5, a, T ? 28 : 24)); }
  return r;
});
// ------------------------------------------------------------------ C06 open messages
static const str L230 = rep("0123456789", 23);
static Registrar c06("C06", [](bool T) -> Sc {
  Sc r;
  { Conf a; a.pre = {"+alice x", "+bob x", "+carol X", "+dave y"};
    a.acts = {"alice : hello", "bob : hello there %s %d", "carol : c", "dave : d", "alice /exclude bob not you", "alice /exclude BOB hi", "alice /exclude dave hi", "alice /exclude nobody hi", "bob /exclude alice x", "bob /exclude bob hi", "alice /exclude bob", "alice /exclude", "bob /hush alice", "bob /hush -o alice", "bob /hush -p alice", "bob /hush -o ali*", "carol /hush -o -s *@h1*", "carol /hush -o -s al@*", "alice /echoback on", "alice /echoback verbose", "alice /echoback off", "bob /g y", "dave /g x", "alice /g y", "-bob", "+bob x", "carol /name alice2", "alice /name zed", "alice /status q", "alice /status n", "alice /status c", "alice /talk bob", "alice /away brb %s", "alice /noaway", "alice : ", "alice ! bhello|extra", "alice /status name y2", "alice /w"};
    r.push_back(sc("open messages, exclusions, hushes, echo, group changes", T ? 6 : 5, a, T ? 28 : 24)); }
  { // group 1: spam protection
    Conf a; a.pre = {"+alice 1", "+bob 1", "+carol x"};
    a.acts = {"alice : one", "bob : b", "alice /exclude bob hi", "~1", "~0.5", "alice /g x", "alice /g 1", "carol /g 1", "alice /m bob hi", "-alice", "+alice 1", "alice /away gone %s", "alice /echoback on", "bob /hush alice", "alice /w", "alice ! n", "alice : a & bob : b", "alice /hush", "carol : x", "alice /name 1"};
    r.push_back(sc("group 1 and its spam protection", T ? 7 : 6, a, T ? 28 : 24)); }
  { // text: lengths and bytes
    Conf a; a.pre = {"+alice x", "+bob x", "bob /echoback verbose"};
    for (int n : {0, 1, 229, 230, 238, 239, 240, 241, 242, 250, 251}) a.acts.push_back("alice : " + cut(L230 + L230, n));
    for (const char *t : {"\xc3\xa9", "a\xc3", "\xe2\x82\xac uro", "\xf0\x9f\x98\x80", "\x80", "tab\there", "esc\x1b[1m", "\x7f", "\xff\xfe", "\xed\xa0\x80", "100%", "%n%n", "a\nb", "'\"\\"}) { a.acts.push_back(str("alice : ") + t); a.acts.push_back(str("alice /exclude carol ") + t); }
    for (int n : {236, 237, 238, 239, 240}) a.acts.push_back("alice : " + cut(L230 + L230, n) + "\xe2\x82\xac");
    a.acts = a.acts + std::vector<str>{"bob : back", "alice /name abcdefghijkl"};
    r.push_back(sc("text of all kinds and lengths", T ? 4 : 3, a)); }
  return r;
});
// ------------------------------------------------------------------ C07 controlled groups
static Registrar c07("C07", [](bool T) -> Sc {
  Sc r;
  { Conf a; a.pre = {"+alice x", "+bob x", "+carol x", "bob /p bp", "alice /status c"};
    a.acts = {"bob : hi", "carol : hi", "alice : hi", "bob /exclude alice hi", "carol /exclude bob hi", "alice /talk bob", "alice /talk -r bob", "alice /talk -a carol", "alice /talk -ar carol", "alice /talk -d bob", "alice /talk -d carol", "alice /talk -q bob", "alice /talk -qa carol", "alice /talk -qd bob", "alice /talk dave", "bob /talk bob", "bob /talk -d bob", "alice /talk", "alice /talk -x bob", "bob /name rob", "bob /name bob", "carol /name bob", "carol /name carol", "bob /p bp", "bob /delete bp", "carol /p cp", "-bob", "+bob x", "alice /pass bob", "alice /pass", "-alice", "alice /g y", "alice /status m", "alice /status c", "alice /status", "alice /status p", "carol /g y", "carol /g x", "+dave x", "bob /talk carol", "dave : x"};
    r.push_back(sc("talk permission", T ? 6 : 5, a, T ? 28 : 24)); }
  { // the list itself: two kinds of entries, replacing, several groups, moderator elsewhere
    Conf a; a.pre = {"+alice x", "+bob x", "+carol y", "alice /status c", "carol /status c", "carol /p cp"};
    a.acts = {"alice /talk bob", "alice /talk -a bob", "alice /talk -a -r bob", "alice /talk -a -r carol", "alice /talk -a x1", "alice /talk -ar x1", "alice /talk X1", "alice /talk -d x1", "alice /talk -d BOB", "alice /status", "carol /talk bob", "carol /talk -a alice", "bob /g y", "bob /g x", "carol /g x", "carol /g y", "alice /g y", "alice /g x", "bob : hi", "carol : hi", "alice : hi", "-carol", "+carol x", "+carol y", "bob /p bp", "-bob", "+bob x", "+bob y - bob", "bob /whereis alice", "bob /name x1", "-alice", "+alice x", "~301"};
    r.push_back(sc("talk lists of two groups", T ? 6 : 5, a, T ? 28 : 24)); }
  return r;
});
// ------------------------------------------------------------------ C08 private messages
static Registrar c08("C08", [](bool T) -> Sc {
  Sc r;
  { Conf a; a.pre = {"+alice x", "+bob y", "+carol x"};
    a.acts = {"alice /m bob hi", "alice /m BOB hi there", "alice /m alice me", "alice /m nobody hi", "alice /m", "alice /m bob", "alice /m bob  two spaces ", "carol /m bob c", "bob /m alice back", "bob /hush alice", "bob /hush -p alice", "bob /hush -o alice", "bob /hush -p -s al@*", "bob /hush -p ca*", "alice /echoback verbose", "alice /echoback on", "alice /echoback off", "bob /away lunch %s", "bob /away %% %s %%", "bob /noaway", "bob /echoback verbose", "alice /away out %s", "~10", "~11", "~1", "bob /name rob", "alice /m rob hi", "carol /name bob", "-bob", "+bob x", "bob /g x", "alice /beep bob", "bob /whereis", "-alice", "+alice x", "alice /m server ?", "alice /m Server zork", "alice /m bob a|b"};
    r.push_back(sc("private messages, hushes, echo and away", T ? 6 : 5, a, T ? 28 : 24)); }
  { // away answers only: who was told when
    Conf a; a.pre = {"+alice x", "+bob x", "+carol x", "bob /away gone %s"};
    a.acts = {"alice /m bob hi", "carol /m bob hi", "alice /beep bob", "carol /beep bob", "~9", "~1", "~2", "bob /away again %s", "bob /noaway", "bob /away gone %s", "-alice", "+alice x", "+dave x", "dave /m bob hi", "bob /m alice hi", "bob /m bob self", "bob /hush alice", "bob /nobeep on", "bob : open", "bob /echoback verbose"};
    r.push_back(sc("away answers", T ? 8 : 6, a, T ? 28 : 24)); }
  { Conf a; a.pre = {"+alice x", "+bob x", "alice /echoback verbose"};
    for (int n : {0, 1, 228, 229, 238, 239, 240, 241, 244, 245, 246}) a.acts.push_back("alice /m bob " + cut(L230 + L230, n));
    for (const char *t : {"\xc3\xa9", "a\xc3", "\xe2\x82\xac uro", "\xf0\x9f\x98\x80", "\x80", "tab\there", "esc\x1b[1m", "\x7f", "\xff\xfe", "100%", "%n%s%n", "a\nb"}) a.acts.push_back(str("alice /m bob ") + t);
    for (int n : {236, 237, 238, 239}) a.acts.push_back("alice /m bob " + cut(L230 + L230, n) + "\xe2\x82\xac");
    for (int n : {62, 63, 64, 65, 100}) a.acts.push_back("alice /m " + cut(L230, n) + " hi");
    a.acts = a.acts + std::vector<str>{"bob /away %s" + L230, "bob /away %s\xe2\x82\xac", "bob /away 100%", "bob /away %s%s", "alice /name abcdefghijkl"};
    r.push_back(sc("text of all kinds and lengths", T ? 4 : 3, a)); }
  return r;
});
// ------------------------------------------------------------------ C09 listings
typedef std::vector<str> V9;
static Registrar c09("C09", [](bool T) -> Sc {
  Sc r;
  std::vector<str> look = {"alice /w", "alice /w -g", "alice /w -s", "alice /w x", "alice /w -s x", "alice /w @bob", "alice /w .", "bob /w", "bob /w .", "alice /whereis bob", "alice /status", "alice /stats", "bob /w -g x", "alice /w nope", "alice /w ?", "alice /W -S X"};
  { Conf a; a.pre = {"+alice x", "+bob x", "carol /"}; a.pre.pop_back(); a.roles[2].tls = false;
    a.acts = look + std::vector<str>{"+carol x", "+carol y", "+carol .y", "+dave 1", "-alice", "-bob", "-carol", "+alice x", "+bob y", "alice /g y", "bob /g y", "bob /g x", "carol /g x", "alice /topic hot", "alice /status r", "alice /status s", "alice /status q", "alice /status name z", "alice /pass bob", "alice /name al", "bob /away a %s", "bob /p bp", "~5", "~61", "~3600"};
    r.push_back(sc("listings after every history", T ? 5 : 4, a, T ? 28 : 24)); }
  { // groups come and go: nothing of the earlier group may be left
    Conf a; a.pre = {"+alice x", "+bob y"};
    a.acts = {"alice /topic old topic", "alice /status r", "alice /status i", "alice /status c", "alice /status q", "alice /status # 1", "alice /status b 5", "alice /status im 5", "alice /status idlebootmsg %s is away", "alice /invite bob", "alice /invite -s *", "alice /invite -r bob", "alice /talk bob", "alice /g y", "alice /g x", "bob /g x", "bob /g y", "bob /status", "bob /w", "bob : hi", "alice : hi", "-alice", "+alice x", "+alice y", "alice /w x", "bob /invite", "bob /status r", "alice /status", "alice /pass bob", "alice /p ap", "~301", "~3601"};
    r.push_back(sc("a group's name is used afresh", T ? 7 : 6, a, T ? 28 : 25)); }
  { // listings over TLS and longer member lists
    Conf a; a.tls = true; a.roles[1].tls = true; a.roles[3].tls = true; for (int i = 0; i < 4; i++) a.roles.push_back({"user" + std::to_string(i) + "long", "u" + std::to_string(i), i});
    a.pre = {"+alice x", "+bob x", "+user0long x", "+user1long x", "+user2long y"};
    a.acts = {"alice /w", "alice /w -s", "bob /w .", "+user3long x", "+carol x", "+dave x", "-bob", "-user0long", "bob /away x %s", "bob /g y", "bob /name abcdefghijkl", "alice /name ABCDEFGHIJK", "~2", "carol /w -s x", "dave /g .s", "user0long /g y", "+bob y", "user1long /p u", "alice /w y", "dave /w"};
    r.push_back(sc("encrypted connections and long member lists", T ? 6 : 5, a, T ? 28 : 24)); }
  { // lines of the short listing broken at every place, names with commas
    Conf a; a.roles = {{"abcdefghijk0", "u0", 0}, {"abcdefghijk1", "u1", 1}, {"abcdefghijk2", "u2", 2}, {"abcdefghijk3", "u3", 3}, {"p", "u4", 0}, {"q", "u5", 1}, {"watch", "wa", 2}};
    a.pre = {"+watch w", "+abcdefghijk0 x", "+abcdefghijk1 x", "+abcdefghijk2 x", "+p x", "+q x"};
    for (str w : {"p", "q"}) for (int n = 1; n <= 12; n++) for (str f : {"", ","}) { str k = f + str(n, w == "p" ? 'm' : 'n'); a.acts.push_back(w + " /name " + k.substr(0, n)); }
    a.acts = a.acts + V9{"p /name ,n,", "q /name -,", "+abcdefghijk3 x", "-abcdefghijk0", "-p", "p /g w", "-abcdefghijk2"};
    a.probes = {"watch /w -s ;; watch /w -s x"};
    r.push_back(sc("short listings broken at every place", T ? 4 : 3, a, T ? 26 : 22)); }
  return r;
});
// ------------------------------------------------------------------ C10 admission
static Registrar c10("C10", [](bool T) -> Sc {
  Sc r;
  { Conf a; a.pre = {"+alice x", "+bob y", "+carol z", "carol /p cp", "alice /status r"};
    a.acts = {"bob /g x", "carol /g x", "bob /g y", "carol /g z", "alice /invite bob", "alice /invite -r bob", "alice /invite -r carol", "alice /invite -s *@h1*", "alice /invite -s -r *@h2*", "alice /invite -s -r BO@*", "alice /invite -s BO@*", "alice /invite -q bob", "alice /invite", "alice /cancel bob", "alice /cancel carol", "alice /cancel -s *@h1*", "alice /cancel -s *@h2*", "alice /cancel -q bob", "alice /cancel nobody", "bob /invite bob", "bob /cancel bob", "bob /p bp", "bob /name rob", "bob /name bob", "alice /status m", "alice /status r", "alice /status p", "alice /boot bob", "alice /boot carol", "-bob", "+bob x", "+bob y", "-alice", "+alice x", "alice /pass bob", "alice /g y", "alice /g x", "+dave x", "carol /invite dave", "alice /name al"};
    r.push_back(sc("restricted groups and invitations", T ? 6 : 5, a, T ? 28 : 25)); }
  { Conf a; a.pre = {"+alice x", "+bob y", "+carol z", "alice /status # 2"};
    a.acts = {"bob /g x", "carol /g x", "+dave x", "-dave", "bob /g y", "carol /g z", "alice /status # 1", "alice /status # 0", "alice /status # 3", "alice /status # -1", "alice /status # 99", "alice /status c", "alice /status r", "alice /status p", "alice /status m", "alice /status n", "alice /status q", "alice /g y", "alice /g x", "alice /pass bob", "alice /hush -p bob", "alice /hush -p -s *@h3*", "alice /whereis", "-alice", "+alice x", "alice /invite carol", "alice /status", "alice /status name w", "bob /g w", "alice /boot bob", "alice /invite -s *@h1*", "alice /invite -r bob", "alice /invite -s -r *@h?.test", "alice /invite bob", "alice /cancel bob", "bob /p bp"};
    r.push_back(sc("size limits", T ? 6 : 5, a, T ? 28 : 25)); }
  { // the administrator and moves made by the server
    Conf a; a.pre = {"+alice x", "+bob x", "+carol z adm_pw Admin", "alice /status r"};
    a.acts = {"carol /g x", "carol /g z", "carol /name carol", "carol /name Admin", "bob /g x", "bob /g z", "alice /boot bob", "bob /g ~RESEDA~", "alice /boot carol", "bob /g ICB", "carol /g ICB", "bob /g 1", "bob : s", "bob : t", "+dave ~RESEDA~", "dave /g x", "dave /status r", "dave /topic t", "dave /invite bob", "alice /invite dave", "alice /cancel bob", "alice /pass carol", "~1", "alice /status b 1", "~61", "bob /w"};
    r.push_back(sc("the administrator and users moved by the server", T ? 6 : 5, a, T ? 28 : 25)); }
  return r;
});
// ------------------------------------------------------------------ C11 moderator powers
static Registrar c11("C11", [](bool T) -> Sc {
  Sc r;
  auto powers = [](const str &n) { std::vector<str> v; for (const char *p : {"/status r", "/status m", "/status c", "/status p", "/status i", "/status s", "/status v", "/status q", "/status n", "/status l", "/status # 5", "/status b 7", "/status b 0", "/status b -1", "/status im 90", "/status im 0", "/status im 241", "/status idlebootmsg %s leaves", "/status idlebootmsg none", "/status name foo", "/status name y", "/status name 1", "/topic T", "/boot bob", "/boot carol", "/pass bob", "/pass", "/invite dave", "/cancel dave", "/talk bob", "/talk -d bob", "/status i q foo r", "/status ?"}) v.push_back(n + " " + p); return v; };
  { Conf a; a.pre = {"+alice x", "+bob x", "+carol y"};
    a.acts = powers("alice") + powers("bob") + std::vector<str>{"bob /status", "-alice", "carol /g x", "bob /topic", "alice /topic", "alice /g y", "carol /status p", "carol /boot bob", "carol /pass bob"};
    r.push_back(sc("every power, by the moderator and by a member", T ? 5 : 4, a, T ? 28 : 24)); }
  { // no moderator; absent moderator; administrator; built-in groups
    Conf a; a.pre = {"+alice x", "+bob x", "alice /p ap", "alice /pass"};
    a.acts = powers("bob") + std::vector<str>{"bob /g x", "alice /pass bob", "alice /status r", "alice /status c", "bob /status", "-alice", "+alice x", "~301", "+dave x"};
    r.push_back(sc("group without a moderator", T ? 5 : 4, a, T ? 28 : 24)); }
  { Conf a; a.pre = {"+alice 1", "+bob x", "+carol 1 adm_pw Admin"};
    std::vector<str> c; for (auto &p : powers("carol")) c.push_back(p);
    a.acts = c + std::vector<str>{"carol /g x", "carol /g 1", "alice /g x", "alice /g ~IDLE~", "carol /g ~idle~", "alice /status q", "alice /status name zz", "alice /topic T", "carol /g ICB", "bob /status r", "bob /invite alice", "bob /boot Admin", "bob /pass server", "bob /boot server", "bob /status", "alice /status", "alice /g ~RESEDA~", "bob /pass alice", "carol /boot alice", "carol /pass alice"};
    r.push_back(sc("the administrator and the built-in groups", T ? 5 : 4, a, T ? 28 : 24)); }
  { // who holds the power after it moved
    Conf a; a.pre = {"+alice x", "+bob x", "+carol y"};
    a.acts = {"alice /pass bob", "bob /pass alice", "bob /pass carol", "carol /pass bob", "alice /pass carol", "alice /topic A", "bob /topic B", "carol /topic C", "alice /status q", "bob /status r", "carol /status c", "bob /boot alice", "alice /boot bob", "carol /g x", "carol /g y", "alice /g y", "alice /g x", "-alice", "+alice x", "-bob", "+bob x", "alice /invite carol", "bob /invite carol", "bob /status p", "alice /status", "carol /pass nobody", "alice /status name y2", "carol /status name x", "alice /pass", "bob /talk carol"};
    r.push_back(sc("power follows the moderation", T ? 6 : 5, a, T ? 28 : 25)); }
  return r;
});
// ------------------------------------------------------------------ C12 succession
static Registrar c12("C12", [](bool T) -> Sc {
  Sc r;
  { Conf a; a.pre = {"+alice x", "~1", "+bob x", "~1", "+carol x", "alice /p ap"};
    a.acts = {"-alice", "-bob", "-carol", "+alice x", "+alice y", "+alice y - alice login zz", "+alice y ap alice login zz", "alice /p ap", "bob : b", "carol : c", "bob /away b %s", "carol /away c %s", "bob /name alice", "carol /name alice", "bob /p ap", "~1", "~299", "~300", "~301", "bob /w", "bob /status", "bob /topic T", "carol /topic U", "alice /name zed", "alice /name alice", "alice /g y", "bob /g y", "carol /g y", "alice /status q", "alice /pass bob", "alice /secure", "+dave x", "bob /pass carol", "dave : d", "+dave y ap alice"};
    r.push_back(sc("a moderator leaves and returns", T ? 6 : 5, a, T ? 28 : 25)); }
  { // idle moderators
    Conf a; a.pre = {"+alice x", "+bob x", "+carol y", "alice /status im 2 b 0"};
    a.acts = {"~60", "~61", "~119", "~120", "~121", "~1", "alice ! n", "alice : a", "bob : b", "bob /m alice hi", "bob /away b %s", "bob /noaway", "carol /g x", "carol /g y", "carol : c", "alice /g y", "alice /g x", "alice /status q", "alice /status p", "alice /status r", "bob /w", "-bob", "-alice", "+alice x", "alice /m bob me", "bob ! m", "bob /status im 1", "bob /pass alice", "alice /w x"};
    r.push_back(sc("idle moderators", T ? 6 : 5, a, T ? 28 : 25)); }
  { // moderator of several groups, of groups they are not in
    Conf a; a.pre = {"+alice x", "+bob x", "alice /g y", "+carol y", "alice /p ap"};
    a.acts = {"-alice", "+alice x", "+alice z", "alice /g x", "alice /g y", "alice /g z", "bob /g y", "carol /g x", "-bob", "-carol", "+bob x", "+carol y", "alice /pass bob", "alice /pass carol", "alice /delete ap", "alice /name al", "bob /w", "carol /w", "carol /topic t", "bob /topic t", "alice /status p", "alice /status q", "alice /status c", "bob : x", "~301", "~3601", "alice /pass", "bob /name alice", "bob /p ap"};
    r.push_back(sc("moderator of several groups", T ? 6 : 5, a, T ? 28 : 25)); }
  return r;
});
// ------------------------------------------------------------------ C13 secrecy
static Registrar c13("C13", [](bool T) -> Sc {
  Sc r;
  Conf a; a.pre = {"+alice x", "+bob y", "+carol x"};
  a.acts = {"alice /status s", "alice /status i", "alice /status v", "alice /status r", "alice /invite bob", "alice /invite -r bob", "alice /invite -s *@h1*", "alice /cancel bob", "alice /invite -s -r *@h1*", "bob /w", "bob /w -g", "bob /w -s", "bob /w x", "bob /w @alice", "bob /w @carol", "bob /whereis alice", "bob /g @alice", "bob /g y", "bob /p bp", "bob /notify alice", "bob /notify -s *@h2*", "-alice", "-carol", "+alice ..x", "+alice .x", "+carol x", "+carol @alice", "+carol ..z", "alice /g ..z", "alice /g .z", "alice /g x", "bob /name ADMIN", "bob /name admin", "+dave @alice", "+dave x - - wg", "+dave - - - w", "+dave y adm_pw ADMIN", "dave /w", "dave /w @alice", "carol /w"};
  r.push_back(sc("secret and invisible groups", T ? 6 : 5, a, T ? 28 : 25));
  return r;
});
// ------------------------------------------------------------------ C14 notifications
static Registrar c14("C14", [](bool T) -> Sc {
  Sc r;
  { Conf a; a.pre = {"+alice x", "+bob y"};
    a.acts = {"alice /notify carol", "alice /notify -q carol", "alice /notify -s *@h2*", "alice /notify -s -q ca@h2.test", "alice /notify c*", "alice /notify CAROL", "alice /notify -n bob", "alice /notify", "alice /notify -x", "alice /notify -n -s q", "bob /notify carol", "bob /notify dave", "bob /notify alice", "+carol x", "+carol ..z", "+carol .z", "+carol y - cyd", "-carol", "#carol", "carol /name cyd", "carol /name carol", "carol /status i", "carol /g ..q", "carol /g y", "+dave y", "+dave x - carol", "-dave", "-alice", "+alice x", "+carol x - bob", "bob /name carol", "^carol", "-bob", "+bob x", "carol /notify"};
    r.push_back(sc("watches and arrivals", T ? 6 : 5, a, T ? 28 : 25)); }
  { // full list
    Conf a; a.pre = {"+alice x", "+bob y"};
    for (int i = 0; i < 38; i++) a.pre.push_back("alice /notify -q n" + std::to_string(i));
    for (int i = 0; i < 38; i++) a.pre.push_back("alice /notify -qs s" + std::to_string(i));
    a.acts = {"alice /notify carol", "alice /notify n0", "alice /notify n37", "alice /notify n20", "alice /notify extra1", "alice /notify extra2", "alice /notify -s *@h2*", "alice /notify -s s0", "alice /notify -s x1", "alice /notify -s x2", "+carol x", "-carol", "alice /notify", "+dave x - n0", "-dave"};
    r.push_back(sc("full lists", T ? 6 : 5, a, T ? 28 : 23)); }
  return r;
});
// ------------------------------------------------------------------ C15 registration
static Registrar c15("C15", [](bool T) -> Sc {
  Sc r;
  { Conf a; a.db = true; a.pre = {"+alice x", "+bob x"};
    a.acts = {"alice /p pw", "alice /p bad", "alice /p", "alice /p abcdefghijklm", "alice /p abcdefghijkl", "alice /m server p pw", "alice /cp pw new", "alice /cp bad new", "alice /cp pw", "alice /cp new pw", "alice /p new", "alice /secure", "alice /nosecure", "alice /delete pw", "alice /delete bad", "alice /delete new", "alice /delete", "alice /rname Real", "alice /phone 555", "alice /whois alice", "bob /whois ALICE", "bob /p pw", "bob /name alice", "bob /name bob", "bob /delete pw", "bob /cp pw new", "bob /rname Bobby", "bob /secure", "-alice", "+alice x", "+alice x pw", "+alice x bad", "+alice x - - login other", "+alice x pw - login other", "+alice x new ALICE", "alice /name zed", "alice /name alice", "alice /name ALICE", "bob /w", "~60"};
    r.push_back(sc("passwords, secure marks, deletion, renaming", T ? 6 : 5, a, T ? 28 : 25)); }
  { // same nickname from different addresses
    Conf a; a.db = true; a.roles = {{"alice", "al", 0}, {"mallory", "al", 1}, {"twin", "al", 0}, {"eve", "ev", 0}};
    a.pre = {"+alice x", "alice /p pw", "-alice"};
    a.acts = {"+alice x", "+mallory x - alice", "+twin x - alice", "+eve x - alice", "+eve x pw alice", "+mallory x pw Alice", "+mallory x bad alice", "+mallory x", "mallory /name alice", "mallory /p pw", "mallory /p bad", "mallory /p", "mallory /cp pw new", "mallory /cp bad new", "mallory /secure", "mallory /rname M", "mallory /delete pw", "mallory /read", "mallory /w", "-mallory", "-twin", "-eve", "-alice", "alice /secure", "alice /nosecure", "alice /cp pw new", "alice /whois alice", "alice /write alice hi", "eve /whois alice", "eve /rname E", "eve /cp pw new", "eve /p pw"};
    r.push_back(sc("one nickname, several addresses", T ? 6 : 5, a, T ? 28 : 25)); }
  { // personal data
    Conf a; a.db = true; a.pre = {"+alice x", "+bob x", "alice /p pw", "bob /p pw"};
    str L = rep("abcdefghi ", 25), W = rep("w", 250);
    for (auto &f : std::vector<std::pair<str, int>>{{"rname", 25}, {"phone", 14}, {"addr", 79}, {"email", 60}, {"www", 80}, {"text", 200}}) {
      a.acts.push_back("alice /" + f.first); a.acts.push_back("alice /" + f.first + " short " + f.first);
      for (int d : {0, 1, 20}) a.acts.push_back("alice /" + f.first + " " + cut(L, f.second + d));
    }
    for (auto &t : std::vector<str>{cut(L, 61), cut(L, 62), cut(L, 63), cut(L, 64), cut(L, 130), cut(W, 61), cut(W, 62), cut(W, 63), cut(W, 130), cut(W, 200), "a b " + cut(W, 100), cut(W, 30) + " " + cut(W, 100)}) a.acts.push_back("alice /text " + t);
    a.acts = a.acts + std::vector<str>{"alice ! haddr|one\x7ctwo\x7cthree", "bob /rname B", "bob /text hello", "alice /whois alice", "bob /whois alice", "bob /whois bob", "alice /whois", "alice /whois nobody", "alice /whois abcdefghijklm", "alice /m server rname Via Message", "alice /rname \xc3\xa9\x01", "alice /info", "alice /whois server", "-alice", "+alice x", "alice /delete pw", "alice /p pw2", "alice /name al", "alice /email %s%n"};
    r.push_back(sc("personal data", T ? 5 : 4, a, T ? 28 : 24)); }
  return r;
});
// ------------------------------------------------------------------ C16 mailbox
static Registrar c16("C16", [](bool T) -> Sc {
  Sc r;
  { Conf a; a.db = true; a.pre = {"+alice x", "+bob x", "+carol y", "alice /p ap", "bob /p bp"};
    a.acts = {"alice /write bob one", "alice /write BOB two words", "bob /write alice back", "carol /write bob spam", "carol /p cp", "alice /write carol hey", "alice /write nobody hi", "alice /write bob", "alice /write", "bob /read", "alice /read", "carol /read", "carol /name bob", "carol /p bp", "-bob", "+bob x", "+bob x - - login other", "+bob x bp - login other", "bob /name rob", "bob /name bob", "bob /delete bp", "bob /p bp", "bob /secure", "bob /m server read", "alice /m server write bob via server", "alice /name al", "~61", "bob /p bad", "alice /write bob \xc3\xa9\xff\x07", "alice /write alice self", "bob /cp bp b2"};
    r.push_back(sc("writing, reading, who may", T ? 6 : 4, a, T ? 28 : 25)); }
  { // nearly full mailbox
    Conf a; a.db = true; a.pre = {"+alice x", "+bob x", "alice /p ap", "bob /p bp"};
    for (int i = 1; i <= 18; i++) a.pre.push_back("alice /write bob m" + std::to_string(i));
    a.acts = {"alice /write bob last", "bob /write bob own", "bob /read", "-bob", "+bob x", "bob /delete bp", "bob /p bp", "alice /write alice x", "alice /read", "bob /name rob", "bob /name bob", "~60", "alice /write bob " + L230};
    r.push_back(sc("full mailbox", T ? 8 : 6, a, T ? 28 : 24)); }
  return r;
});
// ------------------------------------------------------------------ C21 administration
static Registrar c21("C21", [](bool T) -> Sc {
  Sc r;
  { Conf a; a.pre = {"+alice x", "+bob x", "bob /p bp"};
    a.acts = {"+carol x adm_pw ADMIN", "+carol x adm_pw admin", "+carol x adm_p ADMIN", "+carol x ADM_PW admin", "+carol x adm_pwx admin", "+carol x - Admin", "+carol x adm_pw", "-carol", "^dave", "dave ! ada|admin|x|login|adm_pw", "dave ! ada|dave|x|login|", "dave /wall early",
              "alice /name admin", "carol /name ADMIN", "carol /name carol", "alice /name ADMINX", "alice /p adm_pw", "carol /p adm_pw", "carol /p other",
              "alice /wall hi", "carol /wall hello all", "carol ! hwall", "alice /drop bob", "alice /drop bob bp", "alice /drop bob bad", "alice /drop BOB bp extra", "alice /drop bob adm_pw", "alice /drop carol adm_pw", "bob /drop bob bp", "carol /drop bob", "carol /drop nobody", "carol /drop carol", "alice /drop nobody x", "alice ! hdrop",
              "alice /restart", "alice /restart quiet", "carol /restart", "carol /restart quiet", "carol ! hrestart", "alice /log 3", "carol /log", "carol /log 2", "carol /log -1", "alice /log", "alice /stats reset", "carol /stats reset", "alice /stats", "bob /cp bp adm_pw", "carol /log 5 extra", "carol /log x", "carol /log 0 0 0", "carol /shutdown 5 extra", "carol /drop bob x y", "carol ! hlog|2|3", "carol ! hwall|a|b"};
    r.push_back(sc("authority", T ? 6 : 5, a, T ? 28 : 25)); }
  { // scheduled shutdown
    Conf a; a.pre = {"+alice x", "+carol x adm_pw ADMIN"};
    a.acts = {"alice /shutdown 1", "carol /shutdown 1", "carol /shutdown 2", "carol /shutdown 7 maintenance", "carol /shutdown 301", "carol /shutdown 302", "carol /shutdown 0", "carol ! hshutdown", "alice /shuttime", "carol /shuttime", "~1", "~59", "~60", "~61", "~119", "~120", "~121", "~17759", "~17760", "+bob x", "^bob", "-carol", "+carol x adm_pw ADMIN", "carol /name carol", "alice : hi"};
    r.push_back(sc("scheduled shutdown", T ? 6 : 5, a, T ? 27 : 25)); }
  { // who is the administrator after renames, passwords and slot reuse
    Conf a; a.pre = {"+alice x", "+bob x", "+carol y adm_pw ADMIN"};
    a.acts = {"carol /name carol", "carol /name admin", "carol /name ADMIN", "carol /p cp", "carol /p adm_pw", "-carol", "#carol", "+dave x", "+dave x - ADMIN", "+dave x adm_pw", "+dave x adm_pw ADMIN", "-dave", "dave /name ADMIN", "alice /name ADMIN", "alice /name admin", "alice /p adm_pw", "alice /cp adm_pw new", "alice /cp new adm_pw", "dave /wall d", "alice /wall a", "carol /wall c", "alice /drop bob", "dave /drop bob", "carol /drop bob", "+bob x", "dave /stats reset", "carol /boot bob", "carol /g x", "+carol x adm_pw carol", "carol /m admin hi", "alice /m ADMIN hi", "bob /whois admin", "~60"};
    r.push_back(sc("authority after renames and slot reuse", T ? 6 : 5, a, T ? 28 : 25)); }
  return r;
});
// ------------------------------------------------------------------ C22 idle users
static Registrar c22("C22", [](bool T) -> Sc {
  Sc r;
  { Conf a; a.pre = {"+alice x", "+bob x", "+carol y", "alice /status b 2"};
    a.acts = {"~1", "~60", "~119", "~120", "~121", "alice : a", "alice ! n", "alice ! l", "alice ! m", "alice /w x", "bob : b", "bob ! n", "bob ! hw|y", "bob /m alice hi", "bob /away gone", "carol /m bob hey", "carol /beep bob", "alice /status b 1", "alice /status b 0", "alice /status q", "alice /status idlebootmsg %s is out", "bob /g y", "bob /g x", "carol /g x", "carol /status b 1", "-alice", "-bob", "+bob x", "+dave x", "carol /w", "bob /g ~IDLE~", "carol : c", "alice /ping bob", "bob ! m"};
    r.push_back(sc("activity around the limit", T ? 6 : 5, a, T ? 29 : 26)); }
  { // several groups, limits and moderations at once; ~IDLE~ itself
    Conf a; a.pre = {"+alice x", "+bob y", "+carol x", "+dave y", "alice /status b 1", "bob /status b 2 r", "alice /p ap"};
    a.acts = {"~59", "~60", "~61", "~119", "~121", "~301", "alice : a", "bob : b", "carol : c", "dave : d", "alice /g y", "bob /g x", "bob /invite alice", "alice /g x", "carol /g ~IDLE~", "alice /g ~IDLE~", "carol /g 1", "carol /status b 1", "alice /status #1", "alice /status # 1", "alice /status idlebootmsg plain", "alice /status idlebootmsg 100%% of %s", "alice /status idlebootmsg %d", "alice /status idlebootmsg %s%s", "bob /status p", "bob /status s", "alice /pass carol", "carol /w", "-bob", "alice /status m b 1", "carol /away z %s", "alice /status l"};
    r.push_back(sc("several groups and moderators", T ? 6 : 5, a, T ? 29 : 25)); }
  { // the limit itself: all sorts of values
    Conf a; a.pre = {"+alice x", "+bob x"};
    for (const char *v : {"0", "1", "-1", "240", "59", "60", "61", "1440", "x", "", "2 b 1", "1 m", "9999999", "35791394", "35791395", "71582789", "99999999999", "-99999999999", "2147483648"}) a.acts.push_back(str("alice /status b ") + v);
    for (const char *v : {"0", "1", "-1", "240", "241", "59", "60", "x", "", "71582789", "99999999999", "-71582789"}) a.acts.push_back(str("alice /status im ") + v);
    a.acts = a.acts + std::vector<str>{"alice /status", "bob /status", "~60", "~61", "~3540", "~3600", "~3601", "~14399", "~14400", "~14401", "bob : b", "alice : a", "alice /status m", "alice /status p", "bob /w x"};
    r.push_back(sc("values of the limits", T ? 5 : 4, a, T ? 28 : 25)); }
  return r;
});
// ------------------------------------------------------------------ C23 beeps and pings
static Registrar c23("C23", [](bool T) -> Sc {
  Sc r;
  { Conf a; a.pre = {"+alice x", "+bob x", "+carol y"};
    a.acts = {"alice /ping bob", "bob /ping alice", "carol /ping bob", "alice /ping alice", "alice /ping nobody", "alice /ping", "alice ! hping", "alice ! hping|bob|x", "alice /ping BOB", "alice /ping server", "alice /ping bob extra", "bob ! m", "alice ! m", "bob ! mid1", "carol ! m", "~0.5", "~1.25", "~3", "-alice", "-bob", "#alice", "+dave x", "dave ! m", "-dave", "+alice x", "+bob x", "bob /name rob", "bob /hush alice", "^dave", "dave ! lid", "alice ! l", "bob ! lq7", "alice ! n", "alice ! lq|x"};
    r.push_back(sc("pings, answers, sign-offs", T ? 7 : 6, a, T ? 29 : 26)); }
  { Conf a; a.pre = {"+alice x", "+bob x", "+carol y"};
    a.acts = {"alice /beep bob", "alice /beep BOB", "carol /beep bob", "alice /beep alice", "alice /beep nobody", "alice /beep", "alice ! hbeep", "alice /beep bob extra", "alice /beep server", "bob /beep alice", "bob /nobeep on", "bob /nobeep off", "bob /nobeep verbose", "bob /nobeep VERBOSE", "bob /nobeep", "bob /nobeep x", "alice /nobeep on", "bob /hush alice", "bob /hush -p alice", "bob /hush -s *@h0*", "bob /away gone", "-bob", "+bob x", "+dave x - bob", "-dave", "bob /name rob", "bob /g y", "bob /echoback on", "alice /m server beep bob", "^dave", "~11", "bob /nobeep on extra"};
    r.push_back(sc("beeps and refusals", T ? 7 : 6, a, T ? 28 : 25)); }
  return r;
});
// ------------------------------------------------------------------ C25 lists and settings
static Registrar c25("C25", [](bool T) -> Sc {
  Sc r;
  { Conf a; a.pre = {"+alice x", "+bob x"};
    a.acts = {"alice /hush bob", "alice /hush BOB", "alice /hush -p bob", "alice /hush -o bob", "alice /hush -s bo@h1.test", "alice /hush -s *@h1*", "alice /hush -sp *@h1*", "alice /hush -q bob", "alice /hush b*", "alice /hush", "alice /shush carol", "alice /hush -z", "alice /hush -n bob", "alice /hush -p", "alice /notify bob", "alice /notify -s q@r", "alice /notify", "bob : b", "bob /m alice p", "bob /notify", "bob /hush alice", "bob /hush", "alice /echoback on", "alice /echoback off", "alice /echoback verbose", "alice /nobeep on", "alice /nobeep off", "alice /away w %s", "alice /noaway", "alice /away", "alice : o", "alice /m bob pp", "alice /w x", "alice /echoback bad"};
    r.push_back(sc("lists and settings of one user", T ? 6 : 5, a, T ? 28 : 26)); }
  { // full hush lists
    Conf a; a.pre = {"+alice x", "+bob x"};
    for (int i = 0; i < 31; i++) a.pre.push_back("alice /hush -q n" + std::to_string(i));
    for (int i = 0; i < 31; i++) a.pre.push_back("alice /hush -qs s" + std::to_string(i));
    a.acts = {"alice /hush bob", "alice /hush -p bob", "alice /hush -o bob", "alice /hush -s bo@h1.test", "alice /hush -s -p *@h1.test", "alice /hush n0", "alice /hush -p n30", "alice /hush -o n15", "alice /hush extra", "alice /hush -q extra2", "alice /hush -s s0", "alice /hush -so s30", "alice /hush", "bob : b", "bob /m alice p"};
    r.push_back(sc("full hush lists", T ? 7 : 6, a, T ? 27 : 24)); }
  { // full invitation and talk lists: the oldest entry is forgotten
    Conf a; a.pre = {"+alice x", "+bob y", "+carol y", "bob /p bp", "alice /status r"};
    a.pre.push_back("alice /invite -q bob"); a.pre.push_back("alice /invite -qs bo@h1.test");
    for (int i = 0; i < 47; i++) a.pre.push_back("alice /invite -q n" + std::to_string(i));
    for (int i = 0; i < 47; i++) a.pre.push_back("alice /invite -qs s" + std::to_string(i));
    a.acts = {"alice /invite -q p1", "alice /invite -q p2", "alice /invite -q p3", "alice /invite -q bob", "alice /invite -qs p1", "alice /invite -qs p2", "alice /invite -qs p3", "alice /invite -qs bo@h1.test", "alice /cancel bob", "alice /cancel n0", "alice /cancel -s bo@h1.test", "alice /invite -q carol", "alice /invite", "bob /g x", "bob /g y", "carol /g x", "alice /invite -qr bob", "alice /invite -qsr *@h1.test"};
    r.push_back(sc("full invitation lists", T ? 6 : 5, a, T ? 27 : 24)); }
  { Conf a; a.pre = {"+alice x", "+bob x", "bob /p bp", "alice /status c"};
    a.pre.push_back("alice /talk bob"); for (int i = 0; i < 48; i++) a.pre.push_back("alice /talk -aq n" + std::to_string(i)), a.pre.push_back("alice /talk -arq r" + std::to_string(i));
    a.acts = {"alice /talk -a p1", "alice /talk -a p2", "alice /talk -aq p3", "alice /talk -ar p1", "alice /talk -arq p2", "alice /talk -arq p3", "alice /talk -a bob", "alice /talk -ar bob", "alice /talk bob", "alice /talk -a BOB", "alice /talk -d bob", "alice /talk -d -r r0", "alice /talk -d n0", "alice /talk -d n47", "alice /talk -r bob", "alice /talk -r p1", "alice /talk", "bob : b", "bob /name rob", "bob /name bob", "bob /exclude alice hi", "alice /talk -d -r bob"};
    r.push_back(sc("full talk list", T ? 7 : 6, a, T ? 27 : 24)); }
  return r;
});
// ------------------------------------------------------------------ C27 site rules
static Registrar c27("C27", [](bool T) -> Sc {
  Sc r;
  std::vector<str> D = {"*@h0.test no h0", "AL@H0.TEST", "bo@h1* bob out", "*", "^x", "[a-c]?@*.test", "junk words *", "al@h1.test x", "*@h0 close", " *@h2.test indented", "#comment *", "\xff*"};
  std::vector<str> P = {"user al h0.test perm_deny", "USER AL H0.TEST PERM_DENY", "user al h1.test perm_deny", "mask 10.0.0.1 255.255.255.255 perm_deny", "mask 10.0.0.0 255.255.255.0 PERM_DENY", "mask 10.0.0.0 255.255.255.254 perm_null", "mask 10.0.1.0 255.255.255.0 perm_deny", "mask 0.0.0.0 0.0.0.0 perm_null|perm_deny", "user al h0.test perm_null", "user bo h1.test |", "user al", "#user al h0.test perm_deny", "mask junk junk perm_deny", "user al h0.test perm_slowmsgs|perm_deny", "user al h0.test perm_deny|perm_slowmsgs", "user al h0.test perm_deny|perm_null", "mask 10.0.0.1 255.255.255.255 perm_deny|bogus|perm_slowmsgs", "\\n", "\\tuser al h0.test perm_deny", "other al h0.test perm_deny", "user al h0.test bogus|PERM_Deny"};
  std::vector<str> log = {"+alice x", "+bob x", "+carol x", "+dave x", "-alice", "-bob", "-dave", "carol : still here", "carol /w", "+bob x - - login al", "+alice x - - login bo"};
  auto two = [&](const str &f, const std::vector<str> &R, size_t n2) { std::vector<str> o = {"=" + f, "=" + f + " "}; for (auto &x : R) { o.push_back("=" + f + " " + x + "\\n"); o.push_back("=" + f + " " + x); }
    for (size_t i = 0; i < R.size(); i++) for (size_t j = 0; j < R.size(); j++) if (i != j && (i < n2 || j < n2)) o.push_back("=" + f + " " + R[i] + "\\n" + R[j] + "\\n"); return o; };
  { Conf a; a.pre = {"+carol x"}; a.acts = log + two("icbd.deny", D, T ? 12 : 6); r.push_back(sc("deny file of one or two lines", T ? 5 : 4, a, T ? 26 : 24)); }
  { Conf a; a.pre = {"+carol x"}; a.acts = log + two("icbd.perms", P, T ? 21 : 6); r.push_back(sc("permissions file of one or two lines", T ? 5 : 4, a, T ? 26 : 24)); }
  { // unusual lines
    Conf a; a.pre = {"+carol x"}; a.acts = {"+alice x", "+bob x", "-alice", "-bob", "=icbd.deny", "=icbd.perms", "carol : here"};
    for (str l : {str("\tuser al h0.test perm_deny"), str("mask 10.0.0.1 255.255.255.0 perm_deny"), str("mask 10.0.0.1 0.0.0.0 perm_deny"), str("mask 0.0.0.0 0.0.0.0 perm_deny"), str("mask 10.0.0.0 255.255.255.0 perm_null|perm_deny|x"), str("user\tal\th0.test\tperm_deny"), str("user  al   h0.test perm_deny extra"), str("#user al h0.test perm_deny"), str(" user al h0.test perm_deny"), str("user al h0.test perm_deny\r"), str("mask"), str("mask 10.0.0.1"), str("mask x y perm_deny"), str("mask 010.0.0.1 255.255.255.255 perm_deny"), str("host al h0.test perm_deny"), "user al h0.test " + rep("x|", 120) + "perm_deny", rep("x", 400) + " al h0.test perm_deny", rep("user ", 3) + "al h0.test perm_deny"})
      a.acts.push_back("=icbd.perms " + l), a.acts.push_back("=icbd.perms \\n" + l + "\\nuser bo h1.test perm_deny\\n");
    for (str l : {str("zz@zz x** all"), str("zz@zz * reason *"), str("zz@zz\t*"), str("al@h0.test\tby tab"), str("al@h0.test  two spaces"), str("al@h0.test "), str("al@h0.test\\r"), str("al@h0.test\r"), rep("*", 63) + "nomatch", rep("*", 70) + " stars", rep("[aA]", 30) + "*", "[" + rep("z", 70) + "aA]l@h0* class", "[" + rep("z", 240) + "aA]l@h0* very long class", "*" + rep(" r", 100), rep("?", 10) + " ten", "al@h0.test " + rep("%s%n ", 12), "zz@zz " + rep("y", 300) + " * x", str("*@h0.test\\n\\n\\n*@h1.test b"), str("\\n \\n\t\\n*@h1.test b"), str("AL@*.TEST UPPER"), str("\\\\*"), str("al@h0.test one\\nal@h0.test two")})
      a.acts.push_back("=icbd.deny " + l), a.acts.push_back("=icbd.deny " + l + "\\nbo@h1.test b\\n");
    r.push_back(sc("unusual lines in the rules files", T ? 4 : 3, a, 23)); }
  { // permissions other than denial only limit the rate
    Conf a; a.pre = {"+carol x"};
    a.acts = {"=icbd.perms user al h0.test perm_slowmsgs\\n", "=icbd.perms mask 10.0.0.2 255.255.255.255 PERM_SLOWMSGS|junk\\n", "=icbd.perms", "+alice x", "+bob x", "carol /w", "carol : hi", "~1", "carol /boot alice", "carol /drop bob"};
    r.push_back(sc("slow messages", 4, a)); }
  { // what they send is read one thing a second, and nothing is lost or comes twice
    Conf a; a.pre = {"+carol x", "=icbd.perms user al h0.test perm_slowmsgs\\n", "+alice x", "+bob x"};
    a.acts = {"alice : hi", "alice /w", "alice /g y", "alice ! n", "carol : ho", "~0.6", "~1", "carol /m alice yo", "alice /m carol yo", "-alice", "#alice", "+alice x", "carol /drop alice", "alice /name al2", "=icbd.perms", "alice /beep carol", "-bob", "+bob x"};
    r.push_back(sc("slow messages are read later", T ? 6 : 5, a, T ? 25 : 23)); }
  { // three lines and both files
    Conf a; a.pre = {"+carol x"}; a.acts = log;
    std::vector<str> d = {"al@h0.test a", "*@h1.test b", "[^c]*@* c"}, p = {"user al h0.test perm_null", "mask 10.0.0.0 255.255.255.252 perm_deny", "mask 10.0.0.2 255.255.255.255 perm_null"};
    int q[3]; for (q[0] = 0; q[0] < 3; q[0]++) for (q[1] = 0; q[1] < 3; q[1]++) for (q[2] = 0; q[2] < 3; q[2]++) {
      str x = "=icbd.deny ", y = "=icbd.perms "; for (int i : q) x += d[i] + "\\n", y += p[i] + "\\n"; a.acts.push_back(x); a.acts.push_back(y); }
    a.acts.push_back("=icbd.deny"); a.acts.push_back("=icbd.perms");
    r.push_back(sc("three lines, both files", T ? 6 : 5, a, T ? 27 : 24)); }
  return r;
});
// ------------------------------------------------------------------ C28 command dispatch
static const char *ALLCMD[] = {"drop", "shutdown", "wall", "log", "beep", "cancel", "g", "invite", "pass", "boot", "status", "topic", "motd", "m", "echoback", "nobeep", "name", "v", "w", "whereis", "news", "hush", "shush", "s_help", "exclude", "shuttime", "notify", "talk", "ping", "away", "noaway", "stats", "read", "whois", "p", "rname", "write", "text", "addr", "phone", "delete", "info", "help", "?", "cp", "email", "secure", "nosecure", "www"};
static Registrar c28("C28", [](bool T) -> Sc {
  Sc r; auto F = std::map<str, str>{{"icbd_help", "help one\nhelp two\n"}, {"news.1", "n1\n"}, {"news.3", "n3 %s\nmore\n"}, {"motd", "hello %U\n100%% %x\n"}};
  { // every command with zero to three fields
    Conf a; a.files = F; a.pre = {"+alice x", "+bob x", "+carol y", "bob /p bp"};
    for (auto c : ALLCMD) { str C = c; a.acts = a.acts + std::vector<str>{"alice ! h" + C, "alice /" + C + " ", "alice /" + C + " bob", "alice /" + C + " bob hi there", "alice ! h" + C + "|bob|x", "alice ! h" + C + "|bob|x|y"}; }
    r.push_back(sc("every command, zero to three fields", T ? 4 : 3, a, T ? 26 : 23)); }
  { // spelling
    Conf a; a.files = F; a.pre = {"+alice x", "+bob x", "alice /p ap"};
    for (auto c : ALLCMD) { str C = c, U = md::up(C); str M = C; M[0] = toupper(M[0]);
      for (str v : {U, M, C.substr(0, C.size() - 1), C + "x", C + " ", " " + C, C + C[C.size() - 1]}) if (v.find(' ') == str::npos || v != C) { a.acts.push_back("alice ! h" + v + "|bob"); } }
    for (str v : {"", "who", "q", "quit", "\xff", "%s%n", "server", "group", "msg", "kick", "restart ", "0", "-1"}) a.acts.push_back("alice ! h" + v + "|arg");
    r.push_back(sc("spelling of commands", 2, a, 23)); }
  { // packet types
    Conf a; a.files = F; a.pre = {"+alice x", "+bob x"};
    for (int t = 1; t < 256; t++) if (t != 'h') { str s(1, (char)t); for (str v : {str(), str("bob"), str("w|bob|x|login|")}) a.acts.push_back("alice ! " + s + v); }
    a.acts = a.acts + std::vector<str>{"alice ! hw|", "bob : b", "-alice", "+alice x"};
    r.push_back(sc("every packet type", 2, a, 22)); }
  { // the Server user's commands by private message
    Conf a; a.files = F; a.pre = {"+alice x", "+bob x", "bob /p bp"};
    for (str c : {"read", "whois bob", "whois", "p ap", "p", "rname Al", "write bob hi", "write", "text t", "addr a", "phone 1", "delete ap", "info", "help", "?", "cp ap new", "email e", "secure", "nosecure", "www w", "READ", "Whois BOB", "unknown", "who", "w", "g y", "", "p  ap", " p ap"})
      for (str s : {"server", "SERVER"}) if (s == "server" || c.size() < 7) a.acts.push_back("alice /m " + s + " " + c);
    a.acts = a.acts + std::vector<str>{"bob /m server read", "bob /m server whois alice", "bob /w", "alice /w", "alice ! hm|server p ap|x", "alice /m server", "-alice", "+alice x", "alice /whereis server", "alice /hush server", "alice /ping server"};
    r.push_back(sc("commands to the Server user", T ? 5 : 4, a, T ? 27 : 24)); }
  { // information
    Conf a; a.files = F; a.pre = {"+alice x", "+bob x"};
    for (auto c : {"v", "stats", "news", "news 1", "news 2", "news 3", "news ../motd", "news 1 2", "motd", "motd x", "s_help", "s_help x", "shuttime", "shuttime x", "whereis", "whereis bob", "whereis BOB", "whereis nobody", "help", "info", "?", "w ?", "status ?"}) { a.acts.push_back(str("alice /") + c); }
    a.acts = a.acts + std::vector<str>{"=motd new motd\\nline 2\\n", "=motd", "=motd \\n\\n", "=motd " + rep("long ", 80) + "\\n", "=icbd_help", "=icbd_help h\\n", "=news.9 last\\n", "=news.1", "alice /away z", "bob /m alice x", "-bob", "+bob y", "~61", "alice /stats x", "+carol z", "alice ! hv", "alice ! hmotd", "alice ! hshuttime"};
    r.push_back(sc("information commands", T ? 5 : 4, a, T ? 26 : 24)); }
  return r;
});

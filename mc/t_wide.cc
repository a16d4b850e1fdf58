// Wide scenarios: large alphabets (every command of an area x flags x targets x users) from rich states, all sequences of three
// (thorough: four) of them, and in every state reached a series of observations ("probes") that brings differences to light.
#include "msys.hh"
using namespace ms; using md::cut;
typedef std::vector<Scenario> Sc; typedef std::vector<str> V;
static V operator+(V a, const V &b) { a.insert(a.end(), b.begin(), b.end()); return a; }

// alice: moderator of x.  bob: member, registered.  carol: administrator, in y.  dave: in y, unregistered.  erin: registered, in x
static Conf base(std::initializer_list<str> more) {
  Conf a; a.roles.push_back({"erin", "er", 1});
  a.pre = X({"+alice x", "~1", "+bob x", "~1", "+erin x", "~1", "+carol y adm_pw Admin", "+dave y", "{bob,erin} /p pw"});
  for (auto &l : more) a.pre.push_back(l); return a;
}
static const str ALL = "{alice,bob,erin,carol,dave}";
static const str N5 = "{alice,bob,erin,Admin,dave}";
static const str OPEN = seq({"{alice,bob,erin,carol,dave} : o"});
static const str EXCL = seq({"{alice,bob,erin} /exclude {bob,erin} x"});
static const str LOOK = seq({"{dave,bob,carol} /w", "{dave,alice} /w -g", "dave /w x", "dave /w @alice", "{dave,bob} /whereis {alice,erin}", "{alice,dave} /status"});
static V status(const str &who, bool full) {
  return full ? X({who + " /status {r,m,c,p,i,s,v,q,n,l,# 0,# 2,# 3,b 1,b 0,im 1,im 0,idlebootmsg %s off,name X,name zz,name Y,r i q}"}) : X({who + " /status {r,m,c,p,i,s,v,q,n,# 3,name zz}"});
}

// who may speak and who hears it
static Registrar w06("C06", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V hush = X({"{bob,erin} /hush {,-o ,-p ,-s ,-so ,-sp ,-s -o ,-s -p ,-p -s ,-q }{alice,al*,al@h0.test,*@h0*,AL@H0.TEST,erin,*}"});
  V move = X({ALL + " /g {x,y,X,.x}", "{alice,bob,erin,dave} /name {zed,Alice}", "-{alice,bob,dave}", "#erin", "+alice {x,y}", "+bob x", "{bob,erin,alice} /echoback {on,off,verbose}", "alice /status {q,n,l,c,p,r,name y2,name zz}", "{bob,carol} /status {q,p}", "alice /talk {bob,erin}", "alice /boot {bob,erin}", "carol /boot bob", "{bob,erin} /away z %s", "~1", "alice /pass bob"});
  { Conf a = base({}); a.acts = hush + move; a.probes = {OPEN, EXCL, seq({"{alice,bob,erin,dave} /exclude {alice,zed,dave,Admin} x"})}; r.push_back(sc("wide: hushes, moves and echo, then everybody speaks", d, a, T ? 28 : 24)); }
  { Conf a = base({"bob /hush -s *@h0*", "erin /hush -o alice", "bob /echoback verbose", "carol /g x", "dave /g x", "dave /hush Adm*"}); a.acts = hush + move + X({"{alice,bob,dave} /hush {-o ,-p ,}{Admin,dave,bob}", "dave /hush Adm*"}); a.probes = {OPEN, EXCL}; r.push_back(sc("wide: the same with lists in place", d, a, T ? 28 : 24)); }
  { // group names that are nearly equal
    Conf a; a.roles.push_back({"erin", "er", 1}); a.pre = {"+alice abcdefgh", "+bob abcdefgi", "+carol ABCDEFGH", "+dave abcdefg", "+erin abcdefghij"};
    a.acts = X({ALL + " /g {abcdefgh,abcdefgi,ABCDEFGI,abcdefg,abcdefghi,abcdefghijk,.abcdefgh,..abcdefgi,@alice,@bob,@dave}", ALL + " /status name {abcdefgh,abcdefgi,ABCDEFG,abcdefgj}", "-{alice,bob}", "+alice {abcdefgh,abcdefgi,abcdefg,AbCdEfGh}", "+bob {abcdefgi,abcdefghi}"});
    a.probes = {OPEN, seq({"alice /w", "{alice,bob,carol,dave,erin} /w ."})}; r.push_back(sc("wide: nearly equal group names", d, a, T ? 26 : 22)); }
  return r;
}, 1);
static Registrar w07("C07", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V talk = X({"{alice,bob,carol,dave} /talk {,-a ,-d ,-r ,-q ,-ar ,-dr ,-a -r ,-d -r ,-qa ,-qd }{bob,erin,dave,BOB}", "{alice,bob} /talk {,-x,-r,-d,-a b c,a*,bob erin}"});
  V ev = X({"{alice,bob,erin,carol} /status {c,p,m,r,q}", "{bob,erin,dave} /name {zed,bob,erin}", "{bob,erin,dave} /p {pw,bad}", "{bob,erin} /delete pw", "-{alice,bob}", "+alice x", "+bob {x,x pw,y}", "+bob x - bob login zz", "{carol,dave,alice,bob} /g {x,y}", "alice /pass {bob,dave,}", "alice /boot bob", "{bob,carol} /g x", "~301", "alice /status name zz", "bob /secure"});
  V pr = {OPEN, seq({"{bob,erin,carol,dave} /exclude alice hi"}), seq({"{alice,bob,carol,dave} /talk", "alice /status", "dave /g x", "dave : d", "carol /g x", "carol : c", "carol /talk dave", "dave : d2"})};
  { Conf a = base({"alice /status c"}); a.acts = talk + ev; a.probes = pr; r.push_back(sc("wide: talk permission", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /status c", "alice /talk bob", "alice /talk -r erin", "carol /g x", "dave /g x"}); a.acts = talk + ev; a.probes = pr; r.push_back(sc("wide: talk permission, list in place", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /p pw", "alice /status c", "alice /talk -a bob", "alice /talk -ar bob", "carol /g x", "-alice"}); a.acts = talk + ev; a.probes = pr; r.push_back(sc("wide: talk permission, moderator signed off", d, a, T ? 28 : 24)); }
  return r;
}, 1);
static Registrar w08("C08", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V hush = X({"{bob,dave} /hush {,-o ,-p ,-s ,-so ,-sp ,-s -p ,-p -s ,-s -o ,-q }{alice,al*,al@h0.test,*@h0*,AL@H0.TEST,erin,*}"});
  V ev = X({"{alice,bob,dave} /away {gone %s,x,}", "{alice,bob,dave} /noaway", "{alice,bob,erin} /echoback {on,off,verbose}", "{bob,dave,alice} /name {zed,Bob,dave,abcdefghijkl}", "{bob,dave} /hush {,-p }{abcdefghijkl,abcdefghijk,abcdefghijk?}", "-{alice,bob,dave}", "#erin", "+alice x", "+bob y", "+dave x - bob", "{alice,bob} /g {y,..z}", "~{5,10,11}", "alice /m {bob,dave,alice} p", "erin /m bob p", "alice /status i", "dave /status r", "{alice,erin} /nobeep on", "carol /name carol"});
  V pr = {seq({"{alice,bob,erin,carol,dave} /m {alice,bob,erin,Admin,dave} p"}), seq({"{alice,dave} /m {zed,bob,BOB,server,nobody,abcdefghijkl} q", "~10", "{alice,dave} /m {zed,bob,BOB} r", "~1", "{alice,dave} /m {zed,bob,BOB} s"})};
  { Conf a = base({}); a.acts = hush + ev; a.probes = pr; r.push_back(sc("wide: hushes, away, echo, then everybody writes to everybody", d, a, T ? 28 : 24)); }
  { Conf a = base({"bob /hush -sp *@h0*", "dave /hush -p erin", "bob /away out %s", "dave /away o %s", "alice /echoback verbose", "erin /echoback on", "alice /m bob 1", "~4", "erin /m dave 2"}); a.acts = X({"bob /hush {,-o ,-p ,-s ,-so ,-sp ,-s -p }{alice,al*,al@h0.test,*@h0*,AL@H0.TEST,erin,*}"}) + ev; a.probes = pr; r.push_back(sc("wide: the same with settings in place", d, a, T ? 28 : 24)); }
  return r;
}, 1);
// who may enter
static Registrar w10("C10", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V inv = X({"alice /invite {,-r ,-s ,-sr ,-s -r ,-q ,-n }{dave,bob,da@h3.test,*@h3*,da@*,erin,DAVE}", "alice /cancel {,-s ,-q ,-n }{dave,bob,da@h3.test,*@h3*,da@*,erin,DAVE}", "{bob,dave,carol} /invite {dave,-s *@h3*,-r dave}", "{bob,dave,carol} /cancel {dave,-s *@h3*,erin}"});
  V ev = X({"{alice,bob,carol} /status {r,m,c,p,i,v,# 1,# 0,# 4}", "{dave,bob} /name {zed,dave,bob}", "dave /p {pw,bad}", "bob /p pw", "bob /delete pw", "-{alice,bob,dave}", "#bob", "+alice {x,y}", "+dave {x,y,.x,@alice}", "+bob x", "{dave,bob,erin,carol,alice} /g {x,y,@alice,@bob,@dave}", "alice /boot {bob,erin}", "carol /boot {erin,dave}", "bob /g ~RESEDA~", "alice /pass {bob,dave}", "alice /pass", "~301", "alice /status name zz", "dave /g zz", "alice /p pw"});
  V pr = {seq({"dave /g x", "dave /w .", "bob /g y", "bob /g x", "bob /w ."}), seq({"dave /g @alice", "dave /g @erin", "erin /g y", "erin /g @alice", "erin /w ."}), seq({"-dave", "+dave x", "alice /w", "carol /g x", "alice /invite", "bob /invite"}), seq({"alice /status p", "dave /g x", "dave /g y", "alice /status r", "dave /g x", "bob /g y", "bob /g x", "alice /w"})};
  { Conf a = base({"alice /status r"}); a.acts = inv + ev; a.probes = pr; r.push_back(sc("wide: invitations to a restricted group", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /status r", "alice /invite dave", "alice /invite -s *@h3*", "alice /invite -sr *@h3*", "alice /invite -r bob", "bob /g y", "erin /g y", "alice /invite -r erin"}); a.acts = inv + ev; a.probes = pr; r.push_back(sc("wide: invitations in place", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /p pw", "alice /status r", "alice /invite -r bob", "alice /g y", "bob /g y"}); a.acts = inv + ev; a.probes = pr; r.push_back(sc("wide: registered moderator elsewhere", d, a, T ? 28 : 24)); }
  { // booted users, the administrator and the group they are moved to
    Conf a = base({"alice /status r", "alice /boot erin"});
    a.acts = X({ALL + " /boot {alice,bob,erin,Admin,dave}", ALL + " /g {x,~RESEDA~,~IDLE~,ICB,y,1}", "{alice,erin,carol} /status {r,p,m}", "erin /invite {dave,bob}", "alice /invite {erin,dave}", "-{alice,erin,carol}", "+erin {x,~RESEDA~}", "+alice ~RESEDA~", "{alice,dave} /pass erin", "~1", "dave : a ;; dave : b"});
    a.probes = {seq({"{alice,bob,erin,carol,dave} /w .", "{alice,bob,erin,carol,dave} /g x", "alice /w"}), seq({"dave /g ~RESEDA~", "bob /g ~RESEDA~", "carol /g ~RESEDA~", "carol /boot erin", "dave /g ~RESEDA~", "dave /g x", "dave /g q", "alice /w"})};
    r.push_back(sc("wide: booted users", d, a, T ? 26 : 22)); }
  return r;
}, 1);
// who may do what to a group
static Registrar w11("C11", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V pw = X({"{alice,bob,carol,dave} /status {r,m,c,p,i,s,v,q,n,l,# 0,# 2,b 1,b 0,im 1,im 0,idlebootmsg %s off,name X,name zz,name Y,name ~IDLE~,r i q}", "{alice,bob,carol,dave} /topic {T,}", "{alice,bob,carol,dave} /boot {bob,alice,dave,Admin}", "{alice,bob,carol,dave} /pass {bob,dave,Admin}", "{alice,bob} /pass", "{alice,bob,carol,dave} /invite {dave,-s *,-r dave,-s -r *@h3*,-q dave}", "{bob,carol} /cancel {dave,bob,-s *,-s *@h3*}", "{alice,bob,carol,dave} /talk {bob,-r bob,-d bob,-r erin}"});
  V ev = X({"-{alice,bob}", "+alice x", "{carol,dave} /g x", "{alice,carol} /g y", "bob /g {y,~IDLE~,1}", "~301", "alice /p pw", "bob /name {alice,zed}", "carol /name carol", "alice /away z"});
  V pr = {seq({"{alice,bob,dave,carol} /status", "alice /w", "{alice,bob} /topic", "bob /invite", "alice /talk"}), seq({"{alice,bob,dave,carol} /status q", "{alice,bob,dave,carol} /topic {A}", "alice /w"}), seq({"dave /g x", "bob : hi", "{bob,carol} /boot dave", "alice /pass erin", "erin /topic E", "bob /w"}), seq({"{dave,bob} /p pw", "dave /g x", "bob : hi", "bob /invite"})};
  { Conf a = base({}); a.acts = pw + ev; a.probes = pr; r.push_back(sc("wide: every power by everybody", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /p pw", "alice /status r i q", "carol /g x", "-alice"}); a.acts = pw + ev; a.probes = pr; r.push_back(sc("wide: the registered moderator has signed off", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /pass", "carol /g x"}); a.acts = pw + ev; a.probes = pr; r.push_back(sc("wide: a group without moderator", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /status c q # 9", "alice /g y", "carol /g q"}); a.acts = pw + ev; a.probes = pr; r.push_back(sc("wide: the moderator is in another group", d, a, T ? 28 : 24)); }
  return r;
}, 1);
static Registrar w12("C12", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V ev = X({"-{alice,bob,erin,dave}", "#alice", "+alice {x,y,x pw,x - zed}", "+alice x - alice login zz", "+dave x {-,pw} alice", "+bob x", "{alice,bob,erin} : t", "{bob,erin,alice} /away z %s", "{bob,erin} /noaway", "{alice,bob,erin,dave} /name {alice,zed}", "{alice,bob,dave} /p pw", "{alice} /delete pw", "alice /secure", "{alice,bob,erin,dave} /g {x,y}", "alice /pass {bob,erin,dave}", "{alice,bob} /pass", "{alice,bob} /status {p,m,r,c,q,b 1,im 1,im 0,name zz}", "alice /boot bob", "carol /boot alice", "carol /drop alice", "carol /g x", "~{1,59,60,61,299,300,301,3601}", "{alice,bob} ! n", "bob /m alice x"});
  V pr = {seq({"{bob,erin,dave,alice} /topic T", "bob /w", "dave /w", "~60", "bob /w", "{bob,erin,alice} /topic U"}), seq({"-alice", "bob /w", "~299", "bob /w", "~1", "bob /w", "~1", "bob /w", "{bob,erin} /topic U"}), seq({"-alice", "~10", "+alice x", "alice /topic V", "erin /w"}), seq({"-bob", "-alice", "erin /w", "dave /g x", "~301", "dave /w"}), seq({"dave /g x", "dave /w x", "~61", "erin : e", "~1", "erin /w"})};
  { Conf a = base({}); a.acts = ev; a.probes = pr; r.push_back(sc("wide: unregistered moderator", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /p pw", "alice /status im 1"}); a.acts = ev; a.probes = pr; r.push_back(sc("wide: registered moderator", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /p pw", "alice /g y", "alice /status b 2"}); a.acts = ev; a.probes = pr; r.push_back(sc("wide: registered moderator elsewhere", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /p pw", "-alice", "~200"}); a.acts = ev; a.probes = pr; r.push_back(sc("wide: registered moderator signed off", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /p pw", "bob /away a %s", "erin /away b %s", "-alice"}); a.acts = ev; a.probes = pr; r.push_back(sc("wide: everybody away, moderator signed off", d, a, T ? 28 : 24)); }
  return r;
}, 1);
// what outsiders learn
static Registrar w13("C13", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V ev = X({"{alice,bob,carol} /status {s,i,v,r,p,m,c,q,name zz}", "alice /invite {,-r ,-s ,-sr }{dave,*@h3*}", "alice /cancel {,-s }{dave,*@h3*}", "dave /p pw", "dave /name {zed,Admin}", "carol /name carol", "-{alice,erin,bob,dave,carol}", "#erin", "+alice {x,..x,.x}", "+erin {x,..x,..q}", "+dave {y,@alice,x,zz}", "+carol y adm_pw Admin", "{alice,erin,dave,bob} /g {y,..q,.q,q,x,@alice,..q2,.abcdefgh,..abcdefgh,..abcdefghij}", "alice /pass {,erin}", "{dave,bob} /notify {alice,-s *@h1*,erin}", "~301"});
  V who = {seq({"dave /w", "dave /w -g", "dave /w -s", "dave /w x", "dave /w -s x", "dave /w @alice", "dave /w @erin", "dave /w @bob", "dave /w q", "dave /w abcdefgh"}), seq({"dave /whereis {alice,bob,erin,Admin}", "dave /g @alice", "dave /g y", "dave /g @erin", "dave /w ."}), seq({"carol /w", "bob /w", "bob /whereis {alice,erin}", "erin /w @alice", "carol /whereis {alice,erin}", "carol /g @erin"}),
           seq({"dave /notify {erin,bob}", "-erin", "+erin x", "-bob", "+bob ..q", "-bob", "-alice"}), seq({"-dave", "^dave", "dave ! ada|dave|x|w|", "^dave", "dave ! ada|dave||w|", "+dave @alice", "dave /w .", "-dave", "+dave x - - wg"})};
  { Conf a = base({}); a.acts = ev; a.probes = who; r.push_back(sc("wide: a visible group", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /status i", "dave /notify alice", "dave /notify -s *@h1*"}); a.acts = ev; a.probes = who; r.push_back(sc("wide: an invisible group", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /status s", "alice /invite -s -r *@h3*", "alice /invite -r dave"}); a.acts = ev; a.probes = who; r.push_back(sc("wide: a secret group with invitations", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /status i", "alice /pass", "dave /notify erin", "alice /g ..abcdefgh", "dave /notify alice"}); a.acts = ev; a.probes = who; r.push_back(sc("wide: an invisible group without moderator", d, a, T ? 28 : 24)); }
  return r;
}, 1);
// ---- connections
static const str EVERY = "{g y,g ..q,name zed,name dave,away z %s,noaway,hush alice,hush -o erin,hush -p -s *@h0*,hush -s -o *@h1*,hush -sp er@*,hush er*,notify erin,notify dave,notify -s *@h3*,notify -s *@h1*,echoback on,echoback verbose,nobeep on,nobeep verbose,p bad,cp pw new,delete pw,secure,rname Bob Real,text t,write alice w1,write dave w2,write bob w3,read,ping alice,ping bob,beep alice,m alice hi,m dave hi,status r,status i,status q,status c,status name zz,topic T,invite dave,invite -s *,talk bob,talk erin,pass alice,pass,boot alice,exclude alice hi,w,whereis alice}";
static Registrar w03("C03", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V acts = X({"bob /" + EVERY, "bob : hi", "bob ! m", "{alice,erin,dave,carol} /{m bob hi,beep bob,ping bob,notify bob,notify -s *@h1*,hush bob,hush -s *@h1*,invite bob,talk bob,talk -r bob,boot bob,pass bob,g x,g y,away a %s,name bob,write bob mail}", "alice /status {r,c,i,q,p,m}", "{alice,erin} ! m", "~{1,10,301}", "-erin", "carol /drop bob", "alice /drop bob pw", "bob : hi & -bob", "bob /g y & #bob", "-alice & -bob"});
  V pr = {seq({"-bob", "alice /w", "alice /m bob q", "+dave x", "^dave", "dave : early", "alice : hi", "-dave", "+dave x", "{alice,carol,erin} /m dave yo", "~11", "alice /m dave yo", "alice /beep dave", "dave ! m", "{alice,erin} ! m", "dave : mine", "dave /{hush,notify,away,whereis bob,status,talk,invite,read,whois bob,w}"}),
          seq({"-dave", "#bob", "dave : gone", "+dave q", "dave /{hush,notify,away,secure,rname x,read,w}", "dave /g x", "dave : hi", "alice : hi", "erin : hi", "dave /m alice p", "alice /m dave p", "dave /topic t", "dave /status"}),
          seq({"-bob", "+bob x", "bob /{hush,notify,away,status,read,secure,w}", "{alice,erin,dave,carol} /m bob p", "{alice,erin,bob} : o", "-bob", "~301", "erin /w"}),
          seq({"carol /drop bob", "^bob", "alice /ping bob", "alice : o", "bob ! m", "-bob", "+bob y - bob login zz", "bob /{hush,away,read,secure,whois bob}", "bob /ping alice", "-bob", "alice ! m", "-dave", "+dave y", "alice ! m"}),
          seq({"=icbd.perms user bo h1.test perm_slowmsgs\\n", "-bob", "-dave", "+bob x", "=icbd.perms", "~1", "-bob", "+dave x", "dave : one", "dave : two", "dave /w", "#dave", "+bob 1", "+erin 1", "bob : a", "bob : b", "-bob", "+dave 1", "dave : c", "dave : d", "dave : e", "alice /w"})};
  { Conf a = base({}); a.acts = acts; a.probes = pr; r.push_back(sc("wide: anything about bob, then his slot is reused", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /pass bob", "bob /status c r q b 9", "bob /topic Bob's", "bob /talk erin", "bob /invite -s *@h3*", "bob /away out %s", "bob /hush alice", "bob /hush -sp *@h0*", "bob /hush -o -s *@h1*", "bob /hush -p er*", "bob /notify alice", "bob /notify -s *@h0*", "bob /nobeep verbose", "bob /echoback verbose", "bob /ping alice", "alice /m bob hi", "erin /ping bob"}); a.acts = acts; a.probes = pr; r.push_back(sc("wide: the same, bob with every setting", d, a, T ? 28 : 24)); }
  return r;
}, 1);
static Registrar w04("C04", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V login = X({"bob ! abo|{bob,zed,ALICE,dave,a b,a%b,server,admin,ADMIN,,abcdefghijkl,abcdefghijklm,b.b,b@b,b:b}|{x,y}|login|{,adm_pw}", "bob ! abo|{bob,zed,alice,admin,dave}|{x,y,z,,@alice,.q,@bob,@zed,@longlonglong,..abcdefgh,..abcdefghi}|login|{,pw,adm_pw}", "bob ! abo|{bob,ADMIN,admin,zed}|{x,y}|login", "bob ! abo|{bob,ADMIN}|x|login|{adm_pw,pw,bad}|extra", "{bob ! abo,bob ! abo|zed|y|login|,bob ! abo|zed|q|login|,bob ! abo|dave2|@nobody|login|,bob ! abo|admin|x|login|bad} & {frank ! afr,frank ! afr|zed|x|login|,frank ! afr|admin|x|login|bad,frank ! afr|dave2|y|login|}", "{bob ! abo|zed|y|login|} & {alice /w,alice /whereis zed,alice /name zed,-dave,dave /name bob}", "bob ! a{,bo,bo-,b-o,-bo,b o,b|o,abcdefghijkl,abcdefghijklm,BO,b.,b0}|bob|x|login|", "bob ! abo|bob|x|{login,LOGIN,w,W,wg,,x}|", "bob ! a", "bob ! abo", "bob ! abo|bob", "bob ! abo|bob|x"});
  V any = X({"bob /" + EVERY, "bob : hi", "bob ! m", "bob ! n", "bob ! l", "{alice,dave} /{m bob hi,beep bob,ping bob,notify bob,hush bob,invite bob,invite -s *@h1*,w,status r,status # 1,name bob}", "-bob", "^bob", "-{dave,carol}", "+dave {x,y} - bob", "carol /drop bob", "~1"});
  V pr = {seq({"{alice,dave,carol} /w", "{alice,erin,dave} : o", "alice /m bob p", "alice /whereis bob"}), seq({"bob ! abo|bob|x|login|", "bob /w", "bob : hi", "alice : hi", "bob /{hush,notify,away,status,read,secure}", "-bob", "alice /w"}), seq({"bob ! abo|bob|x|login|bad", "bob ! abo|rob|y|login|", "bob /secure", "bob /w", "alice /w"})};
  auto pre = X({"+alice x", "+bob q", "bob /p pw", "-bob", "+carol y adm_pw Admin", "+dave y", "+erin x", "alice /notify bob", "dave /notify -s *@h1*", "dave /status r", "alice /p pw", "^bob", "^frank"});
  auto mk = [&](V more) { Conf a; a.roles.push_back({"erin", "er", 1}); a.roles.push_back({"frank", "fr", 2}); a.pre = pre + more; a.acts = login + any; a.probes = pr; return a; };
  r.push_back(sc("wide: everything on an unidentified connection, all logins", d, mk({}), T ? 28 : 24));
  r.push_back(sc("wide: the same with a full and an invisible group", d, mk({"alice /status # 1 i", "dave /invite -r bob", "dave /invite -s -r *@h1*"}), T ? 28 : 24));
  return r;
}, 1);
static Registrar w05("C05", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V acts = X({"{alice,bob,dave,carol} /name {alice,ALICE,bob,Bob,dave,zed,ZED,admin,ADMIN,server,SERVER,,z d,z%d,z_d,z.d,abcdefghijkl,abcdefghijklm,ABCDEFGHIJKLx}", "-{alice,bob,dave,carol}", "+{alice,bob,dave} x - {alice,bob,Zed,z_d,abcdefghijkl,ABCDEFGHIJKLM}", "^{bob,dave}", "{bob,dave} ! axx|{z d,z%d,z_d,z?d,alice,a:e,Bob,bob }|x|login|", "+carol y adm_pw {ADMIN,admin}", "+dave y adm_pw admin", "{bob,dave} /p pw", "~1", "{alice,bob,erin} /g {x,y,..q}", "alice /name zed & bob /name zed", "alice /name bob & -bob", "{erin,dave} /notify {zed,bob,-s *@h1*}", "{erin,dave} /hush {zed,bob}", "alice /status {q,c,r,i}", "alice /talk {zed,bob}", "alice /invite {zed,bob}", "bob /secure"});
  V pr = {seq({"erin /w", "erin /m {alice,bob,zed,z_d,dave,abcdefghijkl,admin} p", "{alice,bob,dave,erin} : o"}), seq({"^bob", "{bob,dave,alice} /{secure,rname q,cp pw pw}", "erin /whois {bob,zed,dave}", "erin /whereis {bob,zed,alice}", "erin /beep {bob,zed}", "{alice,bob} /w .", "bob /topic b", "alice /topic a"}), seq({"-alice", "+alice x - zed", "-bob", "+bob x", "+alice x", "erin /w", "{alice,bob} /secure"}), seq({"bob /name zed", "dave /name zed", "alice /name bob", "erin /w", "{bob,alice} /secure", "bob /name bob", "alice /name alice", "bob /name bob", "bob /secure", "erin /w"})};
  { Conf a = base({}); a.acts = acts; a.probes = pr; r.push_back(sc("wide: renames and logins", d, a, T ? 28 : 24)); }
  { // two unidentified connections and names that become equal when filtered or cut
    Conf a = base({}); a.roles.push_back({"frank", "fr", 2}); a.pre = a.pre + V{"^frank", "-dave", "^dave", "bob /name z_d"};
    a.acts = X({"{frank,dave} ! axx|{z d,Z D,z%d,z_d,z?d,z#d,a:e,a?e,bob,bob ,abcdefghijkl,ABCDEFGHIJKL,abcdefghijklm,abcdefghijkl mn,admin,server}|{x,y}|login|", "frank ! axx|{z d,z%d,q}|x|login| & dave ! axx|{z_d,z?d,Q}|x|login|", "{alice,bob,frank,dave} /name {z d,z%d,z?d,z#d,Z_D,a:e,a?e,bob,q,abcdefghijkl,abcdefghijklm}", "-{bob,frank}", "^frank"});
    a.probes = {seq({"erin /w", "erin /m {z_d,z?d,a?e,bob,abcdefghijkl} p", "{alice,frank,dave,erin} : o"})}; r.push_back(sc("wide: names equal after filtering", d, a, T ? 26 : 22)); }
  { Conf a = base({"alice /p pw", "bob /name zed", "alice /status r", "alice /invite -r zed", "-dave", "+dave x - bob"}); a.acts = acts; a.probes = pr; r.push_back(sc("wide: renames and logins, a name given up and taken", d, a, T ? 28 : 24)); }
  return r;
}, 1);
// ---- listings
static Registrar w09("C09", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V acts = X({"{alice,bob,dave} /status {r,m,c,p,i,s,v,q,n,l,# 2,b 1,im 1,name zz,name abcdefgh}", "alice /topic {T,a very long topic that exceeds the limit by far,}", "{alice,bob,erin,dave} /g {x,y,z,.z,..z,1,~IDLE~,@dave}", "alice /pass {bob,dave,}", "{bob,dave} /name {zed,abcdefghijkl}", "-{alice,bob,erin,dave}", "+alice {x,y,z}", "+dave {x,z,.z}", "+bob z pw abcdefghijkl login abcdefghijkl", "{alice,bob} /away z %s", "{alice,bob} : t", "bob ! n", "{alice,dave} /p pw", "bob /delete pw", "alice /boot {bob,erin}", "~{1,59,60,61,3599,3601,36000,86400,90061}", "alice /invite dave"});
  V pr = {seq({"{dave,bob,carol} /w", "bob /w -g", "bob /w -s", "dave /w -g", "dave /w -s", "bob /w x", "dave /w -g x", "dave /w -s x", "dave /w z", "bob /w -s z", "dave /w y"}), seq({"{dave,bob} /w @{alice,bob,erin,dave,Admin,server,nobody}", "{dave,bob,alice} /w .", "{dave,bob} /whereis {alice,bob,erin,dave}", "{alice,bob,erin,dave} /status", "dave /stats", "dave /w -g @alice"})};
  int k = 0;
  for (V more : {V{}, V{"alice /status r q i", "alice /topic hot stuff"}, V{"alice /status s c # 7", "alice /g y", "dave /g ..z"}, V{"alice /pass", "bob /g z", "erin /g z", "dave /g 1"}}) { Conf a = base({}); a.pre = a.pre + more; a.acts = acts; a.probes = pr; r.push_back(sc("wide: listings, state " + std::to_string(++k), d, a, T ? 28 : 24)); }
  { // a group with all kinds of settings ends; another takes its place
    Conf a = base({});
    a.acts = X({"alice /status {c,r,i,s,q,n,# 2,b 1,im 1,idlebootmsg %s is off,name zz}", "alice /topic T", "alice /talk {bob,-r bob,-r erin,dave}", "alice /invite {dave,-r bob,-s *@h3*,-s -r *@h1*}", "alice /p pw", "alice /pass {bob,}", "-{alice,bob,erin}", "{alice,bob,erin} /g y", "~{61,200}"});
    str gone = seq({"-alice", "bob /g y", "erin /g y"}), make = seq({"{bob,alice} /g n", "bob /w", "bob /status"});
    a.probes = {gone + " ;; ~1 ;; bob /g n ;; bob /w ;; bob /status ;; bob /status c ;; erin /g n ;; erin : e ;; dave /g n ;; dave : d ;; bob /talk ;; bob /invite ;; bob /topic", gone + " ;; bob /g n ;; bob /status r ;; dave /g n ;; erin /g n ;; bob /status p ;; erin /g n ;; bob /status r ;; dave /g n ;; bob /invite", gone + " ;; bob /g n ;; erin /g n ;; bob /status b 1 ;; ~61 ;; bob /w", gone + " ;; dave /g n ;; bob /g n ;; dave /g y ;; ~301 ;; bob /w ;; +alice n ;; bob /w ;; dave /g x ;; dave /w ;; dave /topic D ;; +alice x ;; bob /w", "-alice ;; -bob ;; -erin ;; ~10 ;; +alice x ;; alice /w ;; alice /status ;; alice /status c ;; dave /g x ;; dave : d ;; ~300 ;; alice /w"};
    r.push_back(sc("wide: a group takes the place of another", d, a, T ? 28 : 24)); }
  { // lines of all lengths in short listings
    Conf a; a.roles.clear(); a.pre = {}; for (int i = 0; i < 9; i++) { str n = "u" + std::to_string(i); a.roles.push_back({n, "id", i % 4}); a.pre.push_back("+" + n + (i < 7 ? " x" : " Y")); a.pre.push_back("u" + std::to_string(i) + " /name n" + std::to_string(i) + "345678901"); }
    a.acts = X({"u{0,1,4,5,6} /name {a,,b,bc,c',bcde,bcdef,bcdefg,bcdefgh,-cdefghi,bcdefghij,?cdefghijk,bcdefghijkl}", "u{2,3} /name ,x", "u{1,7,8} /g {x,y,Zz,aB,Ab}"});
    a.probes = {"u0 /w -s ;; u8 /w -s x ;; u7 /w -g"}; r.push_back(sc("wide: listings, lines of all lengths", T ? 4 : 3, a, 24)); }
  { // the time of day, the time idle and the time signed on
    Conf a = base({}); a.acts = {}; for (int m : {1, 58, 59, 60, 61, 599, 600, 3540, 3599, 3600, 3601, 7200, 35999, 36000, 36060, 39600, 40000, 43200, 79200, 80000, 86399, 86400, 90000, 172800, 360000, 864000, 8640000}) a.acts.push_back("~" + std::to_string(m));
    a.acts = a.acts + X({"{alice,bob} : t", "-dave", "+dave z", "alice /away now %s", "bob /p pw", "-bob", "+bob x"});
    a.probes = {seq({"alice /w", "bob /w", "alice /whois bob", "bob /m alice p", "alice /stats", "alice /v"})}; r.push_back(sc("wide: times", T ? 4 : 3, a, T ? 26 : 23)); }
  return r;
}, 1);
static Registrar w14("C14", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V acts = X({"{alice,bob,dave} /notify {,-q ,-n ,-s ,-s -q ,-q -s ,-n -s ,-s -n ,-sn ,-qq }{dave,DAVE,d*,da@h3.test,*@h3*,DA@H3.TEST,*,erin,zed}", "{dave,erin} /name {zed,dave2}", "-{dave,erin,alice}", "#dave", "+dave {x,..q,.q,y}", "+dave x - zed", "+erin {x,..q}", "{dave,erin} /g {..q,x,.q}", "{dave,alice} /status {i,s,v}", "carol /drop dave", "+alice x", "alice /away z", "alice /hush {dave,-s *}", "~1", "^dave", "dave /p pw"});
  V pr = {seq({"-dave", "+dave x", "-dave", "+dave ..q", "#dave", "+dave .q - zed", "-dave"}), seq({"-erin", "+erin y", "-erin", "+erin ..q", "erin /g x", "-erin", "{alice,bob,dave} /notify"}), seq({"dave /g ..r", "dave /g y", "dave /name zed", "-dave", "^dave", "-dave", "carol /drop erin", "-alice", "+alice x", "+dave x"})};
  { Conf a = base({}); a.acts = acts; a.probes = pr; r.push_back(sc("wide: watches", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /notify dave", "alice /notify -s *@h3*", "bob /notify -s er@*", "dave /notify erin", "erin /notify DAVE"}); a.acts = acts; a.probes = pr; r.push_back(sc("wide: watches in place", d, a, T ? 28 : 24)); }
  return r;
}, 1);
// ---- registered users
static Registrar w15("C15", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V acts = X({"{alice,bob,dave} /p {pw,bad,,pwx,PW,abcdefghijkl,abcdefghijklm}", "{alice,bob,dave} /cp {pw new,bad new,pw,new pw,pw pw,pw abcdefghijklm,pw abcdefghijkl}", "{alice,bob,dave} /delete {pw,bad,new,}", "{alice,bob,dave} /{secure,nosecure}", "{alice,bob,dave} /{rname,addr,phone,email,www,text} {v1,two words}", "{alice,bob,dave} /name {alice,bob,zed,dave}", "-{alice,bob,dave}", "+bob x {-,pw,bad,new}", "+bob y - BOB login zz", "+bob y pw bob login zz", "+dave x {-,pw,bad} bob", "+alice x {-,pw} alice", "alice /m server {p pw,cp pw new,delete pw,secure,rname via}", "bob ! haddr|l1|l2|l3|l4", "bob /addr a|b|c", "~61"});
  V pr = {seq({"erin /whois {alice,bob,dave,zed}", "{alice,bob,dave} /{secure,rname q,read}", "erin /whois {alice,bob,dave,zed}", "alice /w"}), seq({"-alice", "-bob", "-dave", "+bob x", "bob /secure", "-bob", "+bob x - bob login zz", "bob /rname zzz", "bob /p pw", "bob /rname pwok", "bob /p new", "bob /rname newok", "erin /whois bob"}), seq({"-bob", "+bob x bad", "-bob", "+bob x pw", "bob /nosecure", "-dave", "+dave x - bob", "-bob", "+dave x - bob", "dave /p pw", "dave /rname D", "erin /whois bob"}), seq({"bob /name zed", "bob /secure", "bob /name bob", "bob /secure", "bob /delete pw", "bob /secure", "bob /name zed", "bob /name bob", "bob /secure", "bob /p other", "erin /whois bob"})};
  { Conf a = base({}); a.db = true; a.acts = acts; a.probes = pr; r.push_back(sc("wide: registration", d, a, T ? 28 : 24)); }
  { Conf a = base({"bob /secure", "bob /rname Bob B", "bob /addr street", "bob /phone 1", "bob /email e", "bob /www w", "bob /text t", "alice /p pw", "~3600"}); a.db = true; a.acts = acts; a.probes = pr; r.push_back(sc("wide: a secure nickname with personal data", d, a, T ? 28 : 24)); }
  return r;
}, 1);
static Registrar w16("C16", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V acts = X({"{alice,bob,dave,erin} /write {bob,BOB,erin,dave,alice,nobody,server} {m1,second one}", "{alice,bob,dave,erin} /read", "{bob,dave} /name {bob,zed,dave}", "{alice,dave,bob} /p {pw,bad}", "{bob,erin} /delete pw", "bob /cp pw new", "bob /{secure,nosecure}", "-{bob,erin,alice,dave}", "+bob {x,x pw,x bad}", "+bob y - bob login zz", "+dave x {-,pw} bob", "+erin x", "~{61,3600,43000,46000}", "alice /m server {read,write bob vs}", "bob /m server {read,write erin vs}", "bob /write", "bob /write erin", "erin /text t", "bob /rname q"});
  V pr = {seq({"{alice,bob,dave,erin} /read", "{alice,bob,dave,erin} /read"}), seq({"-bob", "+bob x", "bob /read", "bob /read", "-erin", "+erin x pw", "erin /read"}), seq({"erin /write bob late", "-bob", "+bob x - bob login zz", "bob /read", "bob /p pw", "bob /read", "bob /p new", "bob /read", "dave /name bob", "-bob", "dave /name bob", "dave /read"}), seq({"bob /delete pw", "bob /p pw", "bob /read", "bob /name zed", "bob /read", "bob /name bob", "bob /p pw", "bob /read"})};
  { Conf a = base({}); a.db = true; a.acts = acts; a.probes = pr; r.push_back(sc("wide: writing and reading", d, a, T ? 28 : 24)); }
  { Conf a = base({"erin /write bob e1", "~70", "bob /write bob b2", "bob /write erin b3", "erin /write bob e4"}); a.db = true; a.acts = acts; a.probes = pr; r.push_back(sc("wide: writing and reading, messages waiting", d, a, T ? 28 : 24)); }
  { Conf a = base({}); a.db = true; for (int i = 0; i < 19; i++) a.pre.push_back("erin /write bob m" + std::to_string(i)); a.acts = acts; a.probes = {pr[0], pr[1], seq({"erin /write bob t1", "erin /write bob t2", "bob /read", "erin /write bob t3", "bob /read"})}; r.push_back(sc("wide: writing and reading, nearly full", d, a, T ? 28 : 24)); }
  { Conf a = base({}); a.db = true; a.acts = X({"~{1,60,3600,36800,40400,44000,80000,3}", "erin /write bob w", "bob /write erin w"}); a.probes = {seq({"{bob,erin} /read", "-bob", "+bob x"})}; r.push_back(sc("wide: times of messages", T ? 6 : 5, a, 22)); }
  return r;
}, 1);
// ---- administration
static Registrar w21("C21", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V acts = X({ALL + " /{wall hi,wall,log 3,log,log x,stats reset,restart,restart quiet,shutdown 1,shutdown 2 why,shutdown 0,shutdown 10,shutdown,shuttime,drop bob,drop dave,drop alice,drop Admin,drop bob pw,drop bob bad,drop bob pwx,drop bob p,drop bob PW,drop bob pw x,drop erin pw x,drop dave pw,drop nobody pw,drop,drop server}", "{alice,bob,dave,carol} /name {ADMIN,admin,Admin,carol,adm,admins}", "{alice,dave,carol} /p {adm_pw,pw,ADM_PW}", "-{carol,bob}", "+carol y {adm_pw,-,bad} {Admin,ADMIN}", "+dave x adm_pw dave", "-dave", "+bob x", "~{1,59,60,61,120,299,300,540,601}", "carol /{boot alice,pass alice,g x}", "alice /m server drop bob", "carol /cp adm_pw new"});
  V pr = {seq({"alice /shuttime", "~30", "~31", "~60", "~240", "~300", "~600"}), seq({"{alice,bob,dave,carol} /wall w", "{alice,bob,dave} /drop erin", "{alice,dave} /drop bob pw", "alice /w", "carol /log", "carol /drop dave", "alice /w"}), seq({"{bob,dave,alice} /name Admin", "{bob,dave,alice,carol} /wall x", "{bob,alice,dave,carol} /shutdown 1", "~61"}), seq({"{dave,alice} /restart", "carol /restart"})};
  { Conf a = base({}); a.acts = acts; a.probes = pr; r.push_back(sc("wide: administration", d, a, T ? 28 : 24)); }
  { Conf a = base({"carol /shutdown 6 soon", "~100", "-carol", "+carol y adm_pw ADMIN"}); a.acts = acts; a.probes = pr; r.push_back(sc("wide: administration with a shutdown pending", d, a, T ? 28 : 24)); }
  return r;
}, 1);
static Registrar w22("C22", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V acts = X({"{alice,bob,erin} : t", "{bob,erin} /{m alice hi,beep alice,w,g y,g x,g ~IDLE~,away z %s,ping alice,name zed,hush,exclude alice q,p pw,whereis alice,status,nobeep on,notify q,read}", "{bob,erin} ! {n,m,l,hw|,q}", "dave /{m bob hi,beep bob,ping bob,g x}", "alice /status {b 1,b 2,b 0,b 5,im 1,im 0,q,n,l,r,c,i,p,m,idlebootmsg %s sleeps,idlebootmsg sleeping %s now %%,name zz}", "carol /{g x,boot bob,status b 1}", "alice /{pass bob,pass,boot bob,g y,g ~IDLE~}", "dave /status {b 1,b 3,q}", "-{alice,bob}", "+bob {x,y,~IDLE~}", "~{1,58,59,60,61,119,120,121,300}"});
  V pr = {seq({"~60", "~1", "alice /w", "~59", "~1", "~1", "alice /w"}), seq({"~61", "bob /g x", "bob /w", "~61", "bob : hi", "~61", "dave /w", "~121", "dave /w"}), seq({"~119", "bob /m alice hi", "~2", "dave /w", "~120", "{alice,bob,erin} /w ."})};
  int k = 0;
  for (V more : {V{"alice /status b 2"}, V{"alice /status b 1 q", "alice /p pw", "alice /status idlebootmsg %s idles"}, V{"alice /status b 2 r", "alice /g y", "dave /status b 1", "alice /p pw"}, V{"alice /status b 1", "bob /g ~IDLE~", "alice /status im 1", "~30", "erin : e"}}) { Conf a = base({}); a.pre = a.pre + more; a.acts = acts; a.probes = pr; r.push_back(sc("wide: idle users, state " + std::to_string(++k), d, a, T ? 28 : 24)); }
  return r;
}, 1);
static Registrar w23("C23", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V acts = X({"{alice,bob,dave} /ping {alice,bob,dave,BOB,server,Admin,zed}", "{alice,bob,dave} ! {m,mx}", "{alice,bob,dave} /beep {alice,bob,dave,BOB,zed,server}", "{alice,bob} /nobeep {on,off,verbose,ON,x,}", "bob /name {zed,bob}", "-{alice,bob,dave}", "+alice x", "+bob y", "+dave x - {bob,dave,alice}", "{bob,alice} /hush {alice,bob,-p alice,-o alice,-s *}", "bob /away {z %s,q}", "~{0.25,1,3}", "alice /g y", "bob /echoback verbose", "alice /drop bob pw", "carol /drop alice"});
  V pr = {seq({"{alice,bob,dave} ! m", "{alice,bob,dave} ! m"}), seq({"~0.5", "bob ! m", "alice ! m", "{alice,dave} /beep bob", "bob /beep {alice,dave}", "~1", "alice /ping bob", "~0.75", "bob ! m"}), seq({"-alice", "bob ! m", "+alice x", "bob ! m", "alice /ping bob", "-alice", "-dave", "+dave x", "bob ! m", "dave /ping bob", "bob ! m"}), seq({"-bob", "+bob x", "bob ! m", "alice /beep bob", "alice /ping bob", "bob ! m", "dave /beep zed"})};
  { Conf a = base({}); a.acts = acts; a.probes = pr; r.push_back(sc("wide: pings and beeps", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /ping bob", "dave /ping alice", "~0.5", "bob /ping dave", "bob /nobeep verbose", "alice /nobeep on"}); a.acts = acts; a.probes = pr; r.push_back(sc("wide: pings and beeps, some pending", d, a, T ? 28 : 24)); }
  return r;
}, 1);
static Registrar w25("C25", [](bool T) -> Sc {
  Sc r; int d = T ? 4 : 3;
  V acts = X({"{alice,bob} /hush {,-o ,-p ,-s ,-so ,-sp ,-q ,-n ,-qs ,-s -p ,-p -s -q ,-x ,-n -s }{erin,ERIN,er*,*@h1*}", "alice /shush {erin,-p erin}", "{alice,bob} /hush {,-s,-o,-p,-q}", "{alice,bob} /notify {,-s ,-q ,-n }{erin,ERIN,*@h1*}", "{alice,bob} /notify", "{alice,bob} /echoback {on,off,verbose,ON,,x}", "{alice,bob} /nobeep {on,off,verbose,,x}", "{alice,bob} /away {z %s,plain,%s %s,,%%}", "{alice,bob} /noaway", "alice /talk {,-r ,-d ,-ar }{erin,ERIN,bob}", "alice /invite {,-s ,-r ,-q }{erin,bob,dave}", "alice /cancel {,-s }{erin,ERIN,dave}", "erin /name {ern,erin}", "-{alice,bob}", "+alice x"});
  V pr = {seq({"{alice,bob} /{hush,notify,away,talk,invite}", "alice /status"}), seq({"erin : o", "erin /m {alice,bob} p", "erin /beep {alice,bob}", "alice : o", "bob : o", "alice /m bob p", "bob /m alice p"}), seq({"-erin", "+erin x", "-erin", "{alice,bob} /hush erin", "{alice,bob} /hush -s *@h1*", "{alice,bob} /notify erin", "{alice,bob} /hush", "{alice,bob} /notify"})};
  { Conf a = base({"alice /status c"}); a.acts = acts; a.probes = pr; r.push_back(sc("wide: lists and settings", d, a, T ? 28 : 24)); }
  { Conf a = base({"alice /hush erin", "alice /hush -o er*", "alice /hush -sp *@h1*", "bob /hush -s *@h1*", "alice /notify erin", "alice /notify -s *@h1*", "bob /nobeep on", "alice /echoback verbose", "bob /away q %s", "alice /status r", "alice /invite dave"}); a.acts = acts; a.probes = pr; r.push_back(sc("wide: lists and settings in place", d, a, T ? 28 : 24)); }
  { // every hush list full, by each of the flags
    Conf a = base({});
    for (int i = 0; i < 31; i++) for (str f : {"-qo", "-qp", "-qso", "-qsp"}) a.pre.push_back("alice /hush " + f + " " + f.substr(2) + std::to_string(i));
    a.acts = X({"alice /hush {,-o ,-p ,-s ,-so ,-sp }{erin,bob,o0,p0,so0,sp0,so30,er@h1.test,*@h1*}", "alice /hush"}); a.probes = {pr[1], "alice /hush"}; r.push_back(sc("wide: full hush lists", T ? 4 : 3, a, 23)); }
  return r;
}, 1);
// ---- addresses of every kind: IPv4, IPv4 seen through an IPv6 socket, IPv6, without a name, with a forged name
static std::vector<Role> families() { return {{"alice", "al", 0}, {"bob", "bo", 1}, {"mapped", "al", 4}, {"six", "al", 5}, {"noname", "al", 6}, {"forged", "al", 7}, {"mapno", "al", 8}, {"sixforge", "bo", 9}, {"shorter", "al", 10}, {"longer", "al", 11}, {"longest", "al", 12}}; }
static Registrar w27("C27", [](bool T) -> Sc {
  Sc r; std::vector<str> who = {"alice", "mapped", "six", "noname", "forged", "mapno", "sixforge", "shorter", "longer", "longest"};
  V rules = X({"=icbd.deny {*@h0.test,*@h4.test,*@h5.test,*@h1.test,*@10.0.0.5,*@*10.0.0.7*,*@*10.0.0.5*,*@*10.0.0.9*,*@*2001*,*@*ffff*,al@h4.test,AL@H5.*,*@h0.test.org,*@h0.tes,*@a*.test,al@*b.test} why\\n", "=icbd.perms user al {h0.test,h4.test,h5.test,10.0.0.5} perm_deny\\n", "=icbd.perms mask {10.0.0.5 255.255.255.255,10.0.0.9 255.255.255.255,10.0.0.8 255.255.255.254,10.0.0.0 255.255.255.0,0.0.0.0 0.0.0.0,0.0.0.0 255.255.255.255,32.1.13.184 255.255.255.255} perm_deny\\n", "=icbd.{deny,perms}"});
  { Conf a; a.roles = families(); a.pre = {"+bob x"}; a.acts = rules; for (auto &w : who) { a.acts.push_back("+" + w + " x"); a.acts.push_back("-" + w); }
    str look = "bob /w"; for (auto &w : who) look += " ;; bob /whereis " + w; a.probes = {look}; r.push_back(sc("rules for addresses of every kind", T ? 4 : 3, a, T ? 26 : 23)); }
  { Conf a; a.roles = families(); a.pre = {"+bob x"}; a.acts = rules; str all, off; for (auto &w : who) { all += (all.empty() ? "+" : " ;; +") + w + " x"; off += " ;; -" + w; } a.probes = {all + " ;; bob /w" + off + " ;; " + all}; r.push_back(sc("rules for addresses of every kind, everybody logs in", T ? 3 : 2, a, 22)); }
  { // names with several addresses
    Conf a; a.roles = {{"alice", "al", 0}, {"bob", "bo", 1}, {"two", "al", 13}, {"not", "al", 14}, {"mix", "al", 15}}; a.pre = {"+bob x"};
    a.acts = X({"=icbd.deny {*@two.test,*@not.test,*@mix.test,*@*10.0.0.16*,*@*2001*,*@10*} why\\n", "=icbd.perms user al {two.test,not.test,mix.test} perm_deny\\n", "=icbd.perms mask {10.0.0.14,10.0.0.15,10.0.0.16,10.0.0.17,10.0.0.19} 255.255.255.255 perm_deny\\n", "=icbd.{deny,perms}", "+{alice,two,not,mix} x", "-{two,mix}"});
    a.probes = {"bob /w ;; bob /whereis two ;; bob /whereis not ;; bob /whereis mix"}; r.push_back(sc("names with several addresses", T ? 5 : 4, a, T ? 25 : 23)); }
  return r;
}, 1);
static Registrar w15a("C15", [](bool T) -> Sc {
  Sc r; std::vector<str> who = {"alice", "mapped", "six", "noname", "forged", "mapno", "sixforge", "shorter", "longer", "longest"};
  for (auto &owner : who) { // the owner registered a nickname; who else is taken for the owner?
    Conf a; a.db = true; a.roles = families(); a.pre = {"+bob x", "+" + owner + " x - nick", owner + " /p pw", "-" + owner};
    for (auto &w : who) { for (str p : {"-", "pw", "bad"}) a.acts.push_back("+" + w + " x " + p + " nick"); a.acts.push_back(w + " /rname R"); a.acts.push_back("-" + w); a.acts.push_back(w + " /secure"); a.acts.push_back("+" + w + " x - nick login bo"); }
    a.probes = {"bob /whois nick ;; bob /w"};
    r.push_back(sc("a nickname registered from " + owner + "'s address", T ? 4 : 3, a, T ? 26 : 22));
  }
  return r;
}, 2);
// ---- as many connections as there can be
static Sc full(bool T) {
  Sc r; Conf a; a.roles.clear();
  for (int i = 0; i < 13; i++) a.roles.push_back({"u" + std::to_string(i), "id", i % 4});
  a.pre = {"+u0 x", "+u1 x", "u0 /p pw", "u0 /notify *", "u1 /hush -s *@icb*"};
  for (int i = 2; i < 10; i++) a.pre.push_back("^u" + std::to_string(i));   // descriptors 4 .. 13
  a.acts = X({"^u{10,11,12}", "+u{10,11,12} y", "-u{2,9,10,11,12}", "#u{3,12}", "u{2,10,11,12} : hi", "u{10,11,12} /{m u0 hi,w,beep u1,topic t,name zed,g x}", "u{10,11,12} ! {m,n}", "u2 ! aid|zed|x|login|", "u{10,11,12} ! aid|zed|x|login|", "u0 : o", "u1 /m server read", "u0 /whereis server", "u0 /beep server", "-u1", "+u1 x", "u0 /stats"});
  a.probes = {seq({"u0 /w", "u0 /whereis server", "u0 : o", "u1 /m server help", "u0 /beep server", "-u9", "+u12 x", "u12 : hello", "u0 /w"})};
  r.push_back(sc("as many connections as there can be", T ? 4 : 3, a, T ? 26 : 23)); return r;
}
static Registrar w04f("C04", full, 2), w03f("C03", full, 2);

// ------------------------------------------------------------------ many connections (server built for 40 users: the table of polled descriptors grows past its first sizes)
static Registrar big("many", [](bool T) -> Sc {
  Sc r;
  auto conf = [](int n, int spare) {
    Conf a; a.mu = 40; a.roles.clear();
    for (int i = 0; i < n + spare; i++) { str d = std::to_string(i); a.roles.push_back({"u" + d, "i" + d, i % 4}); if (i < n) a.pre.push_back("+u" + d + (i % 3 ? " x" : " y")); }
    return a;
  };
  { Conf a = conf(13, 6);
    a.acts = X({"+u{13,14,15,16,17} x", "^u{13,14}", "-u{0,1,11,12,13,14,15,16}", "#u{12,14}", "u{1,14,15} : hi", "u1 /m u{12,14,16} yo", "u{14,15} /m u1 yo", "-u1 & -u14", "-u14 & u1 : late", "u1 /g y", "u14 /g y", "~1"});
    a.probes = {seq({"u{2,0} /w", "u2 : all"})};
    r.push_back(sc("more connections than the first table of descriptors holds", T ? 6 : 5, a, T ? 26 : 23)); }
  { Conf a = conf(29, 6);
    a.acts = X({"+u{29,30,31,32,33,34} x", "-u{0,1,28,29,30,31}", "#u{28,30}", "u{1,29,31} : hi", "u1 /m u{28,30,33} yo", "u31 /m u1 yo", "-u1 & -u29", "u29 /g y", "~1"});
    a.probes = {seq({"u{2,0} /w", "u2 : all"})};
    r.push_back(sc("more connections than the second table of descriptors holds", T ? 5 : 4, a, T ? 26 : 22)); }
  { Conf a = conf(34, 4);
    a.acts = X({"+u{34,35,36,37} x", "^u34", "-u{0,1,33,34}", "#u34", "u{1,34} : hi", "u1 /m u{33,34} yo", "u34 /m u1 yo", "-u1 & -u33", "~1"});
    a.probes = {seq({"u{2,0} /w", "u2 : all"})};
    r.push_back(sc("as many connections as a larger server takes", T ? 6 : 5, a, T ? 26 : 22)); }
  return r;
});
// ---- and more than 128 (server built for 140 users)
static Registrar big2("many2", [](bool T) -> Sc {
  Sc r; Conf a; a.mu = 140; a.roles.clear(); int n = 128;      // descriptors 4..131
  for (int i = 0; i < n + 6; i++) { str d = std::to_string(i); a.roles.push_back({"u" + d, "i" + d, i % 4}); if (i < n) a.pre.push_back("+u" + d + (i < 2 || i >= n - 6 ? " x" : " g" + std::to_string(i % 9))); }
  a.pre = a.pre + V{"u127 /p pw", "u126 /away gone %s", "u125 /notify u128", "u1 /hush u127", "u124 /hush u1", "u125 /echoback on", "u5 /status r", "u126 /g y", "u126 /status c", "u126 /talk u127"};
  a.acts = X({"+u{128,129} {x,y}", "+u{128} x pw u127", "-u{0,123,124,126,127}", "#u{125,127}", "u{0,1,124,125,127} : hi", "u1 /m u{124,126,127,128} yo", "u127 /m u1 yo", "u{127,1} /g y", "u126 /g x", "u126 /pass u127", "u126 /boot u127", "u126 /invite u1", "u127 /ping u1", "u1 /ping u127", "u{1,127} ! m", "u1 /beep u127", "u0 /status m", "u0 /pass u127", "u127 /name u200", "u128 : hi", "u5 /invite u127", "u127 /g g5", "-u0 & -u127", "u127 : late & -u127", "~{1,301}", "u127 /write u127 hi", "u127 /read", "u128 /whereis u127"});
  a.probes = {seq({"u1 /w x", "u125 /w y", "u2 /w @u127", "u1 : all", "u127 : o", "u127 /status", "u2 /stats"})};
  r.push_back(sc("more than 128 connections", T ? 4 : 3, a, T ? 25 : 22));
  return r;
});
// ---- names that resemble the administrator's carry none of its rights
static Sc near_admin(bool T) {
  Sc r; Conf a; a.roles.push_back({"erin", "er", 1}); const str N = "{A,AD,ADMI,ADMINS,ADMIN1,ADMINISTRATO,Admi,xADMIN,ADMIN,admin,DMIN,ADMIN.,AdMiN}";
  a.pre = X({"+alice x", "+bob x", "+erin y", "erin /p pw", "+dave y - ADMI"});
  a.acts = X({"dave /name " + N, "-dave", "+dave {x,y,@alice} - " + N, "alice /boot {ADMI,ADMINS,ADMIN,AD}", "+dave {x,@alice} adm_pw {ADMINS,ADMIN,admin}", "alice /status {i,s,r,v,m,c,q}", "alice /invite dave", "alice /g ..z", "bob /away {gone %s,}", "dave /g {x,y}"});
  a.probes = {seq({"dave /w", "dave /w x", "dave /w -s", "dave /w @alice", "dave /whereis {alice,bob}", "dave /g @alice", "dave /w", "dave /g x", "dave : hi"}), seq({"dave /wall hi", "dave /log 3", "dave /shuttime", "dave /drop erin", "dave /drop erin bad", "dave /shutdown 9", "dave /shuttime", "dave /restart", "erin /w", "dave /boot {bob,alice}", "dave /topic T", "dave /status {c,name zz}", "dave /invite erin", "dave /pass bob", "bob /w"}), seq({"erin /m {ADMI,ADMIN,ADMINS} hi", "erin /whois {ADMIN,ADMINS}", "erin /notify ADMIN", "erin /hush ADMI", "dave : o", "-dave", "bob /w"})};
  r.push_back(sc("names that resemble the administrator's", T ? 5 : 4, a, T ? 26 : 23));
  return r;
}
static Registrar na13("C13", near_admin, 3), na21("C21", near_admin, 3), na10("C10", near_admin, 3), na11("C11", near_admin, 3), na04("C04", near_admin, 3);

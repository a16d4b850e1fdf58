// Exhaustive enumeration of inputs to the real string functions (C19 text and name filters, C20 wildcard matching,
// C25 name lists) against independent oracles.
#include "sys.hh"
#include "msys.hh"
#include <sys/mman.h>
#include <set>
using namespace ms;
typedef std::function<str(uint64_t &cases)> Block;
struct PureSys : SysT<int> {
  std::vector<std::pair<str, Block>> blocks;
  explicit PureSys(std::vector<std::pair<str, Block>> b) : blocks(b) { m = 0; }
  str setup() override { return ""; }
  int nactions() override { return blocks.size(); }
  str name(int a) override { return blocks[a].first; }
  uint64_t mhash() override { return 0; }
  str step(int a) override { // the loop runs on the code under test's stack: crashes and hangs are caught
    str e; uint64_t n = 0; vos::Stop s = vos::run_call([&]() { e = blocks[a].second(n); });
    cases += n; obs += n;
    if (s == vos::CRASH || s == vos::HANG) return vos::crash_info + " at " + cur;
    return e;
  }
  static str cur;
};
str PureSys::cur;
static Scenario pure(const str &n, std::vector<std::pair<str, Block>> b) { return Scenario{n, [=]() { return std::unique_ptr<Sys>(new PureSys(b)); }, 1, 16, 600}; }
// a buffer that ends at an inaccessible page
struct Guard { char *end; Guard() { char *p = (char *)mmap(nullptr, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + 2 * 4096, 4096, PROT_NONE); end = p + 2 * 4096; mprotect(p, 4096, PROT_NONE); }
  char *put(const char *s, size_t n) { char *q = end - n - 1; memcpy(q, s, n); q[n] = 0; return q; } };

// ------------------------------------------------------------------ C20
struct Pat { // compiled by the textbook definition; states are a bit mask
  struct T { bool star; bool set[256]; }; std::vector<T> t; bool bad = false;
  explicit Pat(const str &p) {
    for (size_t i = 0; i < p.size();) {
      T x; x.star = false; memset(x.set, 0, sizeof x.set);
      char c = p[i];
      if (c == '*') { x.star = true; i++; }
      else if (c == '?') { memset(x.set, 1, sizeof x.set); i++; }
      else if (c == '\\') { if (i + 1 >= p.size()) { bad = true; return; } x.set[(unsigned char)p[i + 1]] = true; i += 2; }
      else if (c == '[') {
        size_t j = i + 1; bool neg = false; if (j < p.size() && p[j] == '^') { neg = true; j++; }
        bool first = true; int prev = -1;
        for (;; first = false) {
          if (j >= p.size()) { bad = true; return; }
          if (p[j] == ']' && !first) break;
          if (p[j] == '-' && !first && j + 1 < p.size() && p[j + 1] != ']') { for (int k = prev; k <= (unsigned char)p[j + 1]; k++) x.set[k] = true; prev = (unsigned char)p[j + 1]; j += 2; continue; }
          x.set[(unsigned char)p[j]] = true; prev = (unsigned char)p[j]; j++;
        }
        if (neg) for (auto &b : x.set) b = !b;
        i = j + 1;
      } else { x.set[(unsigned char)c] = true; i++; }
      t.push_back(x);
    }
  }
  bool match(const char *s, size_t n) const {
    if (bad) return false;
    uint64_t st = 1; auto eps = [&]() { for (size_t i = 0; i < t.size(); i++) if ((st >> i & 1) && t[i].star) st |= 1ull << (i + 1); };
    eps();
    for (size_t k = 0; k < n; k++) { uint64_t nx = 0; for (size_t i = 0; i < t.size(); i++) if (st >> i & 1) { if (t[i].star) nx |= 1ull << i; else if (t[i].set[(unsigned char)s[k]]) nx |= 2ull << i; } st = nx; eps(); if (!st) return false; }
    return st >> t.size() & 1;
  }
};
static void all_strings(const str &al, size_t n, std::vector<str> &o) { std::vector<str> lv = {""}; o.push_back(""); for (size_t k = 0; k < n; k++) { std::vector<str> nx; for (auto &s : lv) for (char c : al) nx.push_back(s + c); for (auto &s : nx) o.push_back(s); lv = nx; } }
static std::vector<std::pair<str, Block>> wild_blocks(const str &al, int n, const str &tal, int tn) {
  std::vector<std::pair<str, Block>> r;
  auto one = [=](str prefix, bool exact) -> Block { return [=](uint64_t &cases) -> str {
    int (*wm)(char *, char *) = (int (*)(char *, char *))vos::sym("wildmat"); if (!wm) return "";
    std::vector<str> texts; all_strings(tal, tn, texts); static std::vector<Guard *> pool; while (pool.size() < texts.size() + 1) pool.push_back(new Guard);
    std::vector<char *> tp; for (size_t i = 0; i < texts.size(); i++) tp.push_back(pool[i + 1]->put(texts[i].data(), texts[i].size()));
    std::vector<str> todo = {prefix};
    while (!todo.empty()) {
      str p = todo.back(); todo.pop_back();
      vos::progress();
      Pat c(p); char *pp = pool[0]->put(p.data(), p.size());
      for (size_t i = 0; i < texts.size(); i++) {
        cases++; bool want = c.match(texts[i].data(), texts[i].size());
        PureSys::cur = ""; 
        if (!i) PureSys::cur = "pattern '" + p + "'";
        bool got = wm(tp[i], pp) != 0;
        if (got != want) return "pattern '" + icb::vis(p) + "' and text '" + icb::vis(texts[i]) + "': " + (got ? "matched" : "not matched") + ", should" + (want ? "" : " not") + " match";
      }
      if (!exact && (int)p.size() < n) for (char ch : al) todo.push_back(p + ch);
    }
    return ""; }; };
  r.push_back({"pattern ''", one("", true)});
  for (char a : al) { r.push_back({str("pattern ") + icb::vis(str(1, a)), one(str(1, a), true)}); for (char b : al) r.push_back({"patterns " + icb::vis(str() + a + b) + "...", one(str() + a + b, false)}); }
  return r;
}
static Registrar c20("C20", [](bool T) -> std::vector<Scenario> {
  std::vector<Scenario> r;
  r.push_back(pure("all patterns with classes", wild_blocks("ab*?[]^-\\", T ? 7 : 6, "ab-]\\^", 3)));
  r.push_back(pure("all star patterns", wild_blocks("ab*?", T ? 10 : 9, "ab", T ? 8 : 7)));
  r.push_back(pure("classes with ranges, letter case and bytes above 127", wild_blocks(str("aBc[-]^"), T ? 7 : 6, str("abBc-"), 2)));
  r.push_back(pure("bytes above 127", wild_blocks(str("a\xe9\xff*?[]^\\"), 5, str("a\xe9\xff"), 3)));
  std::vector<std::pair<str, Block>> b;
  for (int k = 1; k <= (T ? 20 : 12); k++) b.push_back({"long chains of stars, " + std::to_string(k), [=](uint64_t &cases) -> str {
    int (*wm)(char *, char *) = (int (*)(char *, char *))vos::sym("wildmat"); if (!wm) return "";
    for (int n : {20, 60, 250}) for (str piece : {"a*", "*a", "*ab", "?*", "[ab]*", "*a?"}) for (str end : {"", "b", "*", "c", "\\", "["}) for (char t : {'a', 'b'}) for (str te : {"", "b", "c"}) {
      str p; while ((int)p.size() < 5 * k) p += piece; p += end; if (p.size() > 62) p.resize(62); str x(n, t); x += te; Pat c(p); vos::progress(); PureSys::cur = p + " on " + x;
      cases++; Guard *g = new Guard, *h = new Guard; bool got = wm(g->put(x.data(), x.size()), h->put(p.data(), p.size())) != 0; munmap(g->end - 8192, 12288); munmap(h->end - 8192, 12288); delete g; delete h;
      if (got != c.match(x.data(), x.size())) return "pattern '" + p + "' and text '" + x + "' of " + std::to_string(x.size()) + " characters"; }
    return ""; }});
  r.push_back(pure("long patterns terminate", b));
  return r;
});

// ------------------------------------------------------------------ C19
static bool validchar(const char *s, int n, uint32_t &cp) { // is s[0..n) exactly one valid UTF-8 character?
  unsigned char b = s[0]; int len; if (b < 0x80) { cp = b; len = 1; } else if ((b & 0xE0) == 0xC0) { cp = b & 31; len = 2; } else if ((b & 0xF0) == 0xE0) { cp = b & 15; len = 3; } else if ((b & 0xF8) == 0xF0) { cp = b & 7; len = 4; } else return false;
  if (len != n) return false; for (int i = 1; i < n; i++) { if (((unsigned char)s[i] & 0xC0) != 0x80) return false; cp = cp << 6 | (s[i] & 0x3F); }
  return cp <= 0x10FFFF && !(cp >= 0xD800 && cp <= 0xDFFF) && (cp < 0x80 ? n == 1 : cp < 0x800 ? n == 2 : cp < 0x10000 ? n == 3 : n == 4);
}
static int charlen(const char *s, size_t left) { uint32_t cp; for (int n = 1; n <= 4 && n <= (int)left; n++) if (validchar(s, n, cp)) return n; return 0; }
static str filter_check(const char *in, size_t n, size_t lim, Guard &gi, Guard &go) {
  typedef void (*F)(const char *, char *, size_t); static F f = (F)vos::sym("filtertext"); if (!f) return "";
  char *src = gi.put(in, n), *dst = go.end - lim - 1; memset(dst, 0, lim + 1);
  f(src, dst, lim);
  size_t on = strnlen(dst, lim + 1); char out[32]; if (on > 30) return "too long"; memcpy(out, dst, on);
  auto bad = [&](const char *w) { return str(w) + ": '" + icb::vis(str(in, n)) + "' limited to " + std::to_string(lim) + " becomes '" + icb::vis(str(out, on)) + "'"; };
  if (on > lim) return bad("too long");
  // what is valid in the input, in order; whether all of it is printable
  char keep[32]; size_t kn = 0; bool allok = true; size_t full = 0;
  for (size_t i = 0; i < n;) { int L = charlen(in + i, n - i); if (!L) { allok = false; i++; continue; } if (L == 1 && (unsigned char)in[i] < 0x20) { allok = false; i++; continue; } if (allok && i + L <= lim) full = i + L; if (in[i] != '?') { memcpy(keep + kn, in + i, L); kn += L; } i += L; }
  if (allok) { if (on != full || memcmp(out, in, full)) return bad("valid text is altered"); return ""; }
  char got[32]; size_t gn = 0;
  for (size_t i = 0; i < on;) { int L = charlen(out + i, on - i); if (!L) return bad("invalid UTF-8 gets through"); if (L == 1 && (unsigned char)out[i] < 0x20) return bad("a control character gets through"); if (out[i] != '?') { memcpy(got + gn, out + i, L); gn += L; } i += L; }
  // nothing invented: the valid characters of the output are those of the input, in order, and all of them if there is room
  if (gn > kn || memcmp(got, keep, gn)) return bad("characters are altered");
  if (n <= lim && gn != kn) return bad("valid characters are lost");
  return "";
}
static std::vector<std::pair<str, Block>> filter_blocks(std::vector<int> al, int n, bool limits) {
  std::vector<std::pair<str, Block>> r;
  for (int a : al) for (int half = 0; half < 2; half++) r.push_back({"texts starting with byte " + std::to_string(a) + (half ? "b" : "a"), [=](uint64_t &cases) -> str {
    static Guard gi, go; std::vector<int> ix; char buf[16]; buf[0] = a;
    size_t A = al.size();
    for (int len = half ? n : 1; len <= (half ? n : n - 1); len++) {
      std::vector<size_t> c(len, 0);
      for (;;) {
        for (int k = 1; k < len; k++) buf[k] = al[c[k]];
        if ((cases & 0xfff) == 0) vos::progress(); cases++;
        str e = filter_check(buf, len, len, gi, go); if (!e.empty()) return e;
        if (limits) for (int l = 0; l < len; l++) { e = filter_check(buf, len, l, gi, go); if (!e.empty()) return e; }
        int k = len - 1; while (k >= 1 && ++c[k] == A) c[k--] = 0; if (k < 1) break;
      }
    }
    return ""; }});
  return r;
}
static Registrar c19("C19", [](bool T) -> std::vector<Scenario> {
  std::vector<Scenario> r; std::vector<int> every; for (int i = 1; i < 256; i++) every.push_back(i);
  std::vector<int> cls = {0x01, 0x1f, 0x20, 'a', '?', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff};
  r.push_back(pure("all texts of three bytes", filter_blocks(every, 3, false)));
  r.push_back(pure("all texts over the byte classes, with every limit", filter_blocks(cls, T ? 5 : 4, true)));
  if (!T) { std::vector<int> few = {0x02, 'a', 0x80, 0x9f, 0xbf, 0xc3, 0xe0, 0xed, 0xf0, 0xf4, 0xff}; r.push_back(pure("longer texts over fewer byte classes, with every limit", filter_blocks(few, 6, true))); }
  std::vector<std::pair<str, Block>> b;
  for (int which = 0; which < 2; which++) for (int a = 1; a < 256; a++) b.push_back({str(which ? "group" : "nick") + " names with byte " + std::to_string(a), [=](uint64_t &cases) -> str {
    void (*f)(char *) = (void (*)(char *))vos::sym(which ? "filtergroupname" : "filternickname"); if (!f) return ""; static Guard g;
    const char *ok = which ? "-.!'$+,/?_~" : "-.!'$+,/?_@";
    for (int c = 0; c < 256; c++) for (int pos = 0; pos < 3; pos++) {
      str s = "xY9"; s[pos] = a; s[(pos + 1) % 3] = c ? c : 'q'; char *p = g.put(s.data(), 3); f(p); cases++; str o = p;
      if (o.size() != 3) return "a name changes its length: " + icb::vis(s);
      for (int i = 0; i < 3; i++) { unsigned char x = s[i], y = o[i]; bool fine = isalnum(x) && x < 128; if (!fine && strchr(ok, x)) fine = true; if (fine ? x != y : y != (x == ' ' ? '_' : '?')) return "name '" + icb::vis(s) + "' becomes '" + icb::vis(o) + "'"; }
    }
    return ""; }});
  r.push_back(pure("nickname and group name characters", b));
  return r;
}, 1);

// ------------------------------------------------------------------ C25 name lists
struct NL { void *head, *tail, *p; int num, max; };
struct NW { std::vector<str> v; int max = 0; };
extern "C" void *v_calloc(size_t, size_t);
struct NlSys : SysT<NW> {
  std::vector<str> names; int max; std::vector<str> lines;
  NlSys(std::vector<str> n, int mx) : names(n), max(mx) {}
  void (*put)(NL *, char *), (*clear)(NL *), (*init)(NL *, int); int (*del)(NL *, char *), (*present)(char *, NL), (*match)(char *, NL); unsigned (*count)(NL); char *(*get)(NL *);
  str call(std::function<void()> f) { vos::Stop s = vos::run_call(f); return s == vos::FINISHED ? "" : vos::crash_info.empty() ? str("the function does not return") : vos::crash_info; }
  str setup() override {
    put = (decltype(put))vos::sym("nlput"); clear = (decltype(clear))vos::sym("nlclear"); init = (decltype(init))vos::sym("nlinit"); del = (decltype(del))vos::sym("nldelete"); present = (decltype(present))vos::sym("nlpresent"); match = (decltype(match))vos::sym("nlmatch"); count = (decltype(count))vos::sym("nlcount"); get = (decltype(get))vos::sym("nlget");
    if (!put || !clear || !init || !del || !present || !match || !count || !get) return "the name list functions are missing";
    vos::S.roots[0] = v_calloc(1, sizeof(NL)); NL *l = (NL *)vos::S.roots[0];
    for (auto &n : names) { lines.push_back("put " + n); lines.push_back("delete " + n); } lines.push_back("clear"); lines.push_back("get");
    return call([=]() { init(l, max); });
  }
  int nactions() override { return lines.size(); }
  str name(int a) override { return lines[a]; }
  bool enabled(int a) override { return lines[a] != "get" || !m.v.empty(); }
  uint64_t mhash() override { uint64_t h = 5; for (auto &s : m.v) h = vos::hash_bytes(s.data(), s.size(), h); return h; }
  str step(int a) override {
    NL *l = (NL *)vos::S.roots[0]; str e; const str &L = lines[a]; str n = a / 2 < (int)names.size() ? names[a / 2] : ""; char b[64]; strcpy(b, n.c_str()); int r = -9;
    auto at = [&](const str &s) { for (size_t i = 0; i < m.v.size(); i++) if (!strcasecmp(m.v[i].c_str(), s.c_str())) return (int)i; return -1; };
    if (L[0] == 'p') { e = call([&]() { put(l, b); }); int i = at(n); if (i >= 0) { str o = m.v[i]; m.v.erase(m.v.begin() + i); m.v.insert(m.v.begin(), o); } else { if ((int)m.v.size() >= max) m.v.pop_back(); m.v.insert(m.v.begin(), n); } }
    else if (L[0] == 'd') { e = call([&]() { r = del(l, b); }); int i = at(n); if (e.empty() && (r == 0) != (i >= 0)) return "delete returned " + std::to_string(r); if (i >= 0) m.v.erase(m.v.begin() + i); }
    else if (L == "clear") { e = call([&]() { clear(l); }); m.v.clear(); }
    else { str g; e = call([&]() { g = get(l); }); if (e.empty() && at(g) < 0) return "get returned a name that is not in the list"; }
    if (!e.empty()) return e;
    unsigned c = 0; e = call([&]() { c = count(*l); }); if (!e.empty()) return e; if (c != m.v.size()) return "count is " + std::to_string(c) + " instead of " + std::to_string(m.v.size());
    for (auto &n : names) { strcpy(b, n.c_str()); int p = 0, q = 0; e = call([&]() { p = present(b, *l); q = match(b, *l); }); if (!e.empty()) return e; obs += 2; bool w = false; for (auto &x : m.v) if (md::wild(n.c_str(), x.c_str())) w = true;
      if (!!p != (at(n) >= 0)) return n + (p ? " is in the list although it should not" : " is not in the list"); if (!!q != w) return n + (q ? " matches" : " does not match"); }
    // a full cycle of get lists every entry once, in order
    if (c) { std::vector<str> all; e = call([&]() { for (unsigned i = 0; i < c; i++) all.push_back(get(l)); }); if (!e.empty()) return e;
      for (size_t s = 0; s < m.v.size(); s++) { std::vector<str> rot(m.v.begin() + s, m.v.end()); rot.insert(rot.end(), m.v.begin(), m.v.begin() + s); if (rot == all && (s == 0 || (L[0] != 'p' && L != "clear"))) return ""; }
      return "listing the entries gives something else"; }
    return "";
  }
};
static Registrar c25n("C25", [](bool T) -> std::vector<Scenario> {
  std::vector<Scenario> r;
  for (int mx : {1, 2, 3, 4}) r.push_back(Scenario{"the list functions, at most " + std::to_string(mx) + " entries", [=]() { return std::unique_ptr<Sys>(new NlSys({"a", "A", "b", "b*", "cc"}, mx)); }, T ? 9 : 7, 22, 600});
  return r;
}, 1);

// ------------------------------------------------------------------ C19 at the server: every way for text to get to another user
static std::vector<str> text_ways(const str &P) {
  auto q = [](const str &t, const str &p) { str o; for (char c : t) if (c == '\2') o += p; else o += c; return o; };
  std::vector<str> o;
  for (const char *t : {"alice : \2", "alice : \2x", "alice /m bob \2", "alice /m bob a\2", "alice /m \2 hi", "alice /exclude carol \2", "alice /exclude \2 hi", "alice /topic \2 ;; bob /topic ;; bob /w", "alice /away \2%s ;; bob /m alice hi", "alice /rname \2 ;; bob /whois alice", "alice /addr \2 ;; bob /whois alice",
       "alice /phone \2 ;; bob /whois alice", "alice /email \2 ;; bob /whois alice", "alice /www \2 ;; bob /whois alice", "alice /text \2 ;; bob /whois alice", "alice /write bob \2 ;; bob /read", "alice /status name \2 ;; bob /w", "alice /status idlebootmsg %s\2 ;; ~7300", "alice /name \2 ;; bob /w", "alice /g \2 ;; bob /w ;; alice : hi",
       "^dave ;; dave ! a\2|dave|x|login| ;; bob /w", "^dave ;; dave ! ada|\2|x|login| ;; bob /w ;; dave : hi", "^dave ;; dave ! ada|da\2|x|login| ;; dave /m bob hi", "^dave ;; dave ! ada|dave|\2|login| ;; bob /w ;; dave : x", "^dave ;; dave ! ada|dave|x|\2| ;; bob /w", "^dave ;; dave ! ada|dave|x|login|\2 ;; bob /w", "alice /boot \2", "alice /beep \2", "alice /ping \2", "bob /ping alice ;; alice ! m\2",
       "alice ! l\2", "alice /whereis \2", "alice /hush \2 ;; alice /hush", "alice /notify \2 ;; alice /notify", "alice /invite \2 ;; alice /invite", "alice /invite -s \2 ;; alice /invite", "alice /status c ;; alice /talk \2 ;; alice /talk", "alice /whois \2", "alice /w \2", "alice /w @\2", "alice /g @\2", "alice /\2 x", "alice ! \2", "alice /m server \2", "alice /status \2", "alice /news \2",
       "alice /pass \2", "alice /drop \2 pw", "admin /wall \2", "admin /shutdown 10 \2", "alice /echoback \2", "alice /p \2", "alice /cp ap \2", "alice /read \2", "alice /cancel \2"}) o.push_back(q(t, P));
  return o;
}
static Registrar c19s("C19", [](bool T) -> std::vector<Scenario> {
  std::vector<Scenario> r; typedef std::vector<str> V;
  Conf base; base.clean = true; base.pre = {"+alice x", "+bob x", "+carol x", "alice /p ap", "bob /p bp", "bob /echoback verbose", "alice /echoback verbose", "+admin x adm_pw ADMIN"};
  base.roles.push_back({"admin", "ad", 3});
  ModelSys ps(base);
  std::function<bool(const Act &)> ok = [&](const Act &a) { if (!a.both.empty()) return ok(a.both[0]) && ok(a.both[1]); return a.payload.size() <= 253; };
  auto fits = [&](const str &l) { return ok(ps.parse(l)); };
  auto add = [&](const str &n, const V &ps, int depth) { Conf a = base; for (auto &p : ps) for (auto &x : text_ways(p)) if (fits(x)) a.acts.push_back(x); r.push_back(sc(n, depth, a, 22)); };
  V one; for (int b = 1; b < 256; b++) if (b != '|' && b != ' ' && b != '&' && b != ';') one.push_back(str(1, (char)b)); add("every byte, every way", one, 1);
  V mid; for (int b : {1, 2, 7, 8, 9, 10, 13, 27, 31, 127, 128, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xef, 0xf0, 0xf4, 0xf5, 0xff}) for (str w : {"a", "a b"}) mid.push_back(w + (char)b + w);
  for (str u : {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc0\x80", "\xe0\x80\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xc3(", "\xe2\x82(", "\xf0\x9f\x98(", "\xe2(\xac", "%s%n%x", "\x1b[2J", "\r\n", "\x01" "b\x01", "\x01\x01", "a\x01" "bob\x01hi", "\xc2\x85", "\xef\xbf\xbe"}) { mid.push_back(u); mid.push_back("x" + u + "y"); mid.push_back(u + u); }
  add("hostile texts, every way", mid, 1);
  V lng; str L; while (L.size() < 260) L += "0123456789";
  for (int n : {10, 11, 12, 13, 25, 26, 31, 32, 33, 53, 54, 55, 62, 63, 64, 65, 79, 80, 81, 100, 128, 190, 199, 200, 201, 210, 220, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246}) for (str u : {"", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff\xff", "\x02"}) lng.push_back(L.substr(0, n) + u);
  add("texts around every limit, every way", lng, 1);
  V four; for (int k = 0; k < 4; k++) { str s = L.substr(0, k); while (s.size() < 240) s += "\xf0\x9f\x98\x80"; for (int n : {12, 13, 14, 15, 32, 33, 34, 35, 62, 63, 64, 65, 80, 81, 82, 83, 200, 201, 202, 203, 232, 233, 234, 235, 236, 237, 238, 239, 240}) four.push_back(s.substr(0, n)); }
  for (int k = 0; k < 3; k++) { str s = L.substr(0, k); while (s.size() < 240) s += "\xe2\x82\xac"; for (int n : {12, 13, 14, 32, 33, 34, 54, 62, 63, 64, 80, 81, 82, 200, 201, 202, 232, 233, 234, 235, 236, 237, 238, 239, 240}) four.push_back(s.substr(0, n)); }
  add("texts of multi-byte characters cut anywhere, every way", four, 1);
  // two pieces of text together in one packet: nickname or group and text
  Conf a = base; a.acts = {"alice /name abcdefghijkl", "alice /name a\xe9\x01z", "alice /name \xc3\xa9", "alice /g gr\xffoup", "bob /g gr\xffoup", "alice /status name \x02\xc3\xa9", "alice /topic \xc3\xa9\xff\x03", "bob /w", "bob /topic", "alice : x\xff", "alice /m bob y\xc3", "bob /m alice \x1b", "alice /away \xff %s \xc3", "bob /beep alice", "alice /rname \xff\x01", "bob /whois alice", "alice /write bob \xff\xc3\xa9\x05", "bob /read", "alice /status idlebootmsg \xff %s \x07", "~7300", "alice /pass bob", "bob /boot alice", "-alice", "alice /status q", "alice /invite \xff", "bob /invite", "+alice x", "+dave x - d\xe9" "d", "+dave x - dave login d\xe9"};
  r.push_back(sc("hostile names and texts together", T ? 6 : 5, a, T ? 27 : 24));
  add("pairs of hostile texts", {"\xff", "\xc3\xa9", "\x07", "x\x01y", "%s", "\xe2\x82", L.substr(0, 200)}, 2);
  return r;
}, 2);

// ------------------------------------------------------------------ C20 at the server: patterns given by users and rules files
static Registrar c20s("C20", [](bool T) -> std::vector<Scenario> {
  std::vector<Scenario> r; typedef std::vector<str> V;
  V pats = {"*", "*@*", "bo@*", "BO@*", "?o@*", "??@h1.test", "??@h1?test", "[a-b]o@*", "[^a]o@*", "[^b]o@*", "[b]*", "[B]*", "[a-]*", "[]b]*", "[b-a]*", "[", "[b", "bo@h[0-9].test", "bo@h[^1].test", "bo@h1\\.test", "\\b\\o@*", "*h1*", "*h2*", "*.*", "*@h1.tes", "bo@h1.test", "bo@h1.test*", "bo@h1.test?", "*\\", "b*@*t", "*b*o*h*1*", "***", "?", "\\*", "bo@h1.TEST", "b[n-p]@*", "b[m-n]@*", "[[]*", "[^]b]*"};
  Conf base; base.pre = {"+alice x", "+carol y", "+bob y"};
  auto each = [&](std::initializer_list<const char *> ts) { V o; for (auto t : ts) for (auto &p : pats) { str q; for (const char *c = t; *c; c++) if (*c == '\2') q += p; else q += *c; o.push_back(q); } return o; };
  { Conf a = base; a.acts = each({"alice /hush -s \2", "alice /hush -sp \2", "alice /hush -so \2", "alice /hush \2"}); V o = {"bob /m alice hi", "bob /g x", "bob : hi", "bob /beep alice", "carol /m alice hi", "alice /hush"}; a.acts.insert(a.acts.end(), o.begin(), o.end()); r.push_back(sc("hushes by pattern", 3, a, 24)); }
  { Conf a = base; a.acts = each({"alice /notify -s \2", "alice /notify \2"}); V o = {"-bob", "+bob y", "-carol", "+carol y", "+bob y - rob", "alice /notify"}; a.acts.insert(a.acts.end(), o.begin(), o.end()); r.push_back(sc("watches by pattern", 3, a, 24)); }
  { Conf a = base; a.pre.push_back("bob /p bp"); a.pre.push_back("alice /status r"); a.acts = each({"alice /invite -s \2", "alice /invite -sr \2", "alice /invite -qs \2", "alice /cancel -s \2", "alice /invite \2"}); V o = {"bob /g x", "carol /g x", "alice /invite", "bob /name rob", "alice /status i ;; bob /w"}; a.acts.insert(a.acts.end(), o.begin(), o.end()); r.push_back(sc("invitations by pattern", 3, a, 24)); }
  { Conf a; a.pre = {"+alice x"}; a.acts = each({"=icbd.deny \2\\n", "=icbd.deny \2 reason\\n", "=icbd.deny x@y no\\n\2\\n"}); V o = {"+bob x", "+carol x", "-bob", "-carol", "alice /w"}; a.acts.insert(a.acts.end(), o.begin(), o.end()); r.push_back(sc("access rules by pattern", 3, a, 24)); }
  { Conf a; a.pre = {"+alice x", "+bob x", "bob /p bp", "alice /status c"}; V np = {"*", "bob", "BOB", "b*", "?ob", "[a-b]ob", "[^a]ob", "[^b]ob", "b\\ob", "bo", "bobb", "b??", "*b", "[", "b[", "\\"}; for (auto &p : np) for (str f : {"", "-r ", "-d "}) a.acts.push_back("alice /talk " + f + p); V o = {"bob : hi", "alice /talk", "bob /name rob", "bob /exclude alice hi", "bob /name bob"}; a.acts.insert(a.acts.end(), o.begin(), o.end()); r.push_back(sc("talk permissions by pattern", 3, a, 24)); }
  return r;
}, 1);

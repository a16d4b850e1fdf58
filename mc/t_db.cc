// C17: the user database as an exact persistent map - the real dbm_* and icbdb_* functions, driven by all operation
// sequences over small alphabets, compared with an ideal map after every operation; damaged files of every kind.
#include "sys.hh"
#include "msys.hh"
#include <map>
#include <set>
#include <functional>
using namespace ms;
typedef std::map<str, str> Map;
struct datum { char *dptr; int dsize; };
struct DBM;
static DBM *(*d_open)(const char *, int, int); static int (*d_sync)(DBM *); static void (*d_close)(DBM *);
static datum (*d_fetch)(DBM *, datum); static int (*d_store)(DBM *, datum, datum, int); static int (*d_delete)(DBM *, datum);
template <class F> static bool bind(F &f, const char *n) { f = (F)vos::sym(n); return f != nullptr; }
static str dbm_bind() {
  bool ok = bind(d_open, "dbm_open") & bind(d_sync, "dbm_sync") & bind(d_close, "dbm_close") & bind(d_fetch, "dbm_fetch") & bind(d_store, "dbm_store") & bind(d_delete, "dbm_delete");
  return ok ? "" : "the dbm functions are missing";
}
// run f on the code under test's stack; "" or what went wrong
static str call(std::function<void()> f, const str &what) {
  vos::Stop s = vos::run_call(f);
  if (s == vos::FINISHED) return "";
  if (s == vos::YIELD) return what + ": the code waits or exits";
  return what + ": " + vos::crash_info;
}
static str show(const str &s) { return "'" + icb::vis(s.size() > 40 ? s.substr(0, 40) + "...(" + std::to_string(s.size()) + ")" : s) + "'"; }
static uint64_t hmap(const Map &m, uint64_t h = 7) { for (auto &x : m) { h = vos::hash_bytes(x.first.data(), x.first.size(), h); h = vos::hash_bytes(x.second.data(), x.second.size(), h); } return vos::mix(h, m.size()); }
static void u32(str &o, uint32_t v) { for (int i = 0; i < 4; i++) o += (char)(v >> 8 * i); }
static str encode(const Map &m) { str o("IDB\x01", 4); u32(o, m.size()); for (auto &x : m) { u32(o, x.first.size()); u32(o, x.second.size()); o += x.first + x.second; } return o; }
enum Verdict { VALID, REJECT, DUP };
static Verdict judge(const str &d, Map &out) {   // independent reader of the documented format
  auto g = [&](size_t i) { return (uint32_t)(uint8_t)d[i] | (uint32_t)(uint8_t)d[i + 1] << 8 | (uint32_t)(uint8_t)d[i + 2] << 16 | (uint32_t)(uint8_t)d[i + 3] << 24; };
  if (d.size() < 8 || d.compare(0, 4, str("IDB\x01", 4))) return REJECT;
  uint32_t n = g(4); size_t i = 8; bool dup = false;
  for (uint32_t k = 0; k < n; k++) {
    if (i + 8 > d.size()) return REJECT;
    size_t kl = g(i), vl = g(i + 4); i += 8;
    if (i + kl + vl > d.size()) return REJECT;
    if (!out.insert({d.substr(i, kl), d.substr(i + kl, vl)}).second) dup = true;
    i += kl + vl;
  }
  return dup ? DUP : VALID;
}

// ------------------------------------------------------------------ raw operations
struct DW { Map mem[2], disk[2]; bool exists[2] = {false, false}, open[2] = {false, false}; };
struct DOp { str name; int kind, h; str k, v; };   // kinds: 0 replace 1 insert 2 delete 3 sync 4 close 5 open 6 the process is gone 7 fetch, change, look at the result again
struct DbmSys : SysT<DW> {
  std::vector<str> keys, vals; std::vector<DOp> ops; int fill; long chunk; bool two;
  DbmSys(std::vector<str> k, std::vector<str> v, int f, long ch, bool t) : keys(k), vals(v), fill(f), chunk(ch), two(t) {}
  static const char *fn(int h) { return h ? "other" : "icbdb"; }
  static datum D(const str &s) { return {(char *)s.data(), (int)s.size()}; }
  str setup() override {
    str e = dbm_bind(); if (!e.empty()) return e;
    for (int h = 0; h < (two ? 2 : 1); h++) {
      str t = two ? str(" db") + char('1' + h) : "";
      for (auto &k : keys) {
        for (auto &v : vals) { ops.push_back({"replace " + show(k) + " " + show(v) + t, 0, h, k, v}); }
        ops.push_back({"insert " + show(k) + " " + show(vals.back()) + t, 1, h, k, vals.back()});
        ops.push_back({"delete " + show(k) + t, 2, h, k, ""});
        ops.push_back({"fetch " + show(k) + ", replace it, read what was fetched" + t, 7, h, k, vals[0]});
        ops.push_back({"fetch " + show(k) + ", delete it, read what was fetched" + t, 8, h, k, ""});
      }
      ops.push_back({"sync" + t, 3, h}); ops.push_back({"close" + t, 4, h}); ops.push_back({"open" + t, 5, h}); ops.push_back({"the process is gone" + t, 6, h});
    }
    m = DW();
    e = doop({"", 5, 0}); if (!e.empty()) return e;
    for (int i = 0; i < fill; i++) { str k = "k" + std::to_string(i); e = doop({"", 0, 0, k, "v" + std::to_string(i)}); if (!e.empty()) return e; }
    return verify();
  }
  int nactions() override { return ops.size(); }
  bool enabled(int a) override { const DOp &o = ops[a]; return o.kind == 5 ? !m.open[o.h] : m.open[o.h]; }
  str name(int a) override { return ops[a].name; }
  uint64_t mhash() override { uint64_t h = 1; for (int i = 0; i < 2; i++) h = hmap(m.mem[i], hmap(m.disk[i], vos::mix(h, m.exists[i] * 2 + m.open[i]))); return h; }
  str doop(const DOp &o) {
    vos::file_chunk = vos::file_rchunk = chunk;
    DBM *&db = (DBM *&)vos::S.roots[o.h]; int r = -99; str e; Map &M = m.mem[o.h]; datum k = D(o.k), v = D(o.v);
    if (o.v.empty()) v.dptr = nullptr;
    bool had = M.count(o.k); obs++;
    auto sync = [&]() { if (m.disk[o.h] != M || !m.exists[o.h]) { if (m.disk[o.h] != M) m.exists[o.h] = true; m.disk[o.h] = M; } };
    switch (o.kind) {
      case 0: e = call([&]() { r = d_store(db, k, v, 1); }, o.name); if (!e.empty()) return e; if (r) return "replace failed"; M[o.k] = o.v; break;
      case 1: e = call([&]() { r = d_store(db, k, v, 0); }, o.name); if (!e.empty()) return e; if (r != (had ? 1 : 0)) return str("insert of ") + (had ? "an existing" : "a new") + " key returned " + std::to_string(r); if (!had) M[o.k] = o.v; break;
      case 2: e = call([&]() { r = d_delete(db, k); }, o.name); if (!e.empty()) return e; if ((r == 0) != had) return str("delete of ") + (had ? "an existing" : "a missing") + " key returned " + std::to_string(r); M.erase(o.k); break;
      case 3: e = call([&]() { r = d_sync(db); }, o.name); if (!e.empty()) return e; if (r) return "sync failed"; sync(); break;
      case 4: e = call([&]() { d_close(db); }, o.name); if (!e.empty()) return e; sync(); db = nullptr; m.open[o.h] = false; M.clear(); break;
      case 5: { DBM *x = nullptr; e = call([&]() { x = d_open(fn(o.h), 2, 0600); }, o.name); if (!e.empty()) return e; if (!x) return "the database cannot be opened"; db = x; m.open[o.h] = true; M = m.disk[o.h]; break; }
      case 6: db = nullptr; m.open[o.h] = false; M.clear(); break;   // memory of the dead process is unreachable
      case 7: case 8: {
        str got, again; bool null = false;
        e = call([&]() { datum d = d_fetch(db, k); null = !d.dptr; if (d.dptr) { got.assign(d.dptr, d.dsize); int n = d.dsize; if (o.kind == 7) r = d_store(db, k, v, 1); else r = d_delete(db, k); again.assign(d.dptr, n); } else if (o.kind == 7) r = d_store(db, k, v, 1); }, o.name);
        if (!e.empty()) return e;
        if (null == had) return had ? "fetch did not find the key" : "fetch found a key that is not there";
        if (had && (got != M[o.k] || again != got)) return "what was fetched is " + show(got) + ", after the change " + show(again) + ", stored was " + show(M[o.k]);
        if (o.kind == 7) M[o.k] = o.v; else M.erase(o.k);
        break; }
    }
    return "";
  }
  str verify() {
    std::set<str> all(keys.begin(), keys.end()); all.insert("never"); all.insert("k"); all.insert(str("a\0z", 3));
    for (int i = 0; i < fill; i++) all.insert("k" + std::to_string(i));
    for (int h = 0; h < 2; h++) {
      if (m.open[h]) for (auto &k : all) {
        str got; bool null = false; DBM *db = (DBM *)vos::S.roots[h];
        str e = call([&]() { datum d = d_fetch(db, D(k)); null = !d.dptr; if (d.dptr) got.assign(d.dptr, d.dsize); }, "fetch " + show(k)); if (!e.empty()) return e;
        auto it = m.mem[h].find(k); obs++;
        if (null != (it == m.mem[h].end())) return "fetch " + show(k) + (null ? ": not found" : ": found although it is not there");
        if (!null && got != it->second) return "fetch " + show(k) + ": " + show(got) + " instead of " + show(it->second);
      }
      auto it = vos::S.files.find(str(fn(h)) + ".db");
      if (it == vos::S.files.end()) { if (m.exists[h]) return "the database file is missing"; continue; }
      Map x; if (judge(*it->second, x) != VALID || x != m.disk[h]) return "the database file does not hold what was flushed last";
    }
    return "";
  }
  str step(int a) override { str e = doop(ops[a]); return e.empty() ? verify() : e; }
};
static unsigned fnv(const str &s) { unsigned h = 2166136261u; for (unsigned char c : s) { h ^= c; h *= 16777619u; } return h; }
static std::vector<str> colliding(int n, unsigned buckets) { // keys that share a bucket
  std::vector<str> r; unsigned want = fnv("a") % buckets; r.push_back("a");
  for (int i = 0; (int)r.size() < n; i++) { str k = "c" + std::to_string(i); if (fnv(k) % buckets == want) r.push_back(k); }
  return r;
}

// ------------------------------------------------------------------ damaged files
struct FW { str file; };
struct DamageSys : SysT<FW> {
  Map base; std::vector<int> vals; bool boot; vos::Snap pristine; str bytes0; int N;
  DamageSys(Map b, std::vector<int> v, bool bt) : base(b), vals(v), boot(bt) {}
  str setup() override { str e = dbm_bind(); if (!e.empty()) return e; bytes0 = encode(base); m.file = bytes0; N = bytes0.size(); vos::save(pristine); return check(); }
  // actions: truncate to i; byte i := vals[j]; append a byte; insert / delete a byte
  int nactions() override { return N + N * (int)vals.size() + 3 + N; }
  bool enabled(int a) override { if (a < N) return a < (int)m.file.size(); a -= N; if (a < N * (int)vals.size()) return a / (int)vals.size() < (int)m.file.size(); a -= N * vals.size(); if (a < 3) return true; return a - 3 < (int)m.file.size(); }
  str name(int a) override {
    if (a < N) return "cut to " + std::to_string(a); a -= N;
    if (a < N * (int)vals.size()) return "byte " + std::to_string(a / vals.size()) + " = " + std::to_string(vals[a % vals.size()]); a -= N * vals.size();
    if (a < 3) return a == 0 ? "append a zero byte" : a == 1 ? "append 8 bytes" : "append a whole entry";
    return "remove byte " + std::to_string(a - 3);
  }
  uint64_t mhash() override { return vos::hash_bytes(m.file.data(), m.file.size()); }
  str step(int a) override {
    str &f = m.file;
    if (a < N) f.resize(a); else { a -= N; if (a < N * (int)vals.size()) f[a / vals.size()] = (char)vals[a % vals.size()]; else { a -= N * vals.size();
      if (a == 0) f += '\0'; else if (a == 1) f += "\1\0\0\0\1\0\0\0"; else if (a == 2) { u32(f, 1); u32(f, 1); f += "zz"; } else f.erase(a - 3, 1); } }
    return check();
  }
  str check() {
    str e; Map want; Verdict v = judge(m.file, want); obs++;
    vos::restore(pristine); vos::put_file("icbdb.db", m.file);
    if (boot) e = serve(v); else {
      DBM *db = nullptr; e = call([&]() { db = d_open("icbdb", 2, 0600); }, "open");
      if (e.empty()) {
        if (v == REJECT && db) e = "a damaged database file is accepted";
        if (v == VALID && !db) e = "an intact database file is rejected";
        if (v == VALID && db) {
          std::set<str> ks; for (auto &x : want) ks.insert(x.first); for (auto &x : base) ks.insert(x.first);
          for (auto &k : ks) { str got; bool null = false;
            e = call([&]() { datum d = d_fetch(db, {(char *)k.data(), (int)k.size()}); null = !d.dptr; if (d.dptr) got.assign(d.dptr, d.dsize); }, "fetch"); if (!e.empty()) break;
            if (null != !want.count(k) || (!null && got != want[k])) { e = "entry " + show(k) + " of the file is not read back"; break; } }
        }
        if (e.empty() && db) e = call([&]() { d_store(db, {(char *)"q", 1}, {(char *)"r", 1}, 1); d_close(db); }, "store and close");
        if (e.empty() && v == VALID) { want["q"] = "r"; Map x; if (judge(*vos::S.files["icbdb.db"], x) != VALID || x != want) e = "after a change the file is not the old one with the change"; }
        if (e.empty() && v == REJECT && *vos::S.files["icbdb.db"] != m.file) e = "the rejected file was overwritten";
      }
    }
    vos::restore(pristine);
    return e;
  }
  // the whole server on that file: it must keep working for chat, whatever the database is like
  str serve(Verdict v) {
    str e = icb::boot(); if (!e.empty()) return e;
    int c[2] = {icb::connect(0), icb::connect(1)};
    const char *nick[2] = {"alice", "bob"};
    for (int i = 0; i < 2; i++) { e = run("login"); if (!e.empty()) return e; icb::send(c[i], str("aid\001") + nick[i] + "\001x\001login\001pw"); e = run("login"); if (!e.empty()) return e; }
    for (auto &s : std::vector<str>{"hp\001pw", "hwhois\001alice", "hm\001server write alice hi", "hm\001server read", "hrname\001Al", "hm\001server ?", "hcp\001pw pw2", "hm\001server delete pw"}) { icb::send(c[0], s); e = run(s.c_str()); if (!e.empty()) return e; }
    icb::take(c[0]); icb::take(c[1]);
    icb::send(c[0], "bhello"); e = run("a message"); if (!e.empty()) return e;
    if (icb::take(c[1]) != icb::Pkts{str("balice\001hello")}) return "chat does not work with this database file";
    icb::tick(5);
    if (v == REJECT && *vos::S.files["icbdb.db"] != m.file) return "the rejected file was overwritten";
    return "";
  }
};

// ------------------------------------------------------------------ attribute layer
struct AW { std::map<std::pair<str, str>, str> mem, disk; std::map<std::pair<str, str>, std::vector<str>> lmem, ldisk; };
struct AOp { str name; int kind; const char *c; str a, v; int n = 0; };
static int (*a_get)(const char *, const char *, int, void *), (*a_set)(const char *, const char *, int, const void *), (*a_del)(const char *, const char *);
static int (*l_add)(const char *, const char *, int, void *), (*l_del)(const char *, const char *, int, void *), (*l_get)(const char *, const char *, int, int, void *), (*l_clear)(const char *, const char *);
static int (*l_find)(const char *, const char *, int, void *, int *, int *, int *, int *); static void (*a_sync)(void); static void (*a_multi)(int);
static str low(str s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
struct AttrSys : SysT<AW> {
  bool lists; std::vector<AOp> ops; vos::Snap pristine; std::vector<const char *> cats; std::vector<str> attrs; std::vector<str> vals, lv = {"p", "q", "P"};
  AttrSys(bool l, std::vector<const char *> c, std::vector<str> a, std::vector<str> v) : lists(l), cats(c), attrs(a), vals(v) {}
  str setup() override {
    if (!(bind(a_get, "icbdb_get") & bind(a_set, "icbdb_set") & bind(a_del, "icbdb_delete") & bind(a_sync, "icbdb_sync"))) return "the icbdb functions are missing";
    if (lists && !(bind(l_add, "icbdb_list_add") & bind(l_del, "icbdb_list_delete") & bind(l_get, "icbdb_list_get_index") & bind(l_clear, "icbdb_list_clear") & bind(l_find, "icbdb_list_find"))) lists = false;
    bind(a_multi, "icbdb_set_multiuser");
    for (auto c : cats) for (auto &a : attrs) {
      str at = str(c) + "." + a;
      if (lists) { for (auto &v : lv) { ops.push_back({"list add " + at + " " + v, 5, c, a, v}); ops.push_back({"list delete " + at + " " + v, 6, c, a, v}); } ops.push_back({"list clear " + at, 7, c, a}); continue; }
      for (auto &v : vals) ops.push_back({"set " + at + " " + show(v), 0, c, a, v});
      ops.push_back({"set " + at + " -7", 1, c, a, "-7", -7}); ops.push_back({"delete " + at, 2, c, a});
    }
    ops.push_back({"sync", 3, ""}); ops.push_back({"the server starts afresh", 4, ""});
    if (a_multi) { ops.push_back({"multiuser on", 8, "", "", "", 1}); ops.push_back({"multiuser off", 8, "", "", "", 0}); }
    vos::save(pristine); return "";
  }
  int nactions() override { return ops.size(); }
  str name(int a) override { return ops[a].name; }
  uint64_t mhash() override { uint64_t h = 3; for (auto *p : {&m.mem, &m.disk}) for (auto &x : *p) h = vos::hash_bytes((x.first.first + "\n" + x.first.second + "\n" + x.second).data(), x.first.first.size() + x.first.second.size() + x.second.size() + 2, h);
    for (auto *p : {&m.lmem, &m.ldisk}) for (auto &x : *p) { str s = x.first.first + "\n" + x.first.second; for (auto &v : x.second) s += "\n" + v; h = vos::hash_bytes(s.data(), s.size(), vos::mix(h, 5)); } return h; }
  str step(int i) override {
    AOp &o = ops[i]; auto K = std::make_pair(low(o.c), low(o.a)); str e; int r = -1;
    switch (o.kind) {
      case 0: e = call([&]() { r = a_set(o.c, o.a.c_str(), 1, o.v.c_str()); }, o.name); m.mem[K] = o.v; break;
      case 1: e = call([&]() { r = a_set(o.c, o.a.c_str(), 0, &o.n); }, o.name); m.mem[K] = o.v; break;
      case 2: e = call([&]() { a_del(o.c, o.a.c_str()); }, o.name); m.mem.erase(K); break;
      case 3: e = call([&]() { a_sync(); }, o.name); m.disk = m.mem; m.ldisk = m.lmem; break;
      case 4: { auto f = vos::S.files; vos::restore(pristine); vos::S.files = f; m.mem = m.disk; m.lmem = m.ldisk; break; }
      case 5: e = call([&]() { l_add(o.c, o.a.c_str(), 1, (void *)o.v.c_str()); }, o.name); { auto &L = m.lmem[K]; if (std::find(L.begin(), L.end(), o.v) == L.end()) { L.push_back(o.v); std::sort(L.begin(), L.end()); } } break;
      case 6: e = call([&]() { l_del(o.c, o.a.c_str(), 1, (void *)o.v.c_str()); }, o.name); { auto &L = m.lmem[K]; L.erase(std::remove(L.begin(), L.end(), o.v), L.end()); } break;
      case 7: e = call([&]() { l_clear(o.c, o.a.c_str()); }, o.name); m.lmem[K].clear(); break;
      case 8: e = call([&]() { a_multi(o.n); }, o.name); break;
    }
    if (!e.empty()) return e;
    if (!lists && o.kind <= 1 && r != 0) return o.name + " failed";
    // with multiuser the file may be written at any time; otherwise only by sync
    for (auto c : cats) for (auto &a : attrs) { e = lists ? lcheck(c, a) : acheck(c, a); if (!e.empty()) return e; }
    auto it = vos::S.files.find("icbdb.db");
    if (it != vos::S.files.end() && !lists) { Map x; if (judge(*it->second, x) != VALID) return "the database file is damaged"; 
      Map mm, dd; for (auto &y : m.mem) mm[y.first.first + "." + y.first.second] = y.second; for (auto &y : m.disk) dd[y.first.first + "." + y.first.second] = y.second;
      if (x == mm) m.disk = m.mem; else if (x != dd) return "the database file is neither the current nor the last flushed content"; }
    if (it != vos::S.files.end() && lists && o.kind != 3 && o.kind != 4) { // list elements live in the file too; remember if it was rewritten (multiuser)
      Map x; if (judge(*it->second, x) != VALID) return "the database file is damaged";
      std::map<std::pair<str, str>, std::vector<str>> now;
      for (auto c : cats) for (auto &a : attrs) { auto K2 = std::make_pair(low(c), low(a)); str p = K2.first + "." + K2.second + "."; std::vector<str> L; for (auto &y : x) if (y.first.compare(0, p.size(), p) == 0 && y.first != p + "max") L.push_back(y.second); std::sort(L.begin(), L.end()); if (!L.empty()) now[K2] = L; }
      auto strip = [](std::map<std::pair<str, str>, std::vector<str>> q) { for (auto i = q.begin(); i != q.end();) if (i->second.empty()) i = q.erase(i); else ++i; return q; };
      if (now == strip(m.lmem)) m.ldisk = m.lmem; else if (now != strip(m.ldisk)) return "the database file is neither the current nor the last flushed content";
    }
    return "";
  }
  str acheck(const char *c, const str &a) {
    int f1 = 0, f2 = 0, n = 12345; char *p = nullptr; str got;
    str e = call([&]() { f1 = a_get(c, a.c_str(), 1, &p); if (f1 && p) got = p; f2 = a_get(c, a.c_str(), 0, &n); }, "get"); if (!e.empty()) return e;
    auto it = m.mem.find({low(c), low(a)}); bool has = it != m.mem.end(); obs += 2;
    if (!!f1 != has || !!f2 != has) return str(c) + "." + a + (has ? ": not found" : ": found although never set or deleted");
    if (has && (got != it->second || n != atoi(it->second.c_str()))) return str(c) + "." + a + ": " + show(got) + " instead of " + show(it->second);
    return "";
  }
  str lcheck(const char *c, const str &a) {
    std::vector<str> have; int max = -1, found[3] = {0, 0, 0}; 
    str e = call([&]() { l_get(c, a.c_str(), -1, 0, &max); for (int i = 0; i <= max && i < 50; i++) { char *p; if (l_get(c, a.c_str(), i, 1, &p)) have.push_back(p); }
      for (int i = 0; i < 3; i++) { int x, y, z, w; found[i] = l_find(c, a.c_str(), 1, (void *)lv[i].c_str(), &x, &y, &z, &w); } }, "list"); if (!e.empty()) return e;
    std::sort(have.begin(), have.end()); auto want = m.lmem[{low(c), low(a)}]; obs += 4;
    if (have != want) { str s = str(c) + "." + a + " holds:"; for (auto &x : have) s += " " + x; s += "  instead of:"; for (auto &x : want) s += " " + x; return s; }
    for (int i = 0; i < 3; i++) if (!!found[i] != (std::find(want.begin(), want.end(), lv[i]) != want.end())) return str("list find of ") + lv[i] + " is wrong";
    return "";
  }
};

static Registrar c17("C17", [](bool T) -> std::vector<Scenario> {
  std::vector<Scenario> r;
  auto dbm = [&](const str &n, int depth, std::vector<str> k, std::vector<str> v, int fill, long ch = -1, bool two = false, int bits = 23) {
    r.push_back(Scenario{n, [=]() { return std::unique_ptr<Sys>(new DbmSys(k, v, fill, ch, two)); }, depth, bits, 600}); };
  str big(5000, 'b'); big[7] = 0;
  dbm("empty, binary and similar keys", T ? 7 : 6, {"", "a", str("a\0", 2)}, {"", "x", str("\0\xff\n", 3), "y"}, 0);
  dbm("keys in one bucket", T ? 7 : 6, colliding(4, 128), {"xyw", "xyz"}, 0);
  dbm("one bucket, long values, short reads and writes", T ? 6 : 5, colliding(3, 128), {big, "s", ""}, 0, 3);
  for (int f : {94, 95, 96, 97}) { auto k = colliding(3, 128); k.push_back("k5"); dbm("growth of the table at " + std::to_string(f) + " entries", T ? 5 : 4, k, {"w"}, f); }
  if (T) { for (int f : {190, 191, 192, 400}) { auto k = colliding(3, 256); k.push_back("k7"); dbm("growth of the table at " + std::to_string(f) + " entries", 4, k, {"w"}, f); } }
  else dbm("growth of the table at 191 entries", 3, {"a", "b", "k7"}, {"w"}, 191);
  dbm("two databases at once", T ? 6 : 5, {"a", "b"}, {"1", ""}, 0, -1, true);
  dbm("the largest entries", 4, {"a", str(1 << 20, 'K')}, {str(1 << 20, 'V')}, 0, -1, false, 16);
  Map b3 = {{"al.nick", "Al"}, {"b", ""}, {"", "v"}};
  std::vector<int> every; for (int i = 0; i < 256; i++) every.push_back(i);
  std::vector<int> some = {0, 1, 2, 3, 8, 0x10, 0x7f, 0x80, 0xff};
  auto dmg = [&](const str &n, int d, Map b, std::vector<int> v, bool boot) { r.push_back(Scenario{n, [=]() { return std::unique_ptr<Sys>(new DamageSys(b, v, boot)); }, d, 23, 600}); };
  dmg("every single damage of a file", 1, b3, every, false);
  dmg("two damages of a file", T ? 3 : 2, {{"a", "x"}, {"b", ""}}, T ? std::vector<int>{0, 1, 2, 0x80, 0xff} : some, false);
  dmg("no file is left", 1, {}, every, false);
  dmg("the server on every damaged file", 1, {{"alice.nick", "alice"}, {"alice.password", "pw"}, {"alice.nummsg", "1"}, {"alice.from1", "x"}}, T ? every : some, true);
  auto attr = [&](const str &n, int d, bool l, std::vector<const char *> c, std::vector<str> a, std::vector<str> v) { r.push_back(Scenario{n, [=]() { return std::unique_ptr<Sys>(new AttrSys(l, c, a, v)); }, d, 24, 600}); };
  attr("attributes of similar users and names", T ? 6 : 5, false, {"a", "AB", "a.b"}, {"x", "bx", "Nick"}, {"", "V w", "V v"});
  attr("the longest attributes", T ? 6 : 5, false, {"abcdefghijkl", "abcdefghijk", "abcdefghijklm", "abcdefghijkln"}, {"signoff", "l"}, {str(254, 'z'), str(4095, 'q')});
  attr("lists", T ? 7 : 6, true, {"a", "b"}, {"l"}, {});
  return r;
});

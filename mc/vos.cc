#include "vos.hh"
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <poll.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <stdarg.h>
#include <netdb.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <malloc.h>
#include <algorithm>
#include <unordered_map>

namespace vos {
State S;
int max_sock_fd = 15, first_sock_fd = 3;
long poll_spins = 0, poll_spin_limit = 400;
bool livelock = false, want_timeout = false, in_coro = false;
std::function<bool(const char *, const std::string &, const std::string &)> fs_hook;
std::function<int(const char *, int, const std::string &)> fault_hook;
long file_chunk = -1, file_rchunk = -1; int pending_signal = 0, signal_at_write = 0;
std::function<long(int, size_t)> write_choice;
std::function<void()> on_quiescent;
std::vector<Host> hosts = {{"h0.test", "10.0.0.1"}, {"h1.test", "10.0.0.2"}, {"h2.test", "10.0.0.3"}, {"h3.test", "10.0.0.4"},
                           {"h4.test", "::ffff:10.0.0.5", "10.0.0.5"}, {"h5.test", "2001:db8::6"}, {nullptr, "10.0.0.7"}, {"h0.test", "10.0.0.8", "10.0.0.1"}, {nullptr, "::ffff:10.0.0.9"}, {"h1.test", "2001:db8::a", "10.0.0.2"},
                           {"h0.tes", "10.0.0.11"}, {"h0.test.org", "10.0.0.12"}, {"aaaaaaaaaaaaaaaaaaaaaaaaaaaa.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbb.test", "10.0.0.13"},
                           {"two.test", "10.0.0.15", "10.0.0.14,10.0.0.15"}, {"not.test", "10.0.0.16", "10.0.0.17,10.0.0.18"}, {"mix.test", "2001:db8::d", "10.0.0.19,2001:db8::c,2001:db8::d"}};
Image img;
std::string crash_info;

uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const char *c = (const char *)p;
  h = mix(h, n + 0x1234567);
  while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = mix(h, v); c += 8; n -= 8; }
  if (n) { uint64_t v = 0; memcpy(&v, c, n); h = mix(h, v + n); }
  return h;
}

void del_file(const std::string &path) { S.files.erase(path); }
void put_file(const std::string &path, const std::string &data) { S.files[path] = std::make_shared<std::string>(data); }
bool has_file(const std::string &path) { return S.files.count(path) > 0; }

// ---------------------------------------------------------------- heap (arena, snapshottable)
#ifndef VOS_NO_HEAP
static const size_t ARENA = 8u << 20;
static char *arena = nullptr;
struct HeapHdr { uint64_t used; uint64_t freelist[64]; uint64_t nlive; };
struct Blk { uint32_t size; uint32_t live; uint64_t next; };  // 16-byte header
static HeapHdr *H;
static void asan_arena();
static void heap_init() {
  if (arena) return;
  arena = (char *)mmap((void *)0x200000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (arena == MAP_FAILED) { perror("arena"); _exit(3); }
  H = (HeapHdr *)arena; H->used = sizeof(HeapHdr);
  asan_arena();
}
bool heap_contains(const void *p) { return arena && (char *)p >= arena && (char *)p < arena + ARENA; }
#ifdef VOS_ASAN
// Instrumented build: the shadow memory of the arena and of the coroutine stack belongs to the state.
extern "C" { void __asan_poison_memory_region(const volatile void *, size_t); void __asan_unpoison_memory_region(const volatile void *, size_t); const char *__asan_get_report_description(void); void *__asan_get_report_pc(void);
const char *__asan_default_options() { return "halt_on_error=0:detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=4:suppress_equal_pcs=0:abort_on_error=0:handle_abort=0:handle_segv=0:allocator_may_return_null=1:detect_odr_violation=0:alloc_dealloc_mismatch=0"; }
const char *__ubsan_default_options() { return "print_stacktrace=1"; } }
static volatile bool san_error = false; static std::string san_info;
extern "C" void __asan_on_error() { if (!san_error && in_coro) { san_error = true; san_info = std::string("memory error found by the address sanitizer: ") + (__asan_get_report_description() ? __asan_get_report_description() : "?"); } }
extern "C" void __ubsan_get_current_report_data(const char **k, const char **m, const char **f, unsigned *l, unsigned *c, char **a);
extern "C" void __ubsan_on_report() { if (!san_error && in_coro) { const char *k = "", *m = "", *f = ""; unsigned l = 0, c = 0; char *a; __ubsan_get_current_report_data(&k, &m, &f, &l, &c, &a); san_error = true; san_info = std::string("undefined behaviour: ") + m + " at " + f + ":" + std::to_string(l); } }
static inline char *shadow(const void *p) { return (char *)(((uintptr_t)p >> 3) + 0x7fff8000ull); }
static const size_t REDZONE = 32;
#else
static const size_t REDZONE = 0;
#endif
static inline void raw_copy(void *d, const void *s, size_t n) {
#ifdef VOS_ASAN
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
#else
  memcpy(d, s, n);
#endif
}
static inline void raw_set(void *d, int v, size_t n) {
#ifdef VOS_ASAN
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
#else
  memset(d, v, n);
#endif
}
static int cls(size_t n) { size_t u = (n + 31) / 32; return u < 64 ? (int)u : -1; }
#ifdef VOS_ASAN
static void asan_arena() { __asan_poison_memory_region(arena, ARENA); }
#else
static void asan_arena() {}
#endif
static void *h_alloc(size_t want) {
  heap_init();
  size_t n = (want ? want : 1) + REDZONE;
  if (n > ARENA / 4) return nullptr;
  size_t r = (n + 31) / 32 * 32;
  int c = cls(n);
  Blk *b = nullptr;
  if (c > 0 && H->freelist[c]) { b = (Blk *)(arena + H->freelist[c]); H->freelist[c] = b->next; }
  else {
    if (c < 0) { // large: first fit on list 0
      uint64_t *pp = &H->freelist[0];
      while (*pp) { Blk *x = (Blk *)(arena + *pp); if ((x->size + 31) / 32 * 32 >= r && (x->size + 31) / 32 * 32 < 2 * r) { b = x; *pp = x->next; r = (x->size + 31) / 32 * 32; break; } pp = &x->next; }
    }
    if (!b) {
      if (H->used + r + 16 > ARENA) return nullptr;
      b = (Blk *)(arena + H->used); H->used += r + 16;
    }
  }
  b->size = (uint32_t)(c > 0 ? n : std::max<size_t>(n, r - 31)); b->live = 0xA11CA7ED; b->next = 0;
  H->nlive++;
#ifdef VOS_ASAN
  raw_set((char *)b + 16, 0, b->size); __asan_unpoison_memory_region((char *)b + 16, want);
#endif
  return (char *)b + 16;
}
static void h_free(void *p) {
  if (!p) return;
  if (!heap_contains(p)) { ::free(p); return; }   // allocated inside libc (getline and the like)
  Blk *b = (Blk *)((char *)p - 16);
  if (b->live != 0xA11CA7ED) { crash_info = "double free / invalid free"; raise(SIGSEGV); return; }
  b->live = 0; int c = cls(b->size); if (c < 0) c = 0;
  raw_set(p, 0xDD, b->size);
#ifdef VOS_ASAN   // reuse the oldest free block first, so that stale pointers point to poisoned memory for long
  __asan_poison_memory_region(p, b->size); b->next = 0; uint64_t *t = &H->freelist[c]; while (*t) t = &((Blk *)(arena + *t))->next; *t = (char *)b - arena; H->nlive--;
#else
  b->next = H->freelist[c]; H->freelist[c] = (char *)b - arena; H->nlive--;
#endif
}
#else
bool heap_contains(const void *) { return false; }
#endif

// ---------------------------------------------------------------- image
bool load_image(const char *so) {
  img.handle = dlopen(so, RTLD_NOW | RTLD_LOCAL);
  if (!img.handle) { fprintf(stderr, "dlopen: %s\n", dlerror()); return false; }
  struct link_map *lm; dlinfo(img.handle, RTLD_DI_LINKMAP, &lm);
  struct Ctx { uint64_t base; char *seg; size_t len; } cx{lm->l_addr, nullptr, 0};
  dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *v) {
    Ctx *c = (Ctx *)v;
    if (i->dlpi_addr != c->base) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
      if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) {
        c->seg = (char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; c->len = i->dlpi_phdr[k].p_memsz;
      }
    // exclude RELRO (read-only after relocation)
    for (int k = 0; k < i->dlpi_phnum; k++)
      if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
        char *re = (char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz;
        re = (char *)((uintptr_t)re & ~4095ull);
        if (re > c->seg) { c->len -= re - c->seg; c->seg = re; }
      }
    return 0; }, &cx);
  img.seg = cx.seg; img.seglen = cx.len;
  if ((uintptr_t)img.seg & 7) { size_t d = 8 - ((uintptr_t)img.seg & 7); (void)d; }
  // scratch buffers whose stale content is not state
  static const struct { const char *n; size_t len; } sk[] = {{"mbuf", BUFSIZ}, {"packetbuffer", 256}, {"fields", 20 * 8}, {nullptr, 0}};
  for (int i = 0; sk[i].n; i++) {
    void *p = dlsym(img.handle, sk[i].n);
    if (p && (char *)p >= img.seg && (char *)p + sk[i].len <= img.seg + img.seglen) img.skip.push_back({(char *)p, sk[i].len});
  }
  std::sort(img.skip.begin(), img.skip.end());
  return img.seg != nullptr;
}
void *sym(const char *n) {
  void *p = dlsym(img.handle, n);
  return p;
}

// ---------------------------------------------------------------- coroutine
static const size_t STK = 1u << 20;
static char *stk = nullptr;
static void *coro_sp = nullptr, *main_sp = nullptr;
static bool coro_running = false, coro_finished = false;
static std::function<void()> coro_body;
static sigjmp_buf crash_jb;
static volatile bool crash_armed = false;
static volatile int crash_sig = 0;
static volatile uint64_t step_no = 0, wd_last = 0; static volatile int wd_cnt = 0;

extern "C" void vos_switch(void **save, void *to);
asm(R"(
.text
.globl vos_switch
.type vos_switch,@function
vos_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
static void coro_entry() {
  coro_body();
  coro_finished = true; coro_running = false; in_coro = false;
  void *dummy; vos_switch(&dummy, main_sp);
  _exit(99);
}
static void mkstk() {
  if (!stk) {
    stk = (char *)mmap((void *)0x210000000000ull, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (stk == MAP_FAILED) { perror("stack"); _exit(3); }
    mprotect(stk, 4096, PROT_NONE);
  }
}
static Stop go() {
  step_no++; livelock = false; poll_spins = 0;
  crash_armed = true;
  int r = sigsetjmp(crash_jb, 0);
  if (r == 0) {
    in_coro = true;
    vos_switch(&main_sp, coro_sp);
    in_coro = false; crash_armed = false;
#ifdef VOS_ASAN
    if (san_error) { san_error = false; crash_info = san_info; return CRASH; }
#endif
    if (coro_finished) return FINISHED;
    if (livelock) return LIVELOCK;
    return YIELD;
  }
  in_coro = false; crash_armed = false;
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGSEGV); sigaddset(&ss, SIGBUS); sigaddset(&ss, SIGFPE); sigaddset(&ss, SIGILL); sigaddset(&ss, SIGABRT); sigaddset(&ss, SIGVTALRM);
  sigprocmask(SIG_UNBLOCK, &ss, nullptr);
  coro_finished = true; coro_running = false;
#ifdef VOS_ASAN
  if (san_error) { san_error = false; crash_info = san_info; return CRASH; }
#endif
  if (crash_sig == SIGVTALRM) { crash_info = "server does not return (infinite loop)"; return HANG; }
  if (crash_info.empty()) crash_info = std::string("server crashed: ") + strsignal(crash_sig);
  return CRASH;
}
void start(std::function<void()> body) {
  mkstk();
#ifdef VOS_ASAN
  raw_set(shadow(stk + 4096), 0, STK / 8);
#endif
  coro_body = body; coro_finished = false; coro_running = true;
  uint64_t *sp = (uint64_t *)(stk + STK + 4096 - 64);
  sp = (uint64_t *)((uintptr_t)sp & ~15ull);
  *--sp = 0;                 // alignment: at entry rsp%16==8
  *--sp = (uint64_t)coro_entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  coro_sp = sp;
}
Stop resume() { crash_info.clear(); if (coro_finished) return FINISHED; return go(); }
Stop run_call(std::function<void()> f) { start(f); return resume(); }
void yield_to_explorer() {
  if (on_quiescent && !in_coro) { on_quiescent(); return; }
  in_coro = false;
  vos_switch(&coro_sp, main_sp);
  in_coro = true;
}
static void handler(int sig) {
  if (sig == SIGVTALRM) {
    if (!in_coro || !crash_armed) { wd_cnt = 0; return; }
    if (wd_last == step_no) { if (++wd_cnt < 6) return; }
    else { wd_last = step_no; wd_cnt = 0; return; }
  }
  if (!crash_armed) { signal(sig, SIG_DFL); raise(sig); return; }
  crash_sig = sig; wd_cnt = 0;
  siglongjmp(crash_jb, 1);
}
void progress() { step_no++; }
void install_handlers() {
  static char alt[65536];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
  struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// ---------------------------------------------------------------- snapshots
#ifndef VOS_NO_HEAP
void save(Snap &s) {
  heap_init(); mkstk();
  auto keep = [](std::vector<char> &v, const char *p, size_t n) { v.resize(n); raw_copy(v.data(), p, n); };
  keep(s.seg, img.seg, img.seglen);
  s.heap_used = H->used; keep(s.heap, arena, H->used);
  s.sp = (char *)coro_sp; s.running = coro_running; s.finished = coro_finished;
  if (coro_running) keep(s.stack, s.sp, stk + STK + 4096 - s.sp); else s.stack.clear();
#ifdef VOS_ASAN
  keep(s.hshadow, shadow(arena), (H->used + 7) / 8);
  if (coro_running) keep(s.sshadow, shadow(s.sp), (stk + STK + 4096 - s.sp) / 8);
#endif
  s.st = S; s.err = errno;
}
void restore(const Snap &s) {
  raw_copy(img.seg, s.seg.data(), s.seg.size());
#ifdef VOS_ASAN
  if (H->used > s.heap_used) raw_set(shadow(arena + s.heap_used), 0xf7, (H->used - s.heap_used) / 8);
  raw_copy(shadow(arena), s.hshadow.data(), s.hshadow.size());
  char *lo = stk + 4096; if (s.running) { raw_set(shadow(lo), 0, (s.sp - lo) / 8); raw_copy(shadow(s.sp), s.sshadow.data(), s.sshadow.size()); } else raw_set(shadow(lo), 0, STK / 8);
#endif
  if (H->used > s.heap_used) raw_set(arena + s.heap_used, 0, H->used - s.heap_used);
  raw_copy(arena, s.heap.data(), s.heap.size());
  coro_sp = s.sp; coro_running = s.running; coro_finished = s.finished;
  if (s.running) raw_copy(s.sp, s.stack.data(), s.stack.size());
  S = s.st; errno = s.err;
  want_timeout = false;
}
// canonical hash: walk globals word by word; pointers to live heap blocks are replaced by a first-visit index
// and their contents are hashed in visit order, so allocation addresses and garbage do not matter.
static long reached;
long lost_blocks() { hash_memory(); return (long)H->nlive - reached; }
uint64_t hash_memory() {
  static std::unordered_map<uint64_t, uint64_t> idx; idx.clear();
  static std::vector<std::pair<char *, uint32_t>> q; q.clear();
  uint64_t h = 0x51ed270b;
  static std::vector<char *> starts; starts.clear();
  auto find_block = [&](char *p) -> Blk * {   // block whose payload contains p (interior pointers)
    if (starts.empty()) {
      char *a = arena + sizeof(HeapHdr);
      while (a < arena + H->used) { Blk *b = (Blk *)a; starts.push_back(a); a += 16 + (b->size + 31) / 32 * 32; }
    }
    auto it = std::upper_bound(starts.begin(), starts.end(), p);
    if (it == starts.begin()) return nullptr;
    Blk *b = (Blk *)*(it - 1);
    if (p < (char *)b + 16) return nullptr;
    return b->live == 0xA11CA7ED ? b : nullptr;
  };
  auto word = [&](uint64_t v) {
    if (v >= (uint64_t)arena && v < (uint64_t)arena + H->used) {
      Blk *b = find_block((char *)v);
      if (b) {
        uint64_t base = (uint64_t)b + 16;
        auto it = idx.find(base); uint64_t k;
        if (it == idx.end()) { k = idx.size() + 1; idx[base] = k; q.push_back({(char *)base, b->size}); } else k = it->second;
        h = mix(h, 0xABCD0000ull + k + ((v - base) << 32)); return;
      }
      h = mix(h, 0xDEADull); return;   // dangling heap pointer
    }
    if (v >= (uint64_t)stk && v < (uint64_t)stk + STK + 4096) { h = mix(h, 0xBEEF); return; }
    h = mix(h, v);
  };
  char *p = img.seg, *e = img.seg + (img.seglen & ~7ull);
  p = (char *)(((uintptr_t)p + 7) & ~7ull);
  size_t si = 0;
  while (p + 8 <= e) {
    while (si < img.skip.size() && p >= img.skip[si].first + img.skip[si].second) si++;
    if (si < img.skip.size() && p + 8 > img.skip[si].first) { p = (char *)(((uintptr_t)(img.skip[si].first + img.skip[si].second) + 7) & ~7ull); continue; }
    uint64_t v; memcpy(&v, p, 8);
    if (v == 0) h = h * 0x9E3779B97F4A7C15ull + 1; else word(v);
    p += 8;
  }
  for (void *r : S.roots) word((uint64_t)r);
  for (size_t i = 0; i < q.size(); i++) {
    char *b = q[i].first; uint32_t n = q[i].second;
    h = mix(h, n);
    uint32_t k = 0;
    for (; k + 8 <= n; k += 8) { uint64_t v; memcpy(&v, b + k, 8); word(v); }
    if (k < n) { uint64_t v = 0; raw_copy(&v, b + k, n - k); h = mix(h, v); }
  }
  reached = idx.size();
  return h;
}
#else
long lost_blocks() { return 0; }
#endif
uint64_t hash_state() {
  uint64_t h = 0x77;
  h = mix(h, S.now_us);
  for (auto &s : S.socks) h = mix(h, s.kind * 1000 + s.client + 7);
  for (auto &c : S.clients) {
    h = mix(h, c.fd + 5); h = mix(h, c.pending | c.fin << 1 | c.rst << 2 | c.srv_closed << 3 | c.werr << 4 | c.tls << 5 | c.hsw << 6 | c.hs << 8);
    h = mix(h, c.window + 3); h = mix(h, c.rdchunk + 3);
    h = hash_bytes(c.in.data(), c.in.size(), h);
    if (c.tls) { h = hash_bytes(c.tlsbuf.data(), c.tlsbuf.size(), h); h = hash_bytes(c.tlsraw.data(), c.tlsraw.size(), h); }
  }
  for (auto &f : S.files) { if (f.first.find(".log") != std::string::npos) continue; h = hash_bytes(f.first.data(), f.first.size(), h); h = hash_bytes(f.second->data(), f.second->size(), h); }
  h = mix(h, S.exited + 2 * S.nssl);
  return h;
}
static const char *v4of(const char *ip) { return !strncmp(ip, "::ffff:", 7) ? ip + 7 : ip; }
static std::vector<std::string> fwd_of(const Host &x) {
  std::vector<std::string> o; std::string f = x.fwd ? x.fwd : x.ip; size_t i = 0, j;
  while ((j = f.find(',', i)) != std::string::npos) { o.push_back(f.substr(i, j - i)); i = j + 1; }
  o.push_back(f.substr(i)); return o;
}
std::string node_of(int h) {
  const Host &x = hosts[h]; const char *ip = v4of(x.ip);
  if (x.name) for (auto &f : fwd_of(x)) if (f == ip) return x.name;
  return std::string("[") + ip + "]";
}
static socklen_t to_sa(const char *ip, int port, struct sockaddr_storage *o) {
  memset(o, 0, sizeof *o);
  if (strchr(ip, ':')) { auto *a = (struct sockaddr_in6 *)o; a->sin6_family = AF_INET6; a->sin6_port = htons(port); inet_pton(AF_INET6, ip, &a->sin6_addr); return sizeof *a; }
  auto *a = (struct sockaddr_in *)o; a->sin_family = AF_INET; a->sin_port = htons(port); inet_pton(AF_INET, ip, &a->sin_addr); return sizeof *a;
}
} // namespace vos

using namespace vos;

static int sock_alloc() {
  if ((int)S.socks.size() <= max_sock_fd) S.socks.resize(max_sock_fd + 1);
  for (int i = first_sock_fd; i <= max_sock_fd; i++) if (S.socks[i].kind == 0) return i;
  return -1;
}
static Sock *sk(int fd) { if (fd < 0 || fd >= (int)S.socks.size() || S.socks[fd].kind == 0) return nullptr; return &S.socks[fd]; }
static FDesc *fd_(int fd) { int i = fd - FBASE; if (i < 0 || i >= (int)S.fds.size() || !S.fds[i].used) return nullptr; return &S.fds[i]; }
static std::string norm(const char *p) { std::string s = p; while (s.compare(0, 2, "./") == 0) s = s.substr(2); return s; }
static bool fault(const char *op, int fd, const std::string &path = "") { if (fault_hook) { int e = fault_hook(op, fd, path); if (e) { errno = e; return true; } } return false; }
static bool crash_at(const char *op, const std::string &p, const std::string &a = "") {
  if (fs_hook && fs_hook(op, p, a)) { // simulated machine crash: server stops here
    S.exited = true; S.exit_code = -9;
    if (in_coro) for (;;) yield_to_explorer();
    return true;
  }
  return false;
}

extern "C" {
// ------------------------------------------------------------ heap
#ifndef VOS_NO_HEAP
void *v_malloc(size_t n) { void *p = h_alloc(n); if (p) memset(p, 0xCD, n); return p; }
void *v_calloc(size_t a, size_t b) { void *p = h_alloc(a * b); if (p) memset(p, 0, a * b); return p; }
void v_free(void *p) { h_free(p); }
void *v_realloc(void *p, size_t n) {
  if (!p) return v_malloc(n);
  if (!heap_contains(p)) { void *q = v_malloc(n); if (q) { memcpy(q, p, std::min(n, malloc_usable_size(p))); ::free(p); } return q; }
  Blk *b = (Blk *)((char *)p - 16); uint32_t o = b->size - REDZONE;
  void *q = v_malloc(n); if (!q) return nullptr;
  raw_copy(q, p, std::min<size_t>(o, n)); h_free(p); return q;
}
void *v_reallocarray(void *p, size_t a, size_t b) { return v_realloc(p, a * b); }
char *v_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)v_malloc(n); if (p) memcpy(p, s, n); return p; }
char *v_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)v_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int v_vasprintf(char **o, const char *f, va_list ap) { va_list b; va_copy(b, ap); int n = vsnprintf(nullptr, 0, f, b); va_end(b); *o = (char *)v_malloc(n + 1); vsnprintf(*o, n + 1, f, ap); return n; }
ssize_t v_getdelim(char **l, size_t *n, int d, FILE *f) {
  if (!*l) *n = 0;
  size_t k = 0; int ch = EOF;
  for (;;) {
    ch = fgetc(f); if (ch == EOF && (k == 0 || ferror(f))) return -1;
    if (k + 2 > *n) { size_t m = *n ? *n * 2 : 120; char *q = (char *)v_realloc(*l, m); if (!q) { errno = ENOMEM; return -1; } *l = q; *n = m; }
    if (ch == EOF) break;
    (*l)[k++] = (char)ch; if (ch == d) break;
  }
  (*l)[k] = 0; return (ssize_t)k;
}
ssize_t v___getdelim(char **l, size_t *n, int d, FILE *f) { return v_getdelim(l, n, d, f); }
ssize_t v_getline(char **l, size_t *n, FILE *f) { return v_getdelim(l, n, '\n', f); }
ssize_t v_write(int fd, const void *b, size_t n);
int v_vdprintf(int fd, const char *f, va_list ap) { char b[8192]; int n = vsnprintf(b, sizeof b, f, ap); if (n < 0) return -1; if (n >= (int)sizeof b) n = sizeof b - 1; return (int)v_write(fd, b, n); }
int v_dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int n = v_vdprintf(fd, f, ap); va_end(ap); return n; }
int v_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int n = v_vasprintf(o, f, ap); va_end(ap); return n; }
#endif
// ------------------------------------------------------------ poll
static void deliver(int g) {
  void *h = S.sighandler[g & 31];
  if (!h) { S.exited = true; S.exit_code = -g; for (;;) yield_to_explorer(); }
  if (h != (void *)1) ((void (*)(int))h)(g);
}
static int compute(struct pollfd *p, nfds_t n) {
  int r = 0;
  for (nfds_t i = 0; i < n; i++) {
    p[i].revents = 0;
    if (p[i].fd < 0) continue;
    Sock *s = sk(p[i].fd);
    if (!s) { p[i].revents = POLLNVAL; r++; continue; }
    if (s->kind == 1) {
      for (auto &c : S.clients) if (c.pending && c.tls == s->tls) { if (p[i].events & POLLIN) p[i].revents |= POLLIN; break; }
    } else {
      Client &c = S.clients[s->client];
      if (c.rst) { p[i].revents |= (p[i].events & (POLLIN | POLLOUT)) | POLLERR | POLLHUP; }
      else {
        if ((!c.in.empty() || c.fin || c.spur) && (p[i].events & POLLIN)) { p[i].revents |= POLLIN; c.spur = false; }
        if (c.window != 0 && (p[i].events & POLLOUT)) p[i].revents |= POLLOUT;
      }
    }
    if (p[i].revents) r++;
  }
  return r;
}
int v_poll(struct pollfd *p, nfds_t n, int to) {
  if (want_timeout) { // a clock tick: the poll call times out unless something is ready
    want_timeout = false;
    int r = compute(p, n);
    return r;
  }
  for (;;) {
    int r = compute(p, n);
    if (r > 0) {
      if (++poll_spins > poll_spin_limit) { livelock = true; crash_info = "server spins: poll() keeps returning the same events without progress"; yield_to_explorer(); continue; }
      return r;
    }
    poll_spins = 0;
    yield_to_explorer();
    if (pending_signal) { int g = pending_signal; pending_signal = 0; deliver(g); errno = EINTR; return -1; }
    if (want_timeout) { want_timeout = false; r = compute(p, n); return r; }
  }
}
int v_ppoll(struct pollfd *p, nfds_t n, const struct timespec *, const void *) { return v_poll(p, n, 0); }
int v_select(int, void *, void *, void *, void *) { errno = ENOSYS; return -1; }
// ------------------------------------------------------------ sockets
int v_socket(int, int, int) { int f = sock_alloc(); if (f < 0) { errno = EMFILE; return -1; } S.socks[f] = Sock(); S.socks[f].kind = 1; return f; }
int v_bind(int fd, const struct sockaddr *sa, socklen_t) {
  Sock *s = sk(fd); if (!s) { errno = EBADF; return -1; }
  s->port = ntohs(((const struct sockaddr_in *)sa)->sin_port); s->tls = s->port == 7327; return 0;
}
int v_listen(int, int) { return 0; }
int v_setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int v_getsockopt(int, int, int, void *v, socklen_t *l) { if (v && l && *l >= 4) memset(v, 0, 4); return 0; }
int v_fcntl(int fd, int cmd, ...) {
  Sock *s = sk(fd); if (!s) return 0;
  if (cmd == F_GETFD) return s->cloexec ? FD_CLOEXEC : 0;
  if (cmd == F_SETFD) { va_list ap; va_start(ap, cmd); s->cloexec = va_arg(ap, int) & FD_CLOEXEC; va_end(ap); }
  return 0;
}
int v_ioctl(int, unsigned long, ...) { return 0; }
int v_accept(int fd, struct sockaddr *, socklen_t *) {
  Sock *s = sk(fd); if (!s || s->kind != 1) { errno = EBADF; return -1; }
  if (fault("accept", fd)) return -1;
  for (size_t i = 0; i < S.clients.size(); i++)
    if (S.clients[i].pending && S.clients[i].tls == s->tls) {
      int f = sock_alloc(); if (f < 0) { errno = EMFILE; return -1; }
      S.socks[f] = Sock(); S.socks[f].kind = 2; S.socks[f].client = (int)i; S.socks[f].tls = s->tls;
      S.clients[i].pending = false; S.clients[i].fd = f;
      return f;
    }
  errno = EWOULDBLOCK; return -1;
}
int v_accept4(int fd, struct sockaddr *a, socklen_t *l, int) { return v_accept(fd, a, l); }
static ssize_t sock_read(int fd, void *buf, size_t n, bool peek) {
  Client &c = S.clients[S.socks[fd].client];
  if (fault("read", fd)) return -1;
  if (c.rst) { errno = ECONNRESET; return -1; }
  if (n == 0) return 0;
  if (c.in.empty()) { if (c.fin) return 0; errno = EWOULDBLOCK; return -1; }
  size_t k = std::min(n, c.in.size()); if (c.rdchunk > 0) k = std::min<size_t>(k, c.rdchunk);
  memcpy(buf, c.in.data(), k); if (!peek) c.in.erase(0, k);
  return k;
}
static ssize_t sock_write(int fd, const void *buf, size_t n) {
  Client &c = S.clients[S.socks[fd].client];
  if (fault("write", fd)) return -1;
  if (c.rst || c.werr) { errno = EPIPE; return -1; }
  size_t k = n;
  if (write_choice) { long w = write_choice(S.socks[fd].client, n); if (w < 0) { errno = EWOULDBLOCK; return -1; } k = std::min<size_t>(k, w); if (k == 0 && n) { errno = EWOULDBLOCK; return -1; } }
  if (c.window >= 0) { if (c.window == 0) { errno = EWOULDBLOCK; return -1; } k = std::min<size_t>(k, c.window); c.window -= k; }
  c.out.append((const char *)buf, k);
  if (signal_at_write > 0 && --signal_at_write == 0) deliver(15);
  return k;
}
ssize_t v_read(int fd, void *buf, size_t n) {
  if (Sock *s = sk(fd)) { if (s->kind != 2) { errno = ENOTCONN; return -1; } return sock_read(fd, buf, n, false); }
  if (FDesc *f = fd_(fd)) {
    if (fault("fread", fd, f->path)) return -1;
    if (file_rchunk >= 0 && n > (size_t)file_rchunk) n = file_rchunk;
    size_t k = f->pos < f->data->size() ? std::min(n, f->data->size() - f->pos) : 0;
    memcpy(buf, f->data->data() + f->pos, k); f->pos += k; return k;
  }
  errno = EBADF; return -1;
}
ssize_t v_write(int fd, const void *buf, size_t n) {
  if (Sock *s = sk(fd)) { if (s->kind != 2) { errno = ENOTCONN; return -1; } return sock_write(fd, buf, n); }
  if (FDesc *f = fd_(fd)) {
    if (fault("fwrite", fd, f->path)) return -1;
    if (file_chunk >= 0 && n > (size_t)file_chunk && f->path.find(".log") == std::string::npos) n = file_chunk;
    if (crash_at("write", f->path, std::string((const char *)buf, n))) return -1;
    if (f->path.find(".log") != std::string::npos) return n;   // logs are not state
    if (!f->data.unique()) { // copy on write, keep the name bound to the new content
      auto old = f->data; f->data = std::make_shared<std::string>(*old);
      for (auto &e : S.files) if (e.second == old) e.second = f->data;
      for (auto &o : S.fds) if (o.used && &o != f && o.data == old) o.data = f->data;
    }
    if (f->flags & O_APPEND) f->pos = f->data->size();
    if (f->pos > f->data->size()) f->data->resize(f->pos, 0);
    f->data->replace(f->pos, std::min(n, f->data->size() - f->pos), (const char *)buf, n);
    f->pos += n; return n;
  }
  if (fd == 1 || fd == 2) return n;
  errno = EBADF; return -1;
}
ssize_t v_recv(int fd, void *b, size_t n, int fl) { if (!sk(fd)) { errno = EBADF; return -1; } return sock_read(fd, b, n, fl & MSG_PEEK); }
ssize_t v_send(int fd, const void *b, size_t n, int) { return v_write(fd, b, n); }
ssize_t v_recvfrom(int fd, void *b, size_t n, int fl, void *, void *) { return v_recv(fd, b, n, fl); }
ssize_t v_sendto(int fd, const void *b, size_t n, int, const void *, socklen_t) { return v_write(fd, b, n); }
ssize_t v_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = v_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t v_writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = v_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t v_recvmsg(int fd, struct msghdr *m, int) { return v_readv(fd, m->msg_iov, m->msg_iovlen); }
ssize_t v_sendmsg(int fd, const struct msghdr *m, int) { return v_writev(fd, m->msg_iov, m->msg_iovlen); }
int v_shutdown(int fd, int) { return sk(fd) ? 0 : -1; }
int v_close(int fd) {
  if (Sock *s = sk(fd)) {
    if (s->kind == 2) { Client &c = S.clients[s->client]; c.srv_closed = true; c.fd = -1; }
    *s = Sock(); return 0;
  }
  if (FDesc *f = fd_(fd)) { if (crash_at("close", f->path)) return -1; *f = FDesc(); return 0; }
  errno = EBADF; return -1;
}
int v_getpeername(int fd, struct sockaddr *sa, socklen_t *l) {
  Sock *s = sk(fd); if (!s || s->kind != 2) { errno = ENOTCONN; return -1; }
  if (S.clients[s->client].rst) { errno = ENOTCONN; return -1; }
  struct sockaddr_storage a; socklen_t n = to_sa(hosts[S.clients[s->client].host].ip, 40000 + s->client, &a);
  memcpy(sa, &a, std::min<size_t>(*l, n)); *l = n; return 0;
}
int v_getsockname(int, struct sockaddr *sa, socklen_t *l) {
  struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(7326); inet_pton(AF_INET, "127.0.0.1", &a.sin_addr);
  memcpy(sa, &a, std::min<size_t>(*l, sizeof a)); *l = sizeof a; return 0;
}
int v_getnameinfo(const struct sockaddr *sa, socklen_t l, char *h, socklen_t hl, char *sv, socklen_t sl, int flags) {
  if (sv && sl) sv[0] = 0;
  char ip[64];
  if (sa->sa_family == AF_INET && l >= sizeof(struct sockaddr_in)) inet_ntop(AF_INET, &((const struct sockaddr_in *)sa)->sin_addr, ip, sizeof ip);
  else if (sa->sa_family == AF_INET6 && l >= sizeof(struct sockaddr_in6)) inet_ntop(AF_INET6, &((const struct sockaddr_in6 *)sa)->sin6_addr, ip, sizeof ip);
  else return EAI_FAMILY;
  if (!h) return 0;
  if (!(flags & NI_NUMERICHOST))
    for (auto &x : hosts) if (!strcmp(v4of(x.ip), v4of(ip)) && x.name) { if (strlen(x.name) >= hl) return EAI_OVERFLOW; strcpy(h, x.name); return 0; }
  if ((flags & NI_NAMEREQD)) return EAI_NONAME;
  if (strlen(ip) >= hl) return EAI_OVERFLOW;
  strcpy(h, ip); return 0;
}
int v_getaddrinfo(const char *node, const char *svc, const struct addrinfo *hints, struct addrinfo **res) {
  struct AI { struct addrinfo a; struct sockaddr_storage s; };
  int fam = hints ? hints->ai_family : AF_UNSPEC, port = svc ? atoi(svc) : 0; std::vector<std::string> ips;
  if (node) {
    struct sockaddr_storage t;
    for (auto &y : hosts) if (ips.empty() && y.name && !strcmp(y.name, node)) ips = fwd_of(y);
    if (ips.empty() && (inet_pton(AF_INET, node, &t) == 1 || inet_pton(AF_INET6, node, &t) == 1)) ips = {node};
    if (ips.empty()) return EAI_NONAME;
  } else if (fam == AF_INET6) return EAI_FAMILY; else ips = {"0.0.0.0"};
  AI *x = (AI *)calloc(ips.size(), sizeof(AI)); size_t n = 0;
  for (auto &ip : ips) {
    AI &k = x[n]; k.a.ai_addrlen = to_sa(ip.c_str(), port, &k.s); k.a.ai_family = k.s.ss_family; k.a.ai_socktype = SOCK_STREAM;
    if (fam != AF_UNSPEC && fam != k.a.ai_family) {
      if (fam == AF_INET6 && (hints->ai_flags & AI_V4MAPPED)) k.a.ai_addrlen = to_sa(("::ffff:" + ip).c_str(), port, &k.s), k.a.ai_family = AF_INET6;
      else continue;
    }
    k.a.ai_addr = (struct sockaddr *)&k.s; if (n) x[n - 1].a.ai_next = &k.a;
    n++;
  }
  if (!n) { free(x); return EAI_NONAME; }
  *res = &x->a; return 0;
}
void v_freeaddrinfo(struct addrinfo *a) { free(a); }
struct hostent *v_gethostbyname(const char *) { return nullptr; }
struct hostent *v_gethostbyaddr(const void *, socklen_t, int) { return nullptr; }
int v_gethostname(char *b, size_t n) { snprintf(b, n, "icb.test"); return 0; }
// ------------------------------------------------------------ clock
time_t v_time(time_t *t) { time_t v = S.now_us / 1000000; if (t) *t = v; return v; }
int v_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = S.now_us / 1000000; tv->tv_usec = S.now_us % 1000000; return 0; }
int v_clock_gettime(int, struct timespec *ts) { ts->tv_sec = S.now_us / 1000000; ts->tv_nsec = S.now_us % 1000000 * 1000; return 0; }
unsigned v_sleep(unsigned n) { S.now_us += n * 1000000ll; return 0; }
int v_usleep(unsigned n) { S.now_us += n; return 0; }
int v_nanosleep(const struct timespec *, struct timespec *) { return 0; }
unsigned v_alarm(unsigned) { return 0; }
int v_setitimer(int, const void *, void *) { return 0; }
// ------------------------------------------------------------ files
static int fopen_(const char *path, int flags) {
  std::string p = norm(path);
  if (fault(flags & (O_CREAT | O_WRONLY | O_RDWR) ? "create" : "open", -1, p)) return -1;
  auto it = S.files.find(p);
  if (it == S.files.end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (crash_at("open", p, "create")) return -1;
    S.files[p] = std::make_shared<std::string>(); it = S.files.find(p);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (flags & O_TRUNC) { if (crash_at("open", p, "trunc")) return -1; it->second = std::make_shared<std::string>(); }
  }
  size_t i; for (i = 0; i < S.fds.size(); i++) if (!S.fds[i].used) break;
  if (i == S.fds.size()) S.fds.emplace_back();
  S.fds[i].used = true; S.fds[i].path = p; S.fds[i].pos = 0; S.fds[i].flags = flags; S.fds[i].data = it->second;
  return FBASE + i;
}
int v_open(const char *p, int fl, ...) { return fopen_(p, fl); }
int v_open64(const char *p, int fl, ...) { return fopen_(p, fl); }
int v_openat(int, const char *p, int fl, ...) { return fopen_(p, fl); }
int v_creat(const char *p, mode_t) { return fopen_(p, O_WRONLY | O_CREAT | O_TRUNC); }
ssize_t v_pread(int fd, void *b, size_t n, off_t o) { FDesc *f = fd_(fd); if (!f) { errno = EBADF; return -1; } size_t sp = f->pos; f->pos = o; ssize_t r = v_read(fd, b, n); f->pos = sp; return r; }
ssize_t v_pwrite(int fd, const void *b, size_t n, off_t o) { FDesc *f = fd_(fd); if (!f) { errno = EBADF; return -1; } size_t sp = f->pos; f->pos = o; ssize_t r = v_write(fd, b, n); f->pos = sp; return r; }
off_t v_lseek(int fd, off_t o, int w) { FDesc *f = fd_(fd); if (!f) { errno = EBADF; return -1; } f->pos = w == SEEK_SET ? o : w == SEEK_CUR ? f->pos + o : f->data->size() + o; return f->pos; }
off_t v_lseek64(int fd, off_t o, int w) { return v_lseek(fd, o, w); }
static int dostat(std::shared_ptr<std::string> d, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = d->size(); st->st_nlink = 1; return 0; }
int v_fstat(int fd, struct stat *st) { FDesc *f = fd_(fd); if (!f) { errno = EBADF; return -1; } return dostat(f->data, st); }
int v_stat(const char *p, struct stat *st) { auto it = S.files.find(norm(p)); if (it == S.files.end()) { errno = ENOENT; return -1; } return dostat(it->second, st); }
int v_lstat(const char *p, struct stat *st) { return v_stat(p, st); }
int v_access(const char *p, int) { if (S.files.count(norm(p))) return 0; errno = ENOENT; return -1; }
int v_fchmod(int, mode_t) { return 0; }
int v_chmod(const char *, mode_t) { return 0; }
int v_ftruncate(int fd, off_t n) { FDesc *f = fd_(fd); if (!f) { errno = EBADF; return -1; } if (crash_at("trunc", f->path)) return -1; auto o = f->data; f->data = std::make_shared<std::string>(*o); f->data->resize(n); for (auto &e : S.files) if (e.second == o) e.second = f->data; return 0; }
int v_fsync(int fd) { FDesc *f = fd_(fd); if (!f) { errno = EBADF; return -1; } if (fault("fsync", fd, f->path)) return -1; if (crash_at("fsync", f->path)) return -1; return 0; }
int v_fdatasync(int fd) { return v_fsync(fd); }
void v_sync(void) {}
int v_rename(const char *a, const char *b) {
  std::string x = norm(a), y = norm(b);
  if (fault("rename", -1, x)) return -1;
  if (!S.files.count(x)) { errno = ENOENT; return -1; }
  if (crash_at("rename", x, y)) return -1;
  auto d = S.files[x]; S.files.erase(x); S.files[y] = d; return 0;
}
int v_unlink(const char *a) { std::string x = norm(a); if (!S.files.count(x)) { errno = ENOENT; return -1; } if (crash_at("unlink", x)) return -1; S.files.erase(x); return 0; }
int v_remove(const char *a) { return v_unlink(a); }
int v_link(const char *a, const char *b) { std::string x = norm(a); if (!S.files.count(x)) { errno = ENOENT; return -1; } S.files[norm(b)] = S.files[x]; return 0; }
int v_symlink(const char *, const char *) { errno = EPERM; return -1; }
int v_mkdir(const char *, mode_t) { return 0; }
int v_rmdir(const char *) { return 0; }
int v_mkstemp(char *t) { size_t n = strlen(t); if (n >= 6) memcpy(t + n - 6, "aaaaaa", 6); return fopen_(t, O_RDWR | O_CREAT | O_TRUNC); }
// stdio on top of the virtual files
static ssize_t ck_read(void *c, char *b, size_t n) { return v_read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = v_write((int)(intptr_t)c, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) { off_t r = v_lseek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return v_close((int)(intptr_t)c); }
FILE *v_fdopen(int fd, const char *m) { cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; return fopencookie((void *)(intptr_t)fd, m, io); }
FILE *v_fopen(const char *p, const char *m) {
  int fl = m[0] == 'r' ? (strchr(m, '+') ? O_RDWR : O_RDONLY) : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  int fd = fopen_(p, fl); if (fd < 0) return nullptr;
  return v_fdopen(fd, m);
}
FILE *v_fopen64(const char *p, const char *m) { return v_fopen(p, m); }
FILE *v_freopen(const char *, const char *, FILE *f) { return f; }
// ------------------------------------------------------------ process
[[noreturn]] void v_exit(int c) { S.exited = true; S.exit_code = c; if (on_quiescent && !in_coro) on_quiescent(); for (;;) yield_to_explorer(); }
[[noreturn]] void v__exit(int c) { v_exit(c); }
[[noreturn]] void v__Exit(int c) { v_exit(c); }
[[noreturn]] void v_abort(void) { crash_info = "server called abort()"; raise(SIGSEGV); v_exit(134); }
int v_fork(void) { return fault("fork", -1) ? -1 : 0; }
int v_vfork(void) { return 0; }
int v_execve(const char *, char *const av[], char *const *) { if (fault("execve", -1)) return -1; S.exited = true; S.execd = true; S.exec_argv.clear(); for (int i = 0; av[i]; i++) S.exec_argv.push_back(av[i]); if (on_quiescent && !in_coro) on_quiescent(); for (;;) yield_to_explorer(); }
int v_execv(const char *p, char *const av[]) { return v_execve(p, av, nullptr); }
int v_execvp(const char *p, char *const av[]) { return v_execve(p, av, nullptr); }
int v_execl(const char *, ...) { errno = ENOSYS; return -1; }
int v_system(const char *) { return -1; }
FILE *v_popen(const char *, const char *) { return nullptr; }
int v_kill(pid_t, int) { return 0; }
int v_raise(int) { return 0; }
void *v_signal(int g, void *h) { void *o = S.sighandler[g & 31]; S.sighandler[g & 31] = h; return o; }
int v_sigaction(int g, const struct sigaction *a, struct sigaction *) { if (a) v_signal(g, (void *)a->sa_handler); return 0; }
int v_getrlimit(int, struct rlimit *r) { r->rlim_cur = r->rlim_max = 4096; return 0; }
int v_setrlimit(int, const struct rlimit *) { return 0; }
pid_t v_getpid(void) { return 4242; }
pid_t v_getppid(void) { return 1; }
pid_t v_setsid(void) { return 4242; }
int v_daemon(int, int) { return 0; }
mode_t v_umask(mode_t) { return 022; }
int v_chdir(const char *) { return 0; }
uid_t v_getuid(void) { return 1000; }
uid_t v_geteuid(void) { return 1000; }
int v_setuid(uid_t) { return 0; }
void v_perror(const char *) {}
int v_puts(const char *) { return 0; }
void v_setbuf(FILE *, char *) {}
void v_setlinebuf(FILE *) {}
int v_setvbuf(FILE *, char *, int, size_t) { return 0; }
// ------------------------------------------------------------ TLS (record-preserving byte stream; handshake of c.hs round trips)
struct VSSL { int fd; int err; int want; int wlen; const void *wbuf; };
static int ctx_dummy;
void *v_TLS_server_method(void) { return &ctx_dummy; }
void *v_SSL_CTX_new(const void *) { return &ctx_dummy; }
void v_SSL_CTX_free(void *) {}
long v_SSL_CTX_ctrl(void *, int, long, void *) { return 1; }
uint64_t v_SSL_CTX_set_options(void *, uint64_t o) { return o; }
int v_SSL_CTX_set_cipher_list(void *, const char *) { return 1; }
void v_SSL_CTX_set_verify(void *, int, void *) {}
int v_SSL_CTX_use_certificate_file(void *, const char *, int) { return 1; }
int v_SSL_CTX_use_certificate_chain_file(void *, const char *) { return 1; }
int v_SSL_CTX_use_PrivateKey_file(void *, const char *, int) { return 1; }
int v_SSL_CTX_check_private_key(const void *) { return 1; }
int v_OPENSSL_init_ssl(uint64_t, const void *) { return 1; }
int v_OPENSSL_init_crypto(uint64_t, const void *) { return 1; }
void v_ERR_print_errors_cb(void *, void *) {}
unsigned long v_ERR_get_error(void) { return 0; }
unsigned long v_ERR_peek_error(void) { return 0; }
void v_ERR_clear_error(void) {}
char *v_ERR_error_string(unsigned long, char *b) { static char s[32] = "err"; if (b) strcpy(b, "err"); return b ? b : s; }
void v_ERR_error_string_n(unsigned long, char *b, size_t n) { if (n) snprintf(b, n, "err"); }
#ifdef VOS_NO_HEAP
static void *tls_alloc(size_t n) { return calloc(1, n); } static void tls_free(void *p) { free(p); }
#else
static void *tls_alloc(size_t n) { return v_calloc(1, n); } static void tls_free(void *p) { v_free(p); }
#endif
void *v_SSL_new(void *) { VSSL *s = (VSSL *)tls_alloc(sizeof(VSSL)); s->fd = -1; s->want = 1; s->wbuf = nullptr; S.nssl++; return s; }
void v_SSL_free(void *p) { if (p) { S.nssl--; tls_free(p); } }
int v_SSL_set_fd(void *p, int fd) { ((VSSL *)p)->fd = fd; return 1; }
int v_SSL_get_fd(const void *p) { return ((const VSSL *)p)->fd; }
int v_SSL_get_error(const void *p, int r) { return r > 0 ? 0 : ((const VSSL *)p)->err; }
// SSL_ERROR: 1 SSL, 2 WANT_READ, 3 WANT_WRITE, 5 SYSCALL, 6 ZERO_RETURN
// Wire format of a TLS client: handshake flights are bytes 'H'; application records are 'R', one length byte, data;
// 'C' is close_notify.  SSL_read decrypts one whole record at a time; what the caller did not take stays pending
// inside the TLS layer, where poll() cannot see it.  SSL_write is all-or-nothing and must be retried with the same buffer.
int v_SSL_want(const void *p) { return ((const VSSL *)p)->want; }
int v_SSL_accept(void *p) {
  VSSL *s = (VSSL *)p; Sock *k = sk(s->fd); if (!k || k->kind != 2) { s->err = 5; return -1; }
  Client &c = S.clients[k->client];
  s->want = 1;
  while (c.hs > 0) { // each handshake flight is one byte 'H' from the client, answered by the server
    if (c.hsw) { // the flight was taken, the answer is waiting for room
      if (c.rst) { s->err = 5; errno = EPIPE; return -1; }
      if (c.window == 0) { s->err = 3; s->want = 2; errno = EAGAIN; return -1; }
      c.hsw = false; c.hs--; continue;
    }
    if (c.rst) { s->err = 5; return -1; }
    if (c.in.empty()) { if (c.fin) { s->err = 5; return 0; } s->err = 2; s->want = 3; errno = EAGAIN; return -1; }
    if (c.in[0] != 'H') { s->err = 1; return -1; }
    c.in.erase(0, 1); c.hsw = true;
  }
  if (c.rst) { s->err = 5; return -1; }
  return 1;
}
int v_SSL_read(void *p, void *b, int n) {
  VSSL *s = (VSSL *)p; if (!sk(s->fd) || sk(s->fd)->kind != 2) { s->err = 5; return -1; }
  Client &c = S.clients[sk(s->fd)->client];
  s->want = 1;
  if (n < 0) { s->err = 1; return -1; }
  if (c.tlsbuf.empty()) {
    if (c.rst) { s->err = 5; errno = ECONNRESET; return -1; }
    // the TLS layer takes whatever the socket has, a record may be incomplete
    while (!c.in.empty() && !(c.tlsraw.size() >= 2 && c.tlsraw.size() == 2u + (unsigned char)c.tlsraw[1])) {
      if (c.tlsraw.empty() && c.in[0] == 'C') { s->err = 6; return 0; }
      if (c.tlsraw.empty() && c.in[0] != 'R') { s->err = 1; return -1; }
      c.tlsraw += c.in[0]; c.in.erase(0, 1);
    }
    if (c.tlsraw.size() >= 2 && c.tlsraw.size() == 2u + (unsigned char)c.tlsraw[1]) { c.tlsbuf = c.tlsraw.substr(2); c.tlsraw.clear(); }
    if (c.tlsbuf.empty()) {
      if (c.fin) { s->err = 1; return 0; }
      s->err = 2; s->want = 3; errno = EAGAIN; return -1;
    }
  }
  if (n == 0) { s->err = 5; return 0; }
  int k = std::min<int>(n, c.tlsbuf.size()); memcpy(b, c.tlsbuf.data(), k); c.tlsbuf.erase(0, k);
  s->err = 0; return k;
}
int v_SSL_write(void *p, const void *b, int n) {
  VSSL *s = (VSSL *)p; Sock *k = sk(s->fd); if (!k || k->kind != 2) { s->err = 5; return -1; }
  Client &c = S.clients[k->client];
  s->want = 1;
  if (n <= 0) { s->err = 1; return n == 0 ? 0 : -1; }
  if (s->wbuf && (s->wbuf != b || n < s->wlen)) { s->err = 1; return -1; }   // bad write retry
  if (c.rst || c.werr) { s->err = 5; errno = EPIPE; return -1; }
  if (c.window >= 0 && c.window < n) { s->err = 3; s->want = 2; s->wbuf = b; s->wlen = n; errno = EAGAIN; return -1; }
  ssize_t r = sock_write(s->fd, b, n);
  if (r > 0) { s->err = 0; s->wbuf = nullptr; return r; }
  s->err = 5; return -1;
}
int v_SSL_pending(const void *p) { const VSSL *s = (const VSSL *)p; Sock *k = sk(s->fd); return k && k->kind == 2 ? (int)S.clients[k->client].tlsbuf.size() : 0; }
int v_SSL_has_pending(const void *p) { const VSSL *s = (const VSSL *)p; Sock *k = sk(s->fd); return k && k->kind == 2 && (S.clients[k->client].tlsbuf.size() || S.clients[k->client].tlsraw.size()); }
int v_SSL_shutdown(void *) { return 1; }
}

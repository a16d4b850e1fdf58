// Virtual operating system for model checking icbd: sockets, clock, files, resolver, TLS and heap.
// The code under test runs as a coroutine; it yields to the explorer whenever poll() finds nothing to do.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>

namespace vos {

// ---------------------------------------------------------------- sockets
struct Sock {              // indexed by virtual fd
  uint8_t kind = 0;        // 0 free, 1 listener, 2 connection
  int client = -1;         // owning client for connections
  bool tls = false;        // listener/connection speaks TLS
  bool cloexec = false;
  int port = 0;
};
struct Client {
  int fd = -1;             // server-side fd, -1 if not accepted / closed by server
  bool pending = false;    // waiting in the accept queue
  bool tls = false;
  int host = 0;            // index in hosts table
  std::string in;          // bytes sent by the client, not yet read by the server
  bool fin = false;        // client closed its end after 'in'
  bool rst = false;        // connection reset by the client
  bool srv_closed = false; // server closed the connection
  std::string out;         // bytes the server wrote
  int window = -1;         // bytes the server may still write before EAGAIN (-1 unlimited)
  int rdchunk = -1;        // at most this many bytes per read (-1 unlimited)
  bool werr = false;       // writes fail with EPIPE
  bool spur = false;       // poll() reports it readable once although there is nothing to read
  // TLS
  int hs = 0;              // remaining handshake round trips
  bool hsw = false;        // the server's answer to the last flight does not fit the window yet
  std::string tlsbuf;      // decrypted, not yet taken by the server
  std::string tlsraw;      // part of a record already read from the socket
};
struct File { std::shared_ptr<std::string> data; };
struct FDesc { bool used = false; std::string path; size_t pos = 0; int flags = 0; std::shared_ptr<std::string> data; };

struct State {
  std::vector<Sock> socks;
  std::vector<Client> clients;
  std::map<std::string, std::shared_ptr<std::string>> files;
  std::vector<FDesc> fds;      // file descriptors, fd = FBASE + index
  int64_t now_us = 0;
  bool exited = false; int exit_code = 0;
  bool execd = false; std::vector<std::string> exec_argv;
  int lost_log = 0;
  int nssl = 0;                // TLS connection objects in existence
  void *roots[4] = {nullptr, nullptr, nullptr, nullptr};   // heap objects of the code under test held by a harness
  void *sighandler[32] = {};
};
constexpr int FBASE = 1000;
extern State S;
extern int max_sock_fd;          // virtual sockets get fds [first_sock_fd, max_sock_fd]
extern int first_sock_fd;
extern long poll_spins, poll_spin_limit;
extern bool livelock;

// tick request: next quiescent poll returns 0 (timeout) once
extern bool want_timeout;
// order in which poll reports / server sees ready fds is the pollset order (fixed by the server)

// file-system operation hook (crash-point exploration); called BEFORE the op takes effect.
// op: "open","write","fsync","rename","unlink","close","trunc"; returns true to simulate crash here
extern std::function<bool(const char *op, const std::string &path, const std::string &arg)> fs_hook;
// fault hook for syscalls: return errno (>0) to fail, 0 for normal
extern std::function<int(const char *op, int fd, const std::string &path)> fault_hook;
extern long file_rchunk;                 // at most this many bytes are returned by one read of a file
extern long file_chunk;                  // at most this many bytes are taken by one write to a file (-1 unlimited)
extern int signal_at_write;              // n > 0: deliver SIGTERM right after the n-th socket write from now
extern int pending_signal;               // delivered at the next quiescent poll()
// choose how many bytes of a write are accepted (given fd and len); default all
extern std::function<long(int client, size_t len)> write_choice;

struct Host { const char *name; const char *ip; const char *fwd = nullptr; };  // fwd: what the name resolves to, if not ip (a comma-separated list)
std::string node_of(int host);           // what the server must call that host: its name if it is genuine, else the address in brackets
extern std::vector<Host> hosts;
void del_file(const std::string &path);
void put_file(const std::string &path, const std::string &data);
bool has_file(const std::string &path);

// ---------------------------------------------------------------- coroutine / snapshots
struct Image {            // dlopen'ed code under test
  void *handle = nullptr;
  char *seg = nullptr; size_t seglen = 0;
  std::vector<std::pair<char*, size_t>> skip;   // scratch regions not part of the hash
};
extern Image img;
bool load_image(const char *so);
void *sym(const char *name);

struct Snap {
  std::vector<char> seg, heap, stack, hshadow, sshadow; size_t heap_used = 0; char *sp = nullptr; char *stk_lo = nullptr;
  bool running = false, finished = false;
  State st; int err = 0;
};
void save(Snap &s);
void restore(const Snap &s);
void start(std::function<void()> body);  // start coroutine (runs until first yield)
enum Stop { YIELD, FINISHED, CRASH, HANG, LIVELOCK };
Stop resume();                           // run the server until quiescent
Stop run_call(std::function<void()> f);  // run f on the coroutine stack w/ crash+hang protection, to completion
extern std::string crash_info;
long lost_blocks();                      // live heap blocks of the code under test that nothing refers to any more
uint64_t hash_memory();                  // canonical hash of code-under-test memory (globals + reachable heap)
uint64_t hash_state();                   // hash of virtual OS state
extern bool in_coro;
void yield_to_explorer();
extern std::function<void()> on_quiescent; // if set (fork explorer), called instead of yielding
void install_handlers();
void progress();                         // long enumerations inside run_call: tell the watchdog
bool heap_contains(const void *p);
uint64_t mix(uint64_t h, uint64_t v);
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x9E3779B97F4A7C15ull);
} // namespace vos
